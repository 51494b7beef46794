#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': observe, 'hook_needed': hook}})


BOOT = 'The suite re-translates the system\'s own sources and runs example programs with fixed data; '

p('C01', 'Unification computes the most general unifier',
  'Unifying any two finite terms succeeds exactly when they have a common instance, and then binds the variables to a most general unifier (nothing more, nothing less). '
  'This holds for every way a program unifies (explicit =, \\=, unify_with_occurs_check, clause heads in native and byte-code, built-in result arguments). '
  'unify_with_occurs_check fails exactly when the solution would be a cyclic term, and a failed \\= test leaves no binding.',
  ['inputs', 'programs'], 'all pairs of terms with shared variables, shared sub-structures, any arity up to 255, long lists, chains of variables of different ages; all unification entry points',
  BOOT + 'they never compare the substitution computed with an independent one.',
  ['src/EnginePl/unify.c', 'src/EnginePl/wam_inst.c', 'src/EnginePl/wam_inst.h', 'src/BipsPl/unify.pl', 'src/BipsPl/bc_supp.c', 'src/Pl2Wam/code_gen.pl'],
  [('UNIFY_FCT_NAME (both expansions)', 'src/EnginePl/unify.c'), ('Pl_Get_*/Pl_Unify_* WAM instructions', 'src/EnginePl/wam_inst.c'), ('byte-code emulator', 'src/BipsPl/bc_supp.c')],
  ['answer substitution logged through the C interface', 'success/failure of each unification'])

p('C02', 'Failure, exceptions and negation leave no trace',
  'After a goal fails, is backtracked into, is used under negation, or exits by an exception caught outside it, every observable term, every backtrackably modified argument or global variable and every finite-domain variable is exactly what it was when the goal was called. '
  'The same holds after any interleaving of such episodes nested to any depth.',
  ['histories', 'programs'], 'all sequences of bind / destructive-update / constrain / open choice-point / cut / fail / throw steps',
  BOOT + 'undoing is only ever exercised by straight generate-and-test.',
  ['src/EnginePl/wam_inst.c', 'src/EnginePl/wam_inst.h', 'src/BipsPl/catch.pl', 'src/BipsPl/throw_c.c', 'src/BipsPl/g_var_inl_c.c', 'src/BipsPl/term_inl_c.c', 'src/EngineFD/fd_inst.c'],
  [('Pl_Untrail, Pl_Cut, choice-point creation', 'src/EnginePl/wam_inst.c'), ('trailing macros Bind_UV/Trail_*', 'src/EnginePl/wam_inst.h'), ('ball copy and choice-point restoration', 'src/BipsPl/catch.pl, src/BipsPl/throw_c.c'), ('FD stamps and trail frames', 'src/EngineFD/fd_inst.c')],
  ['snapshots of the reachable state before and after each episode'],
  state=[('trail', 'bindings to undo', 'src/EnginePl/wam_inst.h')])

p('C03', 'Control constructs follow the ISO search order',
  'For every program, goals deliver their solutions, side effects and exceptions in the depth-first left-to-right order ISO prescribes, with conjunction, disjunction, cut (transparent in ;, ->, *-> branches and local in call/N, \\+, findall and conditions), if-then-else, soft-cut, negation, once, call/N, forall-style loops, call_nth, countall and catch/throw having their defined meaning. '
  'catch/3 intercepts a ball only if a copy of it unifies with the catcher, while the goal is active, at the innermost matching level.',
  ['programs', 'inputs'], 'all pure programs over these constructs, any nesting, called directly, through variables, through call/N and from inside clause bodies',
  BOOT + 'no test compares answer order or cut scope for generated control nestings.',
  ['src/BipsPl/control.pl', 'src/BipsPl/control_c.c', 'src/BipsPl/call.pl', 'src/BipsPl/call_args.pl', 'src/BipsPl/call_args_c.c', 'src/BipsPl/catch.pl', 'src/BipsPl/throw.pl', 'src/BipsPl/throw_c.c', 'src/Pl2Wam/syn_sugar.pl', 'src/Pl2Wam/internal.pl'],
  [('normalisation of control constructs and cut', 'src/Pl2Wam/syn_sugar.pl, src/Pl2Wam/internal.pl'), ('meta-call compiled on the fly', 'src/BipsPl/call.pl, src/BipsPl/bc_supp.c'), ('catch/throw', 'src/BipsPl/catch.pl')],
  ['trace of side effects and answers of each program, compared with a reference interpreter'])

p('C04', 'Native, byte-code and interpreted execution agree with the source',
  'A program compiled to native code, consulted (byte-code), and run as dynamic clauses gives the same answers in the same order, the same side effects and the same errors, and these are the ones its source text defines. '
  'This includes head and body terms of any shape, depth and arity, any number of clauses and variables, first/last/void/permanent variables, inline built-ins and arithmetic with or without fast-math, and any distribution of the predicates over files.',
  ['programs', 'configurations'], 'all programs; the execution modes native, native with optimisation options off, byte-code, dynamic',
  BOOT + 'they check that the compiler reproduces itself, not that arbitrary programs mean the same in all three modes.',
  ['src/Pl2Wam/code_gen.pl', 'src/Pl2Wam/reg_alloc.pl', 'src/Pl2Wam/inst_codif.pl', 'src/Pl2Wam/wam_emit.pl', 'src/Wam2Ma/wam2ma.c', 'src/Ma2Asm/x86_64_any.c', 'src/BipsPl/bc_supp.c', 'src/BipsPl/dynam_supp.c', 'src/EnginePl/wam_inst.c'],
  [('code generation and register allocation', 'src/Pl2Wam/code_gen.pl, src/Pl2Wam/reg_alloc.pl'), ('WAM to mini-assembly', 'src/Wam2Ma/wam2ma.c'), ('native mapper', 'src/Ma2Asm/x86_64_any.c'), ('emulator', 'src/BipsPl/bc_supp.c')],
  ['event log of the same program in each mode'])

p('C05', 'Clause indexing never changes the answers',
  'Whatever the first arguments of the clauses (atoms, integers, floats, lists, structures, variables, in any number and order), a call selects exactly the clauses whose heads unify with it, in source order. '
  'This holds for static native, byte-code and dynamic predicates, for bound, partially bound and unbound calls, for very large fact tables, and a call that matches only its last or only candidate leaves no alternative behind when the first argument alone tells the clauses apart.',
  ['programs', 'inputs'], 'all clause sequences and call patterns, up to tens of thousands of clauses',
  BOOT + 'the tables built there are small and their misses are not probed.',
  ['src/Pl2Wam/indexing.pl', 'src/Pl2Wam/first_arg.pl', 'src/Wam2Ma/wam2ma.c', 'src/EnginePl/wam_inst.c', 'src/BipsPl/dynam_supp.c', 'src/BipsPl/bc_supp.c', 'src/EnginePl/hash_tbl.c'],
  [('switch_on_* generation', 'src/Pl2Wam/indexing.pl'), ('switch tables', 'src/EnginePl/wam_inst.c, src/EnginePl/hash_tbl.c'), ('dynamic clause chains', 'src/BipsPl/dynam_supp.c')],
  ['ordered list of clause numbers selected by every call, choice-point count after it'])

p('C06', 'Integer arithmetic is exact or an error',
  'Every integer evaluation gives the mathematically exact result of the evaluable as documented (including sign rules of //, /, rem, mod, div, shifts, bitwise operators, gcd, **, ^, msb and conversions) or raises the documented error; it never wraps silently. '
  'Comparison, is/2, succ/2 and g_inc-style counters agree, and native code with or without inlined arithmetic, byte-code and meta-called evaluation give the same result.',
  ['inputs', 'configurations'], 'all integer expressions over the whole integer range, all evaluables, all evaluation contexts',
  BOOT + 'a handful of operand values near zero is used.',
  ['src/BipsPl/arith_inl_c.c', 'src/BipsPl/arith_inl.pl', 'src/Pl2Wam/code_gen.pl', 'src/EnginePl/arch_dep.h', 'src/Wam2Ma/wam2ma.c'],
  [('Pl_Fct_Fast_* and Pl_Fct_*', 'src/BipsPl/arith_inl_c.c'), ('overflow detection', 'src/BipsPl/arith_inl_c.c'), ('math inlining', 'src/Pl2Wam/code_gen.pl')],
  ['value or error of each evaluation, compared with unbounded integers'])

p('C07', 'Float and mixed arithmetic follows IEEE double and the documented rules',
  'Every float or mixed evaluation yields the correctly typed IEEE double result (or the documented evaluation/type/instantiation error), with rounding functions, min/max, sign, conversions and printing of floats consistent with the exact value; comparison of an integer with a float compares them as floats. '
  'Reading back a written float gives the same float.',
  ['inputs', 'configurations'], 'all expressions over doubles (incl. subnormal, huge, negative zero) and integers, all evaluables, all evaluation contexts',
  BOOT + 'few float operations are executed at all.',
  ['src/BipsPl/arith_inl_c.c', 'src/EnginePl/misc.c', 'src/BipsPl/write_supp.c', 'src/BipsPl/lexer_supp.c', 'src/EnginePl/wam_inst.c'],
  [('Pl_Fct_* float cases', 'src/BipsPl/arith_inl_c.c'), ('float output', 'src/BipsPl/write_supp.c'), ('float input', 'src/BipsPl/lexer_supp.c')],
  ['bit pattern of each result, compared with an IEEE reference'])

p('C08', 'Standard order is total and sorting respects it',
  'compare/3, ==, @< and friends implement one total order over all terms (variables, floats, integers, atoms, compounds by arity, name, arguments), consistent with each other. '
  'sort/1-2, msort/1-2, keysort and the sorting done by setof/bagof return the permutation of their input ordered by it, removing exactly the duplicates they document and keeping the input order of equal keys.',
  ['inputs'], 'all terms and lists of terms, any length and duplication pattern',
  BOOT + 'sorting is only exercised indirectly.',
  ['src/BipsPl/term_supp.c', 'src/BipsPl/term_inl_c.c', 'src/BipsPl/sort_c.c', 'src/BipsPl/sort.pl'],
  [('Pl_Term_Compare', 'src/BipsPl/term_supp.c'), ('merge sort', 'src/BipsPl/sort_c.c')],
  ['results of comparisons and sorted lists, compared with a reference order'])

p('C09', 'Term construction, inspection and copying are faithful',
  'functor, arg, =.., copy_term, term_variables, setarg/nb_setarg, subsumes_term, acyclic_term, term_hash, numbering/binding of variables and type tests return exactly what the structure of their argument defines, in every instantiation mode they document, without modifying anything else. '
  'A copy is a variant of the original sharing no unbound variable with it; equal terms have equal hashes.',
  ['inputs', 'histories'], 'all terms, all modes, any arity and size',
  BOOT + 'modes and sizes are not varied.',
  ['src/BipsPl/term_inl_c.c', 'src/BipsPl/term_supp.c', 'src/BipsPl/term_inl.pl', 'src/BipsPl/pretty_c.c', 'src/BipsPl/type_inl_c.c', 'src/Tools/hash_fct.c'],
  [('Pl_Copy_Term, Pl_Term_Variables', 'src/BipsPl/term_supp.c'), ('setarg/arg/functor/univ', 'src/BipsPl/term_inl_c.c')],
  ['result terms, compared with a reference implementation'])

p('C10', 'Atom and text predicates satisfy their relational definition',
  'atom_length, atom_concat, sub_atom, char_code, atom_chars/codes, number_atom/chars/codes, name, lower_upper, new_atom and the term-to-text conversions enumerate exactly the solutions of their definition, in the documented order and in every mode, for text of any length over all 255 character codes. '
  'Conversion of numbers to text and back is the identity, and malformed numbers raise a syntax error (or fail, where documented).',
  ['inputs'], 'all atoms and texts, all instantiation modes',
  BOOT + 'no test enumerates solutions of these predicates.',
  ['src/BipsPl/atom_c.c', 'src/BipsPl/atom.pl', 'src/BipsPl/const_io_c.c', 'src/EnginePl/atom.c'],
  [('non-deterministic sub_atom/atom_concat', 'src/BipsPl/atom_c.c'), ('number parsing', 'src/BipsPl/atom_c.c, src/BipsPl/lexer_supp.c')],
  ['solution lists, compared with a reference enumeration'])

p('C11', 'Atoms are identical exactly when their text is',
  'However many atoms exist and however they were created (source text, reading, conversion, concatenation, C interface, generated names), two atoms are identical if and only if they have the same characters, and current_atom and atom_property report exactly the existing atoms and their true properties. '
  'When the atom table is full the system reports it and never confuses two atoms.',
  ['histories', 'configurations'], 'all creation orders and numbers of atoms up to and beyond the table capacity, any capacity',
  BOOT + 'the table stays nearly empty.',
  ['src/EnginePl/atom.c', 'src/EnginePl/hash_tbl.c', 'src/Tools/hash_fct.c', 'src/BipsPl/atom_c.c'],
  [('open-addressing atom table, Pl_Create_Allocate_Atom', 'src/EnginePl/atom.c'), ('Pl_Hash_Buffer', 'src/Tools/hash_fct.c')],
  ['identity of atoms created along different routes, enumeration of current_atom'])

p('C12', 'List library predicates satisfy their definition',
  'append, member, memberchk, reverse, delete, select, subtract, permutation, prefix, suffix, sublist, last, flatten, length, nth0, nth1, nth, max_list, min_list, sum_list, maplist and related list predicates return exactly the solutions of their definition, in its order, for proper, partial and ill-typed lists. '
  'They terminate whenever the definition has finitely many answers for the documented modes.',
  ['inputs'], 'all lists and modes, lengths 0 to 10^5',
  BOOT + 'most of these predicates are never called.',
  ['src/BipsPl/list.pl', 'src/BipsPl/list_c.c', 'src/BipsPl/all_solut.pl'],
  [('Prolog definitions', 'src/BipsPl/list.pl'), ('C versions of length, nth, max/min/sum, member', 'src/BipsPl/list_c.c')],
  ['solution lists, compared with a reference enumeration'])

p('C13', 'What is written with quotes reads back as the same term',
  'For every finite term, operator table and set of write options that keep quoting on, the text produced by writeq, write_canonical, write_term with any combination of ignore_ops, spacing, space_args, numbervars and priority, and the text to/from-term conversions read back under the same operators as a variant of the term. '
  'portray_clause and listing print clauses that read back as variants of the clauses.',
  ['inputs', 'histories', 'configurations'], 'all terms, all operator tables (incl. operators that are also atoms, numbers, brackets), all flag settings',
  BOOT + 'output is never read back.',
  ['src/BipsPl/write_supp.c', 'src/BipsPl/write_c.c', 'src/BipsPl/write.pl', 'src/BipsPl/pretty_c.c', 'src/BipsPl/pretty.pl', 'src/BipsPl/parser_supp.c', 'src/BipsPl/lexer_supp.c'],
  [('spacing and bracketing decisions', 'src/BipsPl/write_supp.c'), ('operator-precedence parser', 'src/BipsPl/parser_supp.c')],
  ['text written and term read back'])

p('C14', 'The reader maps each standard text to its one term',
  'Every text that the standard syntax (with the documented extensions) assigns to a term is read as that term, whatever the layout, comments, redundant brackets, quoting style, escape sequences, number notation and flags, with variable names, singletons and line/column information reported correctly. '
  'A text that is not a term raises a syntax error, and reading resumes right after the faulty clause.',
  ['inputs', 'configurations'], 'all texts built from the grammar, and their corruptions',
  BOOT + 'the system\'s own sources use one layout style.',
  ['src/BipsPl/lexer_supp.c', 'src/BipsPl/parser_supp.c', 'src/BipsPl/read_c.c', 'src/BipsPl/read.pl', 'src/BipsPl/lexer_supp.h'],
  [('scanner', 'src/BipsPl/lexer_supp.c'), ('operator-precedence parser', 'src/BipsPl/parser_supp.c'), ('variable dictionary', 'src/BipsPl/parser_supp.c')],
  ['term read, variable lists, positions, errors and the next term read'])

p('C15', 'The operator table is exactly what op/3 declared',
  'After any sequence of op/3 calls, current_op/3 enumerates exactly the operators in force (last priority and specifier per kind, none for priority 0), the reader and the writer use those and no others, and calls that ISO or the manual forbids raise their error and change nothing.',
  ['histories'], 'all sequences of op/3 calls, including lists, redefinitions, removals and invalid calls',
  BOOT + 'only fixed op declarations occur.',
  ['src/EnginePl/oper.c', 'src/EnginePl/oper.h', 'src/BipsPl/oper_c.c', 'src/BipsPl/oper.pl'],
  [('operator hash table', 'src/EnginePl/oper.c'), ('op/3 checks', 'src/BipsPl/oper_c.c')],
  ['current_op/3 enumeration, probe terms read and written after each step'])

p('C16', 'format/2-3 produces the documented text',
  'For every control sequence of the manual with valid arguments, any column stops, fill characters and numeric arguments, format writes exactly the documented characters, to any output stream, and invalid controls or missing/extra/ill-typed arguments raise the documented error.',
  ['inputs'], 'all format strings and argument lists',
  BOOT + 'format is exercised with a few constant strings.',
  ['src/BipsPl/format_c.c', 'src/BipsPl/format.pl', 'src/BipsPl/stream_supp.c'],
  [('format interpreter and column handling', 'src/BipsPl/format_c.c')],
  ['bytes produced, compared with a reference formatter'])

p('C17', 'Streams deliver and record exactly the bytes written',
  'For any interleaving of put/get/peek/unget, term and line input, seek, position, eof, alias, mirror, buffering and open/close operations on files and text streams, what is read is exactly what the underlying sequence contains, peek never consumes, and the character, line and column counts, end-of-stream state and stream properties are those of the operations performed. '
  'After a flush or close every byte written is in the file in order, exactly once, and forbidden operations raise their permission/existence error without effect.',
  ['histories', 'configurations'], 'all operation sequences, file contents (all byte values, buffer-size boundaries), modes, types, eof actions and buffering modes',
  BOOT + 'each stream is used in one simple pattern.',
  ['src/BipsPl/stream_supp.c', 'src/BipsPl/stream_c.c', 'src/BipsPl/stream.pl', 'src/BipsPl/char_io_c.c', 'src/BipsPl/char_io.pl', 'src/BipsPl/dec10io.pl', 'src/BipsPl/const_io_c.c'],
  [('push-back buffer and position tracking', 'src/BipsPl/stream_supp.c'), ('stream table and aliases', 'src/BipsPl/stream_supp.c, src/BipsPl/stream_c.c')],
  ['result of every operation, compared with a model of the stream; file contents'])

p('C18', 'Dynamic predicates obey the logical update view',
  'For any history of asserta/assertz/retract/retractall/abolish/clause/call steps, including updates made while calls of the same predicate are active, each call sees exactly the clauses present when it started, in order, minus nothing and plus nothing, and the database afterwards contains exactly the clauses the history defines.',
  ['histories', 'programs'], 'all update/call interleavings, any number of clauses and any first arguments',
  BOOT + 'updates during active calls are not tested.',
  ['src/BipsPl/dynam_supp.c', 'src/BipsPl/assert_c.c', 'src/BipsPl/assert.pl', 'src/BipsPl/pred_c.c', 'src/BipsPl/pred.pl', 'src/EnginePl/pred.c'],
  [('erase stamps, clause chains and index', 'src/BipsPl/dynam_supp.c'), ('clause garbage collection', 'src/BipsPl/dynam_supp.c')],
  ['answers of every call and final clause lists, compared with a versioned list model'])

p('C19', 'findall, bagof, setof and countall collect exactly the solutions',
  'findall/3-4 returns one fresh copy per solution in order; bagof/setof group solutions by the free variables not bound with ^ (or the template), in standard order of ground witnesses, with setof sorted without duplicates; countall and forall agree with them. '
  'Nested, recursive and aborted collections never mix or lose solutions.',
  ['programs', 'inputs'], 'all goals, templates, ^ prefixes and nestings, including collections left by exceptions',
  BOOT + 'grouping and nesting are not varied.',
  ['src/BipsPl/all_solut.pl', 'src/BipsPl/all_solut_c.c'],
  [('solution store', 'src/BipsPl/all_solut_c.c'), ('free-variable computation and grouping', 'src/BipsPl/all_solut.pl, src/BipsPl/all_solut_c.c')],
  ['lists returned, compared with reference collections'])

p('C20', 'Global variables and arrays hold what was assigned',
  'For any history of assignments (copying, linked, backtrackable), array creations and resizes, element updates, counters, bit operations and backtracking, every read returns the value the history defines for that selector, and erroneous selectors raise their error without effect.',
  ['histories'], 'all sequences over scalar, array, hash-like nested and auto-growing arrays, with backtracking between them',
  BOOT + 'only g_assign/g_read on scalars are used.',
  ['src/BipsPl/g_var_inl_c.c', 'src/BipsPl/g_var_inl.pl'],
  [('element store and trail undo functions', 'src/BipsPl/g_var_inl_c.c')],
  ['value read after each step, compared with a model'])

p('C21', 'Misuse of a built-in raises the ISO error and changes nothing',
  'A built-in called with arguments outside its documented domain raises the error term the standard and manual prescribe (instantiation, type, domain, existence, permission, representation, evaluation, syntax), with the right culprit, catchable, identifying the called predicate, in compiled and meta-called code alike, and has no other effect. '
  'Calls to unknown procedures follow the unknown flag.',
  ['inputs', 'configurations'], 'all built-ins with all combinations of ill-typed and unbound arguments',
  BOOT + 'errors are nearly never provoked.',
  ['src/BipsPl/error_supp.c', 'src/BipsPl/c_supp.c', 'src/BipsPl/pl_error.pl', 'src/BipsPl/foreign_supp.c', 'src/BipsPl/flag_supp.c'],
  [('argument readers Pl_Rd_*_Check', 'src/BipsPl/c_supp.c'), ('error context', 'src/BipsPl/error_supp.c')],
  ['error term caught'])

p('C22', 'Grammar rules define the language they describe',
  'Translating any grammar rule (nonterminals, terminals and strings, pushback, {}/1, !, control constructs, call//N, variables as bodies) and calling it directly or through phrase/2-3 accepts and generates exactly the sequences, with the same order, bindings and cut scope, that the rule describes; ill-formed rules and arguments raise the documented errors.',
  ['programs', 'inputs'], 'all grammars and input lists (complete and partial)',
  BOOT + 'grammars are used in one example parser only.',
  ['src/BipsPl/expand.pl', 'src/BipsPl/expand_c.c', 'src/Pl2Wam/read_file.pl', 'src/BipsPl/consult.pl'],
  [('dcg translation', 'src/BipsPl/expand_c.c, src/BipsPl/expand.pl')],
  ['solutions of phrase, compared with a reference grammar interpreter'])

p('C23', 'Loading and linking sources yields the program they denote',
  'However a program is split over files, included, conditionally compiled, declared (dynamic, discontiguous, multifile, public, initialization, op, set_prolog_flag, term expansion), loaded by consult, reloaded, or compiled separately and linked, the resulting predicates, clause order, properties and order of directives are those the sources denote. '
  'Errors in a source are reported at their place and do not disturb the rest.',
  ['programs', 'configurations', 'histories'], 'all splits and orders of loading, reloading after edits, gplc and consult',
  BOOT + 'the system itself uses one fixed layout of files.',
  ['src/Pl2Wam/read_file.pl', 'src/Pl2Wam/pl2wam.pl', 'src/BipsPl/consult.pl', 'src/BipsPl/consult_c.c', 'src/TopComp/top_comp.c', 'src/EnginePl/unit_ctor.c', 'src/EnginePl/pred.c', 'src/BipsPl/bc_supp.c'],
  [('directive handling', 'src/Pl2Wam/read_file.pl'), ('reload', 'src/BipsPl/consult.pl'), ('unit initialisation order', 'src/EnginePl/unit_ctor.c')],
  ['clauses, properties, output of directives, diagnostics'])

p('C24', 'Arithmetic constraints keep exactly the solutions',
  'For any conjunction of finite-domain arithmetic (in)equalities, partial or full arc-consistent, over any domains, labeling enumerates exactly the integer assignments that satisfy it, each once, and propagation never removes a value that belongs to a solution nor leaves a variable instantiated inconsistently. '
  'Posting order, re-posting, equivalent formulations and the use of already instantiated arguments do not change the solution set.',
  ['inputs', 'histories', 'programs'], 'all linear and non-linear expressions, coefficients of any sign, domains with holes, shared variables',
  BOOT + 'the examples check one or a few known solutions of fixed puzzles.',
  ['src/BipsFD/fd_math.pl', 'src/BipsFD/fd_math_c.c', 'src/BipsFD/fd_math_fd.fd', 'src/BipsFD/math_supp.c', 'src/EngineFD/fd_inst.c', 'src/EngineFD/fd_range.c', 'src/Fd2C/compile.pl'],
  [('linear decomposition', 'src/BipsFD/math_supp.c'), ('propagators', 'src/BipsFD/fd_math_fd.fd'), ('propagation queue', 'src/EngineFD/fd_inst.c')],
  ['complete solution set and domains after propagation, compared with brute force'])

p('C25', 'Boolean, reified and symbolic constraints keep exactly the solutions',
  'For any combination of boolean connectives over (reified) constraints, cardinality, all-different, element, atmost/atleast/exactly, relation and primality constraints, labeling enumerates exactly the satisfying assignments, each once, and a truth value is fixed only when it is implied.',
  ['inputs', 'programs'], 'all nestings of connectives and constraints over small domains, all instantiation states',
  BOOT + 'the examples check one or a few known solutions of fixed puzzles.',
  ['src/BipsFD/fd_bool.pl', 'src/BipsFD/fd_bool_c.c', 'src/BipsFD/fd_bool_fd.fd', 'src/BipsFD/fd_symbolic.pl', 'src/BipsFD/fd_symbolic_c.c', 'src/BipsFD/fd_symbolic_fd.fd', 'src/BipsFD/fd_prime_c.c', 'src/BipsFD/oper_supp.c'],
  [('boolean simplification', 'src/BipsFD/fd_bool_c.c'), ('propagators', 'src/BipsFD/fd_bool_fd.fd, src/BipsFD/fd_symbolic_fd.fd')],
  ['complete solution set, compared with brute force'])

p('C26', 'Finite domains behave as sets of integers',
  'The domain reported for a variable (dom, min, max, size, membership, textual display) is always the set obtained by intersecting what was posted, for interval and sparse representations of any size and the transitions between them, and unification of domain variables with each other or integers intersects them. '
  'Whenever a domain changes, becomes empty, or is restored by backtracking, all the reports agree.',
  ['inputs', 'histories'], 'all sequences of domain-setting, removal, unification and backtracking; values across word and vector-size boundaries',
  BOOT + 'domain reports are never checked.',
  ['src/EngineFD/fd_range.c', 'src/EngineFD/fd_inst.c', 'src/BipsFD/fd_values_c.c', 'src/BipsFD/fd_values_fd.fd', 'src/BipsFD/fd_infos_c.c', 'src/BipsFD/fd_infos.pl', 'src/EngineFD/fd_unify.fd'],
  [('range algebra', 'src/EngineFD/fd_range.c'), ('domain update and trail', 'src/EngineFD/fd_inst.c')],
  ['domain reports after each step, compared with a set model'])

p('C27', 'Labeling enumerates completely and optimisation returns the optimum',
  'Every combination of labeling options (variable and value selection, backtracks, reorder) enumerates each solution exactly once, in the order the options define, and fd_minimize/fd_maximize return a solution with the optimal cost whenever one exists and fail otherwise.',
  ['inputs', 'configurations'], 'all problems and option combinations',
  BOOT + 'one or two option settings are used.',
  ['src/BipsFD/fd_values.pl', 'src/BipsFD/fd_values_c.c', 'src/BipsFD/fd_optim.pl', 'src/BipsFD/fd_infos_c.c'],
  [('variable/value choice', 'src/BipsFD/fd_values_c.c'), ('branch and bound', 'src/BipsFD/fd_optim.pl')],
  ['ordered solution list and optimum, compared with brute force'])

p('C28', 'The C interface transports terms and control faithfully',
  'Values passed between Prolog and C through foreign declarations and the term read/create/unify/test/compare functions arrive unchanged for every argument type and mode, non-deterministic C code is resumed with its own saved data once per alternative, and ill-typed arguments raise their errors. '
  'C code calling back Prolog gets the same solutions, exceptions and bindings as a Prolog caller, with each way of ending a query (recover, cut, keep) having its documented effect, at any nesting.',
  ['programs', 'histories', 'inputs'], 'all argument types, arities and values; all nestings of foreign calls and queries',
  BOOT + 'a few example functions with fixed data are run.',
  ['src/BipsPl/foreign_supp.c', 'src/BipsPl/c_supp.c', 'src/EnginePl/engine.c', 'src/Pl2Wam/read_file.pl', 'src/EnginePl/gprolog.h', 'src/EnginePl/trampoline.S', 'src/Wam2Ma/wam2ma.c'],
  [('argument marshalling', 'src/BipsPl/foreign_supp.c, src/BipsPl/c_supp.c'), ('query stack', 'src/BipsPl/foreign_supp.c'), ('C to Prolog transition', 'src/EnginePl/engine.c')],
  ['values logged on both sides of each crossing'])

p('C29', 'File, directory and path predicates reflect the operating system',
  'make/delete/rename/copy/list directories and files, existence, permission and property tests, working directory, path decomposition and absolute-path computation, temporary names, environment and argument access do what their documentation says to the real file system and report its true state; failures of the system surface as the documented errors and leave things unchanged.',
  ['histories', 'inputs'], 'all operation sequences in a directory tree, all path texts',
  BOOT + 'no file-system predicate is tested.',
  ['src/BipsPl/os_interf_c.c', 'src/BipsPl/os_interf.pl', 'src/BipsPl/file_c.c', 'src/BipsPl/file.pl', 'src/EnginePl/os_path.c', 'src/EnginePl/os_error.c'],
  [('path normalisation', 'src/EnginePl/os_path.c'), ('system call wrappers', 'src/BipsPl/os_interf_c.c')],
  ['results and the state of a scratch directory tree, compared with the operating system\'s'])

p('C30', 'Processes, pipes and sockets carry data and status exactly',
  'Commands run through shell, system, spawn, popen, exec and fork report their true exit status, receive their exact arguments and standard streams, and data sent over pipes and sockets arrives complete, in order and unaltered, however it is split over writes, reads and buffering modes; select reports readiness truthfully.',
  ['histories', 'inputs', 'schedules'], 'all data volumes and chunkings, exit codes, argument texts, interleavings of both ends',
  BOOT + 'only the compiler pipe is exercised.',
  ['src/BipsPl/os_interf_c.c', 'src/BipsPl/sockets_c.c', 'src/BipsPl/sockets.pl', 'src/EnginePl/os_spawn.c', 'src/BipsPl/stream_supp.c'],
  [('spawn and redirection', 'src/EnginePl/os_spawn.c'), ('socket streams', 'src/BipsPl/sockets_c.c')],
  ['bytes received and statuses, compared with those sent'])

p('C31', 'Name mangling is one-to-one and predicates never collide',
  'For every predicate indicator (any characters, any length up to the limits, any arity, with or without module) the assembler symbol is legal, distinct from that of every other indicator, and decodes back to the indicator; programs whose predicates have such names compile, link and run correctly, and the filter tool decodes symbols embedded in any text while leaving other text unchanged.',
  ['inputs'], 'all predicate names and arities',
  BOOT + 'only names of built-in predicates are mangled.',
  ['src/TopComp/mangling.c', 'src/TopComp/mangle_filter.c', 'src/Wam2Ma/wam2ma.c', 'src/TopComp/mangling.h'],
  [('encode/decode', 'src/TopComp/mangling.c'), ('filter', 'src/TopComp/mangle_filter.c')],
  ['symbols and decoded text, behaviour of programs with such names'])

p('C32', 'No Prolog-level input makes the system corrupt memory',
  'No sequence of built-in calls, constraint postings, source texts or terms read, however malformed, makes the run-time system or the compiler access memory out of bounds, use freed memory, execute undefined behaviour, or die by a signal: every call succeeds, fails, raises a Prolog error or stops with a documented fatal message.',
  ['inputs', 'programs', 'histories'], 'all built-ins with all argument combinations, hostile texts, long histories; observed under address and undefined-behaviour sanitizers',
  BOOT + 'normal runs hide silent corruption and never use hostile arguments.',
  ['src/EnginePl', 'src/BipsPl', 'src/EngineFD', 'src/BipsFD', 'src/Linedit', 'src/Wam2Ma', 'src/Ma2Asm', 'src/Tools'],
  [('argument checking', 'src/BipsPl/c_supp.c'), ('buffer management', 'src/BipsPl/stream_supp.c, src/BipsPl/lexer_supp.c')],
  ['sanitizer reports, signals, exit statuses'])

p('C33', 'Exhausting a stack or table is reported, never silent corruption',
  'When a computation exceeds the configured size of a stack or table, the run ends with the documented message naming that resource, its size and environment variable (or a catchable resource error where documented), at any point of any computation; results delivered before are correct. '
  'With enough space the same computation completes with the same results, and configured sizes are honoured whether set by environment, compile option or default.',
  ['programs', 'configurations', 'fault_sequences'], 'all computations, all stack sizes, all points of exhaustion',
  BOOT + 'no stack is ever exhausted.',
  ['src/EnginePl/stacks_sigsegv.c', 'src/EnginePl/engine.c', 'src/EnginePl/machine.c', 'src/TopComp/top_comp.c', 'src/EnginePl/atom.c'],
  [('guard pages and fault handler', 'src/EnginePl/stacks_sigsegv.c'), ('size configuration', 'src/EnginePl/engine.c')],
  ['output up to and including the end of the run under shrinking limits'])

p('C34', 'Deterministic iteration runs in bounded space',
  'Tail-recursive and mutually tail-recursive deterministic predicates, failure-driven loops, repeat loops, and loops over built-ins that release their results run for any number of iterations without growing any stack or the process memory. '
  'Determinism detection leaves no choice point after a built-in or clause selection with no remaining solution.',
  ['programs', 'histories'], 'all loop forms, execution modes and iteration counts; every resource: the four stacks, C heap, atoms, streams',
  BOOT + 'runs are too short to show a leak.',
  ['src/EnginePl/wam_inst.c', 'src/Pl2Wam/code_gen.pl', 'src/BipsPl/bc_supp.c', 'src/BipsPl/dynam_supp.c', 'src/BipsPl/stream_supp.c', 'src/BipsPl/all_solut_c.c', 'src/BipsPl/stat_c.c'],
  [('last call optimisation and environment trimming', 'src/Pl2Wam/code_gen.pl'), ('release of clauses, streams and buffers', 'src/BipsPl/dynam_supp.c, src/BipsPl/stream_supp.c')],
  ['stack tops and process memory sampled at iteration counts N and 10N'])

p('C35', 'Debugging a program does not change what it does',
  'Running a program under the debugger (trace, debug, spy points, any port leashing and commands that only continue) gives the same answers, side effects and errors as running it normally, and the ports reported form well-nested call/exit/redo/fail/exception histories consistent with the actual execution.',
  ['programs', 'histories'], 'all programs, leash settings, spy points and command sequences',
  BOOT + 'the debugger is never run.',
  ['src/BipsPl/debugger.pl', 'src/BipsPl/debugger_c.c', 'src/BipsPl/call.pl', 'src/BipsPl/pred.pl'],
  [('goal-box instrumentation', 'src/BipsPl/debugger.pl')],
  ['answers with and without debugger, port history'])

p('C36', 'The top level reports exactly the answers of each query',
  'For every query typed or given on the command line, the interactive top level prints each answer\'s bindings (of named variables only, re-readable, showing sharing and domains), offers exactly the further answers that exist, reports yes, no or the uncaught exception, keeps program state between queries, and exits with the requested status.',
  ['inputs', 'histories', 'configurations'], 'all queries and answer commands, command-line options',
  BOOT + 'one goal is run at build time.',
  ['src/BipsPl/top_level.pl', 'src/BipsPl/top_level_c.c', 'src/TopComp/top_level_main.c', 'src/BipsPl/pretty_c.c'],
  [('read-execute-write loop', 'src/BipsPl/top_level.pl')],
  ['transcript of each session, compared with the expected answers'])

p('C37', 'The line editor returns the line the keystrokes define',
  'For any sequence of editing keys (insertion, deletion, motion, kill/yank, transpose, case change, history, completion) typed at a terminal, the line finally delivered to the program is the one the documented commands define, and history recall returns previously entered lines unchanged.',
  ['histories', 'inputs'], 'all key sequences, line lengths and terminal widths',
  BOOT + 'interactive editing is never driven.',
  ['src/Linedit/linedit.c', 'src/Linedit/terminal.c', 'src/Linedit/completion.c', 'src/BipsPl/le_interf_c.c'],
  [('edit buffer and history', 'src/Linedit/linedit.c')],
  ['line received by the program through a pseudo-terminal, compared with an editor model'])

p('C38', 'Prolog flags and conversions govern behaviour as set',
  'set_prolog_flag and current_prolog_flag (and the flag directives) form a consistent map: a valid value set is the value reported and the one that governs reading, unknown-procedure handling, strict-ISO behaviour and character conversion from then on; read-only or invalid settings raise their errors and change nothing.',
  ['histories', 'configurations'], 'all sequences of flag and char_conversion updates and dependent operations',
  BOOT + 'flags are left at their defaults.',
  ['src/BipsPl/flag_c.c', 'src/BipsPl/flag_supp.c', 'src/BipsPl/flag.pl', 'src/BipsPl/read_c.c'],
  [('flag table', 'src/BipsPl/flag_supp.c')],
  ['flag values and dependent behaviour after each step'])

p('C39', 'Random numbers stay in range and follow their seed',
  'random/1, random/3, randomize and the random labeling choice always yield values inside the requested bounds and of the requested type, every value in a small range eventually appears with plausible frequency, and setting a seed reproduces the same sequence.',
  ['inputs', 'histories'], 'all bounds and seeds',
  BOOT + 'random values are never examined.',
  ['src/BipsPl/random_c.c', 'src/BipsPl/random.pl', 'src/EnginePl/machine.c'],
  [('generator', 'src/EnginePl/machine.c')],
  ['values drawn'])

p('C40', 'The mini-assembler back end preserves every instruction\'s meaning',
  'For every mini-assembly program (calls to C with any number and mix of integer, float, string, address and register arguments, moves, jumps, switches, returns and data definitions of any size) the generated assembly assembles and has exactly the effect the instructions define.',
  ['programs'], 'all mini-assembly programs for the native target',
  'The chkma tests execute one fixed program of 27 cases; argument counts, mixes and sizes beyond it are not reached.',
  ['src/Ma2Asm/x86_64_any.c', 'src/Ma2Asm/ma2asm.c', 'src/Ma2Asm/ma_parser.c', 'src/Ma2Asm/ma2asm_inst.c'],
  [('native mapper', 'src/Ma2Asm/x86_64_any.c'), ('parser', 'src/Ma2Asm/ma_parser.c')],
  ['values received by C probes'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
