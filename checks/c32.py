#!/usr/bin/env python3
"""C32: no Prolog-level input makes the system corrupt memory (hostile workloads on an address+undefined sanitizer build)."""
import sys, os, re, random, shutil, subprocess, signal, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from gpv.check import *
from gpv import run as R
from gpv import build as B
from gpv.run import Sys
from gpv.batch import san_report
import c21

PRE = r'''
:- dynamic(dp/1). :- dynamic(dq/1). :- dynamic(big/2).
dp(1). dp(2). dp(3).
gr --> "a".
statp(1).
mkf :- g_read(kst, L), L \== 0, !.
mkf :- findall(S, current_stream(S), L), g_assign(kst, L), findall(op(P,T,N), current_op(P,T,N), Lo), g_assign(kop, Lo), findall(F-V, (current_prolog_flag(F,V), memberchk(F, [char_conversion,singleton_warning,suspicious_warning,multifile_warning,strict_iso,double_quotes,back_quotes,unknown,syntax_error,os_error,show_banner,show_information])), Lf), g_assign(kfl, Lf).
setup :- mkf, cleanup, open(s1, read, _, [alias(s_in)]), open(s2, read, _, [alias(s_int)]), open(sw, write, _, [alias(s_out)]), open(sw2, write, _, [alias(s_out2)]), open(s1, read, _, [alias(b_in),type(binary)]), open(sw3, write, _, [alias(b_out),type(binary)]),
   open_input_atom_stream('foo bar', T1), add_stream_alias(T1, t_in), open_output_atom_stream(T2), add_stream_alias(T2, t_out).
cleanup :- set_input(user_input), set_output(user_output), g_read(kfl, Lf), rsf(Lf),
   ( current_stream(S), g_read(kst, K), \+ memberchk(S, K), cls(S), fail ; true ),
   retractall(dq(_)), retractall(big(_,_)),
   ( current_op(P,T,N), g_read(kop,L), \+ memberchk(op(P,T,N),L), (memberchk(op(P1,T,N),L) -> true ; P1 = 0), catch(op(P1,T,N),_,true), fail ; true ),
   ( current_char_conversion(X, Y), X \== Y, catch(char_conversion(X, X), _, true), fail ; true ), g_assign(gk, keep(1)), fd_set_vector_max(127).
rsf([]).
rsf([F-V|L]) :- catch(set_prolog_flag(F, V), _, true), rsf(L).
cls(S) :- catch(close(S), _, fail), !.
cls(S) :- catch(close_input_atom_stream(S), _, fail), !.
cls(S) :- catch(close_output_atom_stream(S, _), _, fail), !.
cls(_).
drive(F, N) :- setup, open(F, read, S), g_assign(kst2, S), g_read(kst, K), g_assign(kst, [S|K]), repeat, rdl(S, Cs),
   ( Cs == eof -> !, vlogs(-1, done)
   ; g_inc(nth, I0), I is I0 - 1, I >= N, vmark(I), one(Cs), fail ).
rdl(S, Cs) :- get_code(S, C), ( C =:= -1 -> Cs = eof ; rdl1(C, S, Cs) ).
rdl1(10, _, []) :- !.
rdl1(-1, _, []) :- !.
rdl1(C, S, [C|L]) :- get_code(S, D), rdl1(D, S, L).
one(Cs) :- catch(setup, _, true), catch(read_term_from_codes(Cs, T, []), E, (outcome(E), fail)), catch(seq(T, 5), E2, (outcome(E2), fail)), outcome(yes), !.
one(_).
outcome(E) :- ( E = error(X, _), nonvar(X) -> functor(X, F, _), g_inc(F) ; E == yes -> g_inc(cyes) ; g_inc(coth) ), g_inc(ctot).
seq(G, _) :- var(G), !.
seq([], _) :- !.
seq([G|L], N) :- !, goal(G), \+ \+ ( acyclic_term(L) -> true ), seq(L, N).
seq(G, _) :- goal(G).
goal(G) :- g_assign(sols, 0), call(G), ( acyclic_term(G) -> true ; !, fail ), g_inc(sols, K), K >= 2, !.
goal(_).
stats(L) :- findall(F-N, ( member(F, [cyes,coth,ctot,type_error,domain_error,instantiation_error,existence_error,permission_error,representation_error,evaluation_error,resource_error,syntax_error,system_error]), g_read(F, N) ), L).
'''

INTS = ['0', '-1', '1', '2', '3', '7', '8', '16', '63', '64', '65', '100', '127', '128', '-128', '254', '255', '256', '257', '999', '1000', '1023', '1024', '1025', '4096', '5000', '10000', '32767', '32768', '65535', '65536', '70000', '99999', '100000', '1114111', '16777215',
        '268435454', '268435455', '268435456', '-268435456', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '1152921504606846975', '-1152921504606846976', '1152921504606846974', '576460752303423488']
LENS = [1, 2, 3, 15, 16, 17, 31, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 10000, 20000, 32767, 33000, 66000]
NASTY = ["''", "[]", "{}", "'\\n'", "'\\xff\\'", "'\\x80\\'", "'\\x0\\'", "a", "'A'", "' '", "'.'", "'%'", "'/*'", "';'", "(',')", "'|'", "user_input", "user_output", "s_in", "s_out", "t_in", "t_out", "b_in", "b_out", "s_int", "end_of_file", "'\\''", "'~'", "'0x'", "foo", "'$stream'", "'é'".encode('utf-8').decode('latin-1'), "'%s%n%s%d'", "s1", "sw", "nof"]
EVIL_SKIP = {'halt', 'abort', 'break', 'stop', 'top_level', 'shell', 'system', 'spawn', 'exec', 'popen', 'fork_prolog', 'send_signal', 'sleep', 'wait', 'change_directory', 'socket_accept', 'socket_connect', 'socket', 'socket_bind', 'socket_listen', 'socket_close', 'get_key', 'get_key_no_echo', 'wam_debug', 'trace', 'debug', 'spy', 'leash', 'spypoint_condition',
             'consult', 'load', 'repeat', 'term_ref', 'statistics', 'create_pipe', 'hostname_address', 'listing', 'set_linedit_prompt', '.', 'current_atom', 'close_input_codes_stream', 'delete_directory', 'copy_file', 'sr_new_pass', 'sr_open', 'debugging', 'hostname', 'add_linedit_completion', 'see', 'tell', 'append1'}
BANNED = re.compile(r"\b(" + '|'.join(sorted(x for x in EVIL_SKIP if x.isidentifier() and x not in ('append1', 'system'))) + r")\(|'\$stream'\([0-2]\)|\buser_(?:input|output|error)\b")


def longatom(r):
    n = r.choice(LENS) + r.choice([0, 0, 0, -1, 1])
    c = r.choice(['a', 'b', 'Z', ' ', '\\xe9\\', '\\n', "\\'"])
    if len(c) > 1:
        n = min(n, 5000)
    return "'" + c * max(n, 0) + "'"


def codes(r, n=None):
    n = r.choice(LENS) if n is None else n
    n = min(n, 9000)
    k = r.random()
    if k < .5:
        return '"' + r.choice('ab~ x') * n + '"'
    n = min(n, 1500)
    pool = ['97', '98', '0', '255', '32', '10', '46', '40', '41', '39', '126', '48'] + (['256', '-1', '1114111', 'a', '_'] if k < .65 else [])
    return '[' + ','.join(r.choice(pool) for _ in range(n)) + ']'


def lst(r, f, n=None):
    n = r.choice([0, 1, 2, 3, 10, 100, 255, 256, 257, 1000, 3000]) if n is None else n
    x = [f(r) for _ in range(min(n, 4))] or ['a']
    t = r.choice(['', '', '', '|_', '|a', '|Z1'])
    if n == 0:
        return '[]'
    return '[' + ','.join(x[i % len(x)] for i in range(n)) + t + ']'


def scal(r):
    return r.choice([lambda: r.choice(INTS), lambda: r.choice(NASTY), lambda: '_', lambda: r.choice(['X1', 'X2', 'X3']), lambda: r.choice(['1.5', '-0.0', '1.0e308', '1.0e-308', '4.9e-324', '1.0Inf' if False else '3.14']), lambda: r.choice(["f(x)", "g(_,a)", "a-1", "X1-b", "foo/1", "foo/300", "'$stream'(%d)" % r.choice([3, 5, 20, 99, 1000, -1, 1 << 40])])])()


def big(r):
    n = r.choice([1, 2, 10, 100, 254, 255, 256, 300])
    return r.choice(['f', 'dp', "','", "'.'", '-'] if n <= 2 else ['f', 'g']) + '(' + ','.join(scal(r) for _ in range(n)) + ')'


def deep(r):
    n = r.choice([2, 10, 100, 400])
    k = r.choice(['f(', '-(', '[', '\\+', '{'])
    if k == '\\+':
        return '\\+ ' * n + 'a'
    if k == '[':
        return '[' * n + 'a' + ']' * n
    if k == '{':
        return '{' * n + 'a' + '}' * n
    return k * n + 'a' + ')' * n


FMT = ['~a', '~w', '~q', '~d', '~D', '~s', '~e', '~f', '~g', '~n', '~c', '~r', '~R', '~k', '~p', '~i', '~*c', '~t', '~|', '~+', '~~', '~`xt', '~z', '~', '%s', '%d', '%f', '%n', '%c', '%e', '%', '%*d', '%-10.3s', '%5c', '%200d', '%.300f', '%o', '%x', '%g', 'abc', '\\n', '~i~w', '~30|', '~`-t~30|', '~a~t~20|~w']


def fmt(r):
    s = ''
    for _ in range(r.choice([1, 2, 4, 10])):
        x = r.choice(FMT)
        if x[0] == '~' and len(x) == 2 and r.random() < .5:
            x = '~' + r.choice(['0', '1', '2', '3', '10', '36', '37', '99', '255', '256', '300', '1000', '5000', '*', '99999', '`a', '`']) + x[1]
        s += x
    a = lst(r, lambda r: r.choice([scal, scal, lambda r: codes(r, r.choice([0, 3, 300])), longatom, lambda r: '"ab"'])(r), r.choice([0, 1, 2, 3, 5, 10]))
    return '"' + s + '"', a


def fdgoal(r):
    vs = ['X1', 'X2', 'X3', 'X4']
    v = lambda: r.choice(vs)
    sm = lambda: r.choice(['0', '1', '2', '3', '5', '-1', '-3', '10', '64', '126', '127', '128', '255', '1000', '268435455', '268435454', '20000', '100000'])

    def e(d=2):
        k = r.random()
        if d == 0 or k < .35:
            return v()
        if k < .5:
            return sm()
        o = r.choice(['+', '-', '*', '//', ' rem ', '**', '+', '-'])
        if r.random() < .12:
            return r.choice(['min', 'max', 'dist']) + f'({e(d-1)},{e(d-1)})'
        return f'({e(d-1)}{o}{e(d-1)})'
    k = r.random()
    if k < .12:
        a, b = r.choice(INTS + ['0', '1', '5']), r.choice(INTS + ['10', '100'])
        return f'fd_domain({v()},{a},{b})'
    if k < .2:
        return f'fd_domain({v()},{lst(r, lambda r: r.choice([sm(), r.choice(INTS)]), r.choice([1, 2, 5, 20, 300]))})'.replace('|_', '').replace('|a', '').replace('|Z1', '')
    if k < .5:
        return f"{e()}{r.choice(['#=', '#<', '#>', '#\\=', '#=<', '#>=', '#=#', '#<#', '#\\=#', '#=<#'])}{e()}"
    if k < .6:
        c = lambda: r.choice([f"({v()}{r.choice(['#=', '#<', '#\\='])}{sm()})", v(), f'(#\\ {v()})', f"({v()}{r.choice(['#=', '#<'])}{v()})"])
        return c() + r.choice(['#<=>', '#==>', '#\\/', '#/\\', '##', '#\\<=>', '#\\==>', '#\\\\/']) + c()
    L = '[' + ','.join(vs[:r.choice([1, 2, 3, 4])]) + ']'
    if k < .8:
        n = sm()
        return r.choice([f'fd_all_different({L})', f'fd_element({v()},[{sm()},{sm()},{sm()}],{v()})', f'fd_element_var({v()},{L},{v()})', f'fd_atmost({n},{L},{sm()})', f'fd_atleast({n},{L},{sm()})', f'fd_exactly({n},{L},{sm()})', f'fd_cardinality([X1#=1,X2#<X3],{v()})', f'fd_relation([[1,2],[{sm()},3],[2,{sm()}]],[{v()},{v()}])',
                         f'fd_relationc([[1,2,3],[{sm()},3]],[{v()},{v()}])', f'fd_prime({v()})', f'fd_not_prime({v()})', f'fd_only_one({L})', f'fd_at_least_one({L})', f'fd_at_most_one({L})', f'fd_use_vector({v()})', f"fd_set_vector_max({r.choice(['0', '1', '31', '63', '64', '127', '128', '1000', '5000', '99999'])})", f'fd_reified_in({v()},{sm()},{sm()},{v()})', f'fd_cardinality({sm()},[X1#=1,X2#<X3,X4],{sm()})'])
    return r.choice([f'fd_labeling({L},[{r.choice(["variable_method(ff)", "variable_method(random)", "value_method(middle)", "value_method(max)", "value_method(bisect)", "value_method(bounds)", "value_method(random)", "variable_method(most_constrained)", "variable_method(largest)"])},backtracks(_)])', f'fd_labelingff({L})', f'fd_dom({v()},D1)', f'(fd_max({v()},M1),fd_min({v()},M2),fd_size({v()},M3))', f'write_to_codes(C1,{L})', f'copy_term({L},C2)', f'fd_minimize(fd_labeling({L}),{v()})', f'{v()}={v()}', f'{v()}={sm()}', f'findall({L},fd_labeling({L}),[_,_|_])' if r.random() < .2 else f'assertz(big(1,{L}))', f'g_assign(gg,{L})', f'{v()}=foo', f'sort({L},S1)', f'term_hash({L},H1)'])


def glob(r):
    n = r.choice(['0', '1', '2', '3', '10', '255', '1000', '-1', '_', 'a', '1152921504606846975', '100000'])
    i = r.choice(['0', '1', '2', '3', '9', '10', '254', '255', '999', '1000', '-1', '-', '+', 'a', '99999', '4294967296', '1152921504606846975'])
    i2 = r.choice(['0', '1', '5', '-1', '1000'])
    N = r.choice(['ga', 'gb', 'gk'])
    ref = r.choice([N, f'{N}({i})', f'{N}({i},{i2})', f'{N}({i},{i2},{i})', f'{N}({N}({i}))', f'{N}(X1)'])
    val = r.choice(['0', 'f(X1,Y1)', 'g_array(%s)' % n, 'g_array(%s,%s)' % (n, r.choice(['0', '[1,2]', 'g_array(3)', '_'])), 'g_array_auto(%s)' % n, 'g_array_extend(%s)' % n, 'g_array_auto(%s,%s)' % (n, '1'), 'g_array_extend(%s,%s)' % (n, 'g_array(2)'), 'g_array([1,2,3])', 'g_array_extend([1,[2]])', '"abc"', 'X1', N])
    return r.choice([f'g_assign({ref},{val})'] * 3 + [f'g_assignb({ref},{val})', f'g_link({ref},{val})', f'g_read({ref},X1)', f'g_array_size({ref},X2)', f'g_inc({ref},X2)', f'g_dec({ref},X2,X3)', f'g_inco({ref},X2)', f'g_set_bit({ref},{i})', f'g_reset_bit({ref},{i})', f'g_test_set_bit({ref},{i})', f'g_test_reset_bit({ref},{i})'])


def dbgoal(r):
    h = r.choice([big(r), 'dq(%s)' % scal(r), 'dq(%s)' % longatom(r), 'big(%s,%s)' % (scal(r), deep(r)), 'dq(f(%s))' % ','.join(f'V{i}' for i in range(r.choice([3, 100, 254])))])
    b = r.choice(['true', 'X1=1', '!', ','.join(f'V{i}=V{i+1}' for i in range(r.choice([3, 100, 300]))), '(a;b->c;d)', 'dq(_)', '\\+a', 'call(X1)', '3', 'X1'])
    return r.choice([f'assertz(({h}:-{b}))', f'asserta(({h}:-{b}))', f'assertz({h})', f'(assertz(({h}:-{b})),clause({h},B1))', 'retract((dq(_):-_))', 'retract((big(_,_):-B1))', 'retractall(dq(_))', 'dq(Z1)', 'big(1,Z1)', '(dq(Z1),retract(dq(Z1)),dq(_),fail;true)', 'abolish(dq/1)' if r.random() < .02 else 'clause(dq(Q1),B1)', f'copy_term({h},C1)', f'(assertz({h}),portray_clause(s_out,({h}:-{b})))', f'findall({h},member(_,[1,2,3]),L1)', f'(bagof(X1-Y1,member(X1-Y1,[a-1,b-{scal(r)}]),L2))', f'setof(X1,Y1^member(X1-Y1,[a-1,{deep(r)}-2]),L3)'])


SNIP = ['foo(', 'X', '_', '"', "'", '`', '0\'', "0'\\x", '\\', '/*', '*/', '%', '[', ']', '{', '}', '(', ')', '|', ',', '.', ' ', '\t', '0x', '0b', '0o', '1.5e', '1.0e400', '1e', '123456789012345678901234567890', '\\x41\\', '\\x', '\\777\\', '\\8', ':-', '-->', '- 1', '-', '--', '- (', 'a:b', '\x00', '\xff', '\x80', 'é', '\\\n', '""', "''''", "'\\", 'f(a,b)', '[a|b]', 'X=Y', '\\+', 'is', 'mod', ' end ', '. ']


def garbage(r):
    s = ''.join(r.choice(SNIP) for _ in range(r.choice([1, 3, 8, 30, 200])))
    return s.replace('\n', ' ') + ' .'


def rdgoal(r):
    g = garbage(r)
    cs = '[' + ','.join(str(ord(c)) for c in g) + ']'
    return r.choice([f'read_term_from_codes({cs},T1,[syntax_error({r.choice(["error", "warning", "fail"])}),variable_names(V1),singletons(V2)])', f'read_from_codes({cs},T1)', f'read_token_from_codes({cs},T1)', f'number_codes(N1,{cs})', f'atom_codes(A1,{cs})', f'name(A1,{cs})', f'(open_input_codes_stream({cs},S1),read(S1,A1),read_token(S1,A2),read_number(S1,A3),get_char(S1,A4),peek_byte(S1,A5))', f'(open_input_codes_stream({cs},S1),read_integer(S1,A1),read_atom(S1,A2),stream_property(S1,P1),seek(S1,bof,{r.choice(INTS)},N1))',
                     f'(set_prolog_flag(double_quotes,{r.choice(["atom", "chars", "codes_no_escape"])}),read_from_codes({cs},T1),writeq(s_out,T1),write_canonical(s_out,T1),print(s_out,T1),portray_clause(s_out,T1))'])


def opgoal(r):
    o = r.choice(['foo', '-', '===', "'a b'", '[]', '{}', "'|'", longatom(r), "';'", 'f', "'\\xe9\\'", '*'])
    t = r.choice(['f(%s,%s)', '(%s)-(%s)', '%s+(%s)', '- (%s),%s', '[%s|%s]', '{%s,%s}', "foo(%s,%s)", "===(%s,%s)"]) % (scal(r), scal(r))
    return f"(op({r.choice(['0', '1', '200', '700', '999', '1000', '1001', '1200', '1201', '-1'])},{r.choice(['xfx', 'xfy', 'yfx', 'fy', 'fx', 'xf', 'yf'])},{o}),T1={t},writeq_to_codes(C1,T1),append(C1,\" .\",C2),read_from_codes(C2,T2),write_term(s_out,T2,[quoted(true),max_depth({r.choice(['0', '1', '2', '3', '10', '-1', '100000'])}),numbervars(true),space_args({r.choice(['true', 'false'])}),portrayed(true),priority({r.choice(['0', '999', '1200', '1201', '-3'])})]))"


def basegoal(r):
    name, args, infix = r.choice(c21.CALLS)
    out = []
    for a in args:
        k = r.random()
        if k < .4:
            out.append(a)
        elif k < .52:
            out.append(scal(r))
        elif k < .58:
            out.append(r.choice(['X1', 'X2', 'X3']))
        elif k < .64:
            out.append(r.choice([big, deep, lambda r: lst(r, scal), codes, longatom, lambda r: garbage(r)[:-2] if False else 'f(_)'])(r))
        elif re.match(r'^-?\d+$', a):
            out.append(r.choice(INTS))
        elif a.startswith('"') or a.startswith('[a') and 'chars' in name:
            out.append(codes(r))
        elif a.startswith('['):
            out.append(lst(r, r.choice([scal, scal, lambda r: longatom(r), lambda r: 'b-%s' % scal(r), lambda r: deep(r)])))
        elif re.match(r'^[a-z]\w*$', a):
            out.append(longatom(r) if r.random() < .5 else r.choice(NASTY))
        elif re.match(r'^[A-Z]', a):
            out.append(r.choice([a, a, r.choice(['X1', 'X2']), scal(r)]))
        else:
            out.append(r.choice([a, a, scal(r), big(r), deep(r)]))
    if name.startswith('format') or name in ('sr_write_message',) and len(out) > 1:
        f, a = fmt(r)
        if len(out) >= 2:
            out[-2:] = [f, a]
    if infix:
        return f'({out[0]}) {name} ({out[1]})'
    return f"{name}({','.join(out)})"


BIPS = []


def bipgoal(r):
    n, a = r.choice(BIPS)
    q = n if re.match(r'^[a-z]\w*$', n) else "'" + n.replace('\\', '\\\\').replace("'", "\\'") + "'"
    if a == 0:
        return q
    f = lambda: r.choice([scal, scal, scal, lambda r: r.choice(INTS), longatom, codes, lambda r: lst(r, scal), big, deep, lambda r: 'X%d' % r.randint(1, 3), lambda r: '_'])(r)
    return q + '(' + ','.join(f() for _ in range(a)) + ')'


def arith(r):
    def e(d):
        if d == 0 or r.random() < .2:
            return r.choice([r.choice(INTS), r.choice(['1.5', '-0.0', '1.0e308', '2.5e-310', 'pi', 'e', 'inf', 'nan', 'epsilon', 'max_tagged_integer', 'random', 'cputime', '[7]', '"a"', 'a', 'X1', 'foo(1)'])])
        o = r.choice(['+', '-', '*', '/', '//', 'rem', 'mod', 'div', 'min', 'max', '/\\', '\\/', 'xor', '<<', '>>', '**', '^', 'atan2', 'copysign', 'log', 'gcd', 'truncate2' if False else 'msb'])
        u = r.choice(['-', '+', 'abs', 'sign', 'sqrt', 'sin', 'exp', 'log', 'float', 'ceiling', 'floor', 'round', 'truncate', 'integer', 'inc', 'dec', '\\', 'lsb', 'msb', 'popcount', 'float_integer_part', 'float_fractional_part', 'random', 'rnd' if False else 'tan', 'acosh', 'asinh'])
        q = lambda s: s if s.isalnum() else "'" + s.replace('\\', '\\\\') + "'"
        return f'{q(u)}({e(d-1)})' if r.random() < .4 else f'{q(o)}({e(d-1)},{e(d-1)})'
    return r.choice([f'X2 is {e(3)}', f'{e(2)} =:= {e(2)}', f'{e(2)} < {e(2)}', f'X3 is {e(1)}', f'succ({r.choice(INTS)},X2)', f'between({r.choice(INTS)},{r.choice(INTS)},X2)', f'number_codes(X2,"{r.choice(INTS)}{r.choice(["", "5", "e5", ".0", "0000000000"])}")'])


KINDS = {'base': basegoal, 'bip': bipgoal, 'fd': fdgoal, 'glob': glob, 'db': dbgoal, 'read': rdgoal, 'op': opgoal, 'fmt': lambda r: 'format%s' % ('(s_out,%s,%s)' % fmt(r) if r.random() < .6 else '_to_codes(C1,%s,%s)' % fmt(r)), 'arith': arith}


def line(r, kind):
    g = KINDS[kind]
    n = {'fd': r.choice([2, 4, 8, 12]), 'glob': r.choice([2, 5, 15]), 'db': r.choice([1, 3, 8])}.get(kind, r.choice([1, 1, 2, 4]))
    for _ in range(50):
        out = []
        for _ in range(n):
            x = g(r)
            if kind == 'base' and r.random() < .1:
                x = r.choice([glob, dbgoal, arith, fdgoal])(r)
            out.append(x)
        s = '[' + ','.join(f'({x})' for x in out) + '] .'
        s = s.replace('\n', ' ')
        if not BANNED.search(s) and len(s) < 150000:
            return s
    return 'true .'


def nogoal(s):
    return False


def watch(cmd, build, cwd, env, log, idle=6.0, total=90.0):
    """runs cmd; ends it when the log has not grown for idle seconds. Result, 'idle'|'total'|None"""
    e = B.env_for(build)
    e.update(env)
    e['VLOG'] = log
    if os.path.exists(log):
        os.remove(log)
    fo, fe = open(cwd + '/.out', 'w+b'), open(cwd + '/.err', 'w+b')
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=fo, stderr=fe, start_new_session=True, preexec_fn=R._limits())
    return p, fo, fe


def stuck(p, log, idle, total):
    t0 = t1 = time.time()
    size = -1
    while p.poll() is None:
        time.sleep(.05)
        try:
            n = os.path.getsize(log)
        except OSError:
            n = 0
        if n != size:
            size, t1 = n, time.time()
        if time.time() - t1 > idle:
            return 'idle'
        if time.time() - t0 > total:
            return 'total'
    return None


FATAL = re.compile(r'Fatal Error: (?:(?:local|global|trail|cstr|constraint) stack overflow|.* stack overflow|atom table full|[^\n]*(?:too many|memory allocation|table full|allocation)[^\n]*)', re.I)


def fuzz(part, arg):
    kind, i, seed, n, tmax = arg
    r = random.Random(f'{seed}/c32/{kind}/{i}')
    d = R.scratch('c32')
    S = SAN
    end = time.time() + tmax
    try:
        lines = [line(r, kind) for _ in range(n)]
        open(d + '/b.dat', 'w', encoding='latin-1', errors='replace').write('\n'.join(lines) + '\n')
        open(d + '/pre.pl', 'w').write(PRE)
        open(d + '/s1', 'w').write('foo(bar). baz. 12 .\n' * 20)
        open(d + '/s2', 'w').write('12 13 14')
        start = 0
        log = d + '/log'
        while start < n and time.time() < end:
            env = dict(GLOBALSZ='65536', LOCALSZ='16384', TRAILSZ='16384', CSTRSZ='16384', LINEDIT='no', MAX_ATOM='200000')
            p, fo, fe = watch([f'{S.h}/vgp', '-q'], S.build, d, env, log)
            p.stdin.write(f"consult('pre.pl').\ng_assign(nth,0),drive('b.dat',{start}),stats(L),vlog(-2,L),halt.\nvlogs(-3,prompt),halt.\n".encode())
            p.stdin.close()
            why = stuck(p, log, 4.0, max(1, end - time.time()))
            if why:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            out, err = [], []
            for f, o in ((fo, out), (fe, err)):
                f.seek(0, 2)
                sz = f.tell()
                f.seek(max(0, sz - 20000))
                o.append(f.read().decode('latin-1'))
                f.close()
            out, err = out[0], err[0]
            ev = R.read_events(log) if os.path.exists(log) else []
            marks = [k for k, _ in ev if k is not None and k >= 0]
            last = max(marks) if marks else None
            for k in set(marks):
                part.case(lines[k], sample=(k == 3))
            part.count(f'{kind} calls run', len(set(marks)))
            for k, e in ev:
                if k == -2 and e is not None:
                    for x in str(tsx(e)).split(','):
                        m = re.match(r"\[?'?-'?\(?(\w+)[-,](\d+)", x)
            if 'ERROR: AddressSanitizer' in err or 'runtime error:' in err or 'Segmentation' in err + out or (p.returncode is not None and p.returncode < 0 and not why):
                k = last if last is not None else 0
                key = where(err)
                part.violation(key, f'{kind} line {k}: {lines[k][:600]}\nstatus {p.returncode}\n' + san_report(R.Result(p.returncode, out, err, False, [])), {'line.txt': lines[k], 'b.dat': '\n'.join(lines[:k + 1]), 'pre.pl': PRE})
                part.count('reports')
            elif why == 'idle':
                part.count('calls stopped after 4 s')
                if os.environ.get('C32DBG') and last is not None:
                    open('/tmp/c32.hang', 'a').write(lines[last][:300] + '\n')
            elif any(k == -1 for k, _ in ev):
                part.count('runs completed')
                break
            elif 'Fatal Error' in err + out:
                m = re.search(r'Fatal Error: ([^\n(]*)', err + out)
                part.count('ended by: ' + m.group(1).strip()[:40])
            elif why == 'total':
                break
            else:
                part.count(f'ended with status {p.returncode}')
                if os.environ.get('C32DBG') and last is not None:
                    open('/tmp/c32.end', 'a').write(f'{p.returncode} {lines[last][:300]}\n{out[-300:]} {err[-300:]}\n')
            start = (last if last is not None else start) + 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tsx(e):
    try:
        from gpv.batch import ts
        return ts(e, 2000)
    except Exception:
        return ''


def where(err):
    """kind of report and the innermost functions of the code under test"""
    m = re.search(r'(\S+\.[ch]):\d+:\d+: runtime error: ([^\n]*)', err)
    if m:
        t = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(2))
        if os.path.basename(m.group(1)).startswith('gplc') and 'signed integer overflow' in t:
            return 'fd-arith-overflow'   # code compiled from a .fd file (temporary C file of fd2c)
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+)', err[m.start():])[:1]
        return f"{os.path.basename(m.group(1))}:{fr[0] if fr else '?'}:{t[:70]}"
    m = re.search(r'AddressSanitizer: (\S+)', err)
    if m:
        fr = [f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+)', err[m.start():]) if not f.startswith('__') and f not in ('memcpy', 'strcpy', 'strlen', 'memmove', 'memset', 'strcat', 'sprintf', 'printf_common', 'vsprintf', 'malloc', 'free', 'realloc')]
        return f"asan:{m.group(1)}:{'/'.join(fr[:1])}"
    return 'segv'


LONG = r"""
mk(N,L) :- length(L,N), fill(L).
fill([]). fill([49|T]) :- fill(T).
c(G) :- functor(G,F,N), vlog(0,F/N), catch((G->true;true),_,true).
t1 :- mk(200000,L), atom_codes(A,L), forall(member(G,[decompose_file_name(A,_,_,_),prolog_file_name(A,_),absolute_file_name(A,_),is_absolute_file_name(A),open(A,read,_),change_directory(A),temporary_name(A,_),temporary_file(A,A,_),rename_file(A,A),unlink(A),make_directory(A),file_property(A,_),consult(A),[A],load(A),see(A),tell(A),append(A),include(A),
  spawn(A,[]),popen(A,read,_),exec(A,_,_,_),directory_files(A,_),environ(A,_),file_permission(A,read),host_name(A),hostname_address(A,_),set_linedit_prompt(A),add_linedit_completion(A),find_linedit_completion(A,_),os_version(A),add_stream_alias(user_output,A),set_stream_mirror(A),write_term(1,[A]),copy_file(A,A),shell(A),shell(A,_),sr_open(A,_,[])]), c(G)).
t2 :- mk(5000,L), atom_codes(A,L), forall(member(P,['/','~/','~','~root/','$HOME/','$','./','../x/','/tmp/../','a/$HOME','/$PATH$PATH$PATH$PATH$PATH/']), (vlog(0,P), member(K,[40,41,48,49,63,64,100,106,107,108,109,1000,2000,4000,4070,4080,4085,4086,4087,4088,4089,4090,4091,4092,4093,4094,4095,4096,4097]),sub_atom(A,0,K,_,B),atom_concat(P,B,F0),member(Z,['','/','/.','$','$HOME']),atom_concat(F0,Z,F),
   catch((prolog_file_name(F,_)->true;true),_,true),catch((absolute_file_name(F,_)->true;true),_,true),catch((decompose_file_name(F,_,_,_)->true;true),_,true),catch((file_exists(F)->true;true),_,true),catch((rename_file(F,F)->true;true),_,true),catch((open(F,read,S),close(S)->true;true),_,true),fail;true)).
t3 :- forall(member(K,[30,39,40,41,42,60,64,100,980,1000,1010,1020,1024,1100,5000]),(mk(K,L),atom_codes(A,L),c(catch(spawn(A,[]),_,true)),c(catch(exec(A,_,_,_),_,true)),c(catch(popen(A,read,_),_,true)))).
t4 :- mk(400000,L), forall(member(P-Q,[[0'a]-[],[0'A]-[],[34]-[],[39]-[39],[0'1,0'.]-[],[0'0,0'x]-[],[0'0,39]-[],[0'/,0'*]-[],[0'%]-[],[]-[],[92]-[],[0'a,0'(]-[0')],[0'[]-[0']],[0'{]-[0'}]]),
   (append(P,L,L1),append(L1,Q,L2),append(L2," .",L3),vlog(0,P),
    forall(member(G,[read_from_codes(L3,_),read_term_from_codes(L3,_,[]),read_token_from_codes(L3,_),number_codes(_,L2),atom_codes(_,L2),name(_,L2),atom_to_term(L2,_,_),number_atom(_,L2)]),(catch(G,_,true)->true;true)),
    atom_codes(A,L3), forall(member(G,[read_from_atom(A,_),read_term_from_atom(A,_,[]),read_token_from_atom(A,_),number_atom(_,A),number_chars(_,A),atom_to_term(A,_,_)]),(catch(G,_,true)->true;true)))).
t5 :- mk(200000,L), atom_codes(A,L), open('o.tmp',write,S), set_output(S), forall(member(G,[writeq(f(A,"a",A)),print(A),write_canonical([A]),format("~a~q~w",[A,A,A]),format(A,[]),atom_concat(A,A,_),sub_atom(A,_,_,0,A),number_atom(_,A),atom_to_term(A,_,_),name(A,_),op(200,xfy,A),writeq(1+A),writeq(- A),writeq(f(A)),writeq([A|A]),writeq('$VARNAME'(A)),print('$VARNAME'(A)),current_op(_,_,A),assertz(A),assertz((A:-true)),clause(A,_),call(A),retract(A),predicate_property(A,_),current_predicate(A/_),throw(A),g_assign(A,1),g_read(A,_),set_prolog_flag(A,1),char_conversion(A,b),numbervars(A),term_hash(A,_),new_atom(A,_),write_term(A,[quoted(true),portrayed(true),variable_names([A=_])]),portray_clause((A:-A,A)),listing(A),spy(A),nospy(A),nodebug,A #= _,fd_domain(A,1,2),_ is A,atom_length(A,_),lower_upper(A,_),lower_upper(_,A),char_code(A,_),peek_char(A,_),put_char(A),get_code(A,_),sort(A,_),keysort([A],_),functor(_,A,3),_ =.. [A,1],write_to_atom(_,A),writeq_to_codes(_,A),number_codes(A,_),phrase(A,"a"),ground(A),setof(A,A,_),findall(A,A,_),bagof(A,A^A,_),sleep(A),date_time(A),set_seed(A),random(A),write_term(f(_),[variable_names([A=_])]),format("~*c~t~200000|~a~`xt~400000+",[100000,0'x,A]),format("~300000d",[1]),format("~300000e",[1.0]),format("~100000p",[A])]), c(G)).
"""
DEEP = r"""
nestl(0,T,T) :- !.
nestl(N,T,R) :- M is N-1, nestl(M,f(T,x),R).
deep(T) :- nestl(400000,a,T).
"""
DEEPOPS = {'write': "open('/dev/null',write,S), writeq(S,T)", 'copy_term': 'copy_term(T,_)', 'assertz': 'dynamic_zz(T)', 'compare': 'deep(U), T==U', 'unify': 'deep(U), T=U', 'term_variables': 'term_variables(T,_)', 'ground': 'ground(T)', 'findall': 'findall(T,true,_)',
           'g_assign': 'g_assign(q,T)', 'throw': 'catch(throw(T),_,true)', 'term_hash': 'term_hash(T,_)', 'read': 'write_to_codes(C,T), append(C," .",D), read_from_codes(D,_)', 'numbervars': 'numbervars(T,0,_)', 'sort': 'sort([T,T,b],_)'}


def fixed(part, arg):
    what, name = arg
    d = R.scratch('c32l')
    S = SAN
    try:
        env = dict(GLOBALSZ='400000', LOCALSZ='100000', TRAILSZ='100000', HOME='/tmp')
        if what == 'long':
            open(d + '/p.pl', 'w').write(LONG)
            goal, key = name, f'long:{name}'
        elif what == 'deep':
            S = PLAIN
            open(d + '/p.pl', 'w').write(DEEP + f":- dynamic(zz/1).\ndynamic_zz(T) :- assertz(zz(T)).\ngo :- deep(T), vlog(0,made), {DEEPOPS[name]}.\n")
            goal, key = 'go', f'deep-term:{name}'
        else:
            open(d + '/p.pl', 'w').write(LONG + "bigt(G) :- mk(1200000,L), vlog(0,made), (catch(G,_,true) -> true ; true).\ngo1(atom_codes) :- bigt(atom_codes(_,L)).\n".replace('bigt(G) :- mk(1200000,L),', 'bigt(L,G) :- mk(1200000,L),').replace('bigt(atom_codes(_,L))', 'bigt(L,atom_codes(_,L))') +
                                         "go1(number_codes) :- bigt(L,number_codes(_,L)).\ngo1(read_from_codes) :- bigt(L,read_from_codes(L,_)).\ngo1(format) :- bigt(L,format(L,[])).\n")
            goal, key = f'go1({name})', f'text-over-1MB:{name}'
        r = S.consult_run(d, ['p.pl'], goal + ", vlogs(-1,done)", timeout=200, env=env, log=d + '/log')
        marks = [k for k, _ in r.events]
        part.case(f'{what} {name}')
        part.count(f'{what} probes')
        part.count(f'{what} calls logged', sum(1 for k in marks if k == 0))
        bad = 'ERROR: AddressSanitizer' in r.err or 'runtime error:' in r.err or 'Segmentation' in r.err + r.out or (r.rc is not None and r.rc < 0 and not r.timeout)
        if bad:
            last = [e for k, e in r.events if k == 0][-1:]
            if what == 'long':
                key += ':' + where(r.err)
            part.violation(key, f'{what} {name}: status {r.rc}, last call logged {tsx(last[0])[:200] if last and last[0] is not None else ""}\n' + san_report(r), {'p.pl': open(d + '/p.pl').read(), 'goal': goal})
        elif not r.timeout and -1 not in marks and 'Fatal Error' not in r.err + r.out and (0 not in marks):
            part.inconclusive(f'{what} {name}: nothing was run: {r.out[-200:]} {r.err[-200:]}')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def seeds_src():
    out = []
    base = B.REPO if hasattr(B, 'REPO') else os.environ.get('GPV_REPO', '/repo')
    for g in ('examples/ExamplesPl', 'examples/ExamplesFD', 'src/BipsPl', 'src/Pl2Wam'):
        for f in sorted(os.listdir(f'{base}/{g}')):
            if f.endswith('.pl') and os.path.getsize(f'{base}/{g}/{f}') < 9000:
                out.append(open(f'{base}/{g}/{f}', encoding='latin-1').read())
    fd = [open(f'{base}/src/BipsFD/{f}', encoding='latin-1').read() for f in sorted(os.listdir(f'{base}/src/BipsFD')) if f.endswith('.fd')]
    return out, fd


TOKS = ['(', ')', '[', ']', '{', '}', ',', '|', '.', '.\n', ':-', '?-', '-->', "'", '"', '`', '0', '0\'', "0'a", '0x', '1.0e', '1e400', '99999999999999999999', '-', '_', 'X', '!', ';', '->', '*->', '\\', '\\+', '\\x', '\\777\\', '/*', '*/', '%', '\0', '\xff', '\xe9', 'a:b', 'call', 'is', '=..', '^', '#=', ':- dynamic(', ':- initialization(', ':- foreign(', ':- include(', ':- op(200,xfy,', ':- set_prolog_flag(', ':- multifile(', ':- discontiguous(', ':- if(', ':- else', ':- endif', ':- ensure_linked(', ':- built_in', ':- public(', ':- end_of_file.', 'end_of_file.', 'f(A,B,C,D,E,F,G,H)', 'X=X', 'catch(', 'findall(', '$cut', "'$aux'", 'x' * 300, 'Y' * 300]


def mutate(r, t):
    t = t if len(t) < 3000 else t[(o := r.randrange(len(t) - 2500)):o + 2500]
    toks = re.findall(r"\w+|\s+|[^\w\s]", t)
    for _ in range(r.choice([1, 2, 4, 10, 40])):
        if not toks:
            break
        i = r.randrange(len(toks))
        c = r.random()
        if c < .2:
            del toks[i:i + r.choice([1, 1, 3, 20])]
        elif c < .6:
            toks.insert(i, r.choice(TOKS))
        elif c < .75:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif c < .85:
            toks[i] = toks[i] * r.choice([2, 50, 300])
        elif c < .93:
            j = r.randrange(len(toks))
            toks[i:i] = toks[j:j + r.choice([5, 50])]
        else:
            toks[i] = chr(r.randrange(256))
    return ''.join(toks)


def srcs(part, arg):
    i, seed, n, tmax = arg
    r = random.Random(f'{seed}/c32/src/{i}')
    d = R.scratch('c32s')
    pl, fd = SEEDS
    end = time.time() + tmax
    bd = SAN.build
    env = dict(os.environ, GLOBALSZ='200000', LOCALSZ='60000', TRAILSZ='60000', LINEDIT='no', ASAN_OPTIONS='detect_leaks=0:handle_segv=1:exitcode=86', UBSAN_OPTIONS='print_stacktrace=1:exitcode=86')
    try:
        for k in range(n):
            if time.time() > end:
                break
            isfd = k % 8 == 7
            t = mutate(r, r.choice(fd if isfd else pl))
            chain = [('fd2c', [f'{bd}/src/Fd2C/fd2c', '-o', 'x.c', 'x.fd'])] if isfd else [('pl2wam', [f'{bd}/src/Pl2Wam/pl2wam', '-o', 'x.wam', 'x.pl']), ('wam2ma', [f'{bd}/src/Wam2Ma/wam2ma', '-o', 'x.ma', 'x.wam']), ('ma2asm', [f'{bd}/src/Ma2Asm/ma2asm', '-o', 'x.s', 'x.ma'])]
            f = 'x.fd' if isfd else 'x.pl'
            open(f'{d}/{f}', 'wb').write(t.encode('latin-1', 'replace'))
            part.case(t, sample=(k == 3))
            for tool, cmd in chain:
                try:
                    with open(d + '/out', 'wb') as fo:
                        q = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=fo, stderr=fo, timeout=20, start_new_session=True)
                    rc = q.returncode
                except subprocess.TimeoutExpired:
                    part.count(f'{tool} stopped after 20 s')
                    break
                part.count(f'{tool} runs')
                out = open(d + '/out', 'rb').read(200000).decode('latin-1')
                if 'ERROR: AddressSanitizer' in out or 'runtime error:' in out or 'Segmentation' in out or rc < 0:
                    part.violation(f'{tool}:{where(out)}', f'{tool} on a hostile source, status {rc}\n' + out[:1500], {f: t})
                    break
                if rc != 0:
                    part.count(f'{tool} refused')
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body():
    global SAN, BIPS, PLAIN, SEEDS
    ck = Check('C32', rule='hostile calls of every built-in, constraint postings, global-variable, database, reading, operator, format and arithmetic sequences on a build with address and undefined-behaviour sanitizers: no sanitizer report and no death by a signal; each call ends in success, failure, a Prolog error or a documented fatal message')
    SAN = Sys('san')
    PLAIN = Sys('plain')
    SEEDS = seeds_src()
    d = R.scratch('c32b')
    open(d + '/p.pl', 'w').write("w :- ( predicate_property(H, built_in), functor(H, N, A), N \\== '.', write_canonical(N), put_char(' '), write(A), nl, fail ; true ).\n")
    r = SAN.consult_run(d, ['p.pl'], 'w')
    for x in r.out.split('\n'):
        m = re.match(r"^(\S+) (\d+)$", x.strip().replace('| ?- ', ''))
        if m:
            n = m.group(1)
            if n.startswith("'"):
                n = n[1:-1].replace("\\\\", "\\")
            if n not in EVIL_SKIP:
                BIPS.append((n, int(m.group(2))))
    shutil.rmtree(d, ignore_errors=True)
    ck.counters['built-ins called at random'] = len(BIPS)
    nl, tm = (600, 12) if not ck.thorough else (4000, 100)
    kinds = ['base'] * 14 + ['bip'] * 8 + ['fd'] * 6 + ['glob'] * 3 + ['db'] * 4 + ['read'] * 5 + ['op'] * 3 + ['fmt'] * 3 + ['arith'] * 2
    parallel(ck, fuzz, [(k, i, ck.seed, nl, tm) for i, k in enumerate(kinds)])
    parallel(ck, srcs, [(i, ck.seed, 200 if not ck.thorough else 3000, 25 if not ck.thorough else 150) for i in range(8)])
    parallel(ck, fixed, [('long', f't{i}') for i in range(1, 6)] + [('deep', n) for n in DEEPOPS] + [('big', n) for n in ('atom_codes', 'number_codes', 'read_from_codes', 'format')])
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
