#!/usr/bin/env python3
"""C34: deterministic iteration runs in bounded space (stack tops, atoms and C heap sampled while loops run)."""
import sys, os, re, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv import run as R
from gpv.run import Sys
from gpv.batch import ts

# goals that release what they use; S is the iteration number
BODY = r"""true
X = f(Y,_), Y = a
X = [1,2,3], length(X, _)
findall(X, q1(X), L), length(L, 3)
findall(X-Y, (q1(X), q1(Y)), L), sort(L, _)
bagof(X, q1(X), _)
setof(X-Y, q2(X,Y), _)
(setof(Y, q2(X,Y), _), fail ; true)
(bagof(X, q2(X,Y), _), fail ; true)
forall(q1(X), integer(X))
\+ \+ q1(_)
\+ q1(7)
(q1(X), X > 2 -> true ; fail)
(q1(X), X > 7 -> fail ; true)
catch(throw(ball(f(x))), ball(_), true)
catch(q1(_), _, true)
catch((X is foo + 1), error(_, _), true)
catch(atom_length(_, _), error(_, _), true)
catch(call(1), error(_, _), true)
catch(undefined_pred(1), error(_, _), true)
catch(nested(5), b, true)
assertz(d1(S)), retract(d1(S))
assertz((d2(X) :- X > S, q1(X))), retract((d2(_) :- _))
asserta(d1(f(S,"abc",[1,2]))), retractall(d1(_))
assertz(d1(1)), assertz(d1(2)), (retract(d1(_)), fail ; true)
assertz(d1(1)), assertz(d1(2)), assertz(d1(3)), d1(X), X == 2, retract(d1(3)), retractall(d1(_))
assertz(d1(g(1))), assertz(d1(2)), assertz(d1(a)), assertz(d1(3.5)), (clause(d1(X), _), fail ; true), abolish_d1
g_assign(gv, f(S, [a,b,c])), g_read(gv, _)
g_assign(gv, S), g_inc(gv, _)
g_assign(ga, g_array(20, S)), g_assign(ga(3), f(x)), g_read(ga(3), _)
g_assign(ga, g_array_auto(2, 0)), g_assign(ga(30), S), g_read(ga(17), _)
g_assign(gh, g_array(5)), g_assign(gh(1), g_array(3, x)), g_assign(gh(1,2), S)
g_link(gl, f(S)), g_read(gl, _), g_assign(gl, 0)
atom_codes(A, "abcdef"), atom_length(A, 6)
sub_atom(abcdefgh, 2, 3, _, X)
(sub_atom(abcde, B, L, A, X), fail ; true)
atom_concat(abc, def, X)
(atom_concat(X, Y, abcd), fail ; true)
atom_chars(X, [a,b,c])
number_codes(X, "12.5e3"), X > 1
number_atom(X, '0x1F')
name(X, "foo"), name(foo, _)
upper_lower_test
term_to_atom_test
write_to_atom(X, f(a,'B',"c",[1,2]))
write_to_codes(X, f(a,'B',"c",[1,2]))
writeq_to_chars(X, 'hello world'(1.5))
format_to_codes(X, "~w ~q ~d ~a~30|~e~n", [a,'B c',12,xx,1.5])
format_to_atom(X, "~`-t~30|~w~t~20+", [abc])
read_from_atom('foo(X, Y, bar, "str", 12.5, [a|X]). ', T)
read_term_from_codes("foo(X,Y,_Z). ", T, [variable_names(_), singletons(_)])
catch(read_from_codes("a b c . ", _), _, true)
catch(read_from_atom('foo(. ', _), _, true)
open_output_codes_stream(O), write(O, f(S2)), close_output_codes_stream(O, _)
open_input_codes_stream("foo. bar. ", I), read(I, A), read(I, B), close_input_codes_stream(I)
open_input_atom_stream('foo. bar. ', I), read(I, A), close_input_atom_stream(I)
open('c34.tmp', write, O), write(O, hello), close(O)
open('c34.in', read, I), read(I, _), get_char(I, _), close(I)
open('c34.in', read, I, [alias(al)]), add_stream_alias(I, al2), peek_char(al, _), close(al2)
open('c34.in', read, I, [type(binary)]), get_byte(I, _), close(I)
catch(open('no/such/file', read, _), error(_, _), true)
open('c34.tmp', write, O), set_output(O), write(x), close(O)
copy_term(f(X,Y,[X|Z],g(a)), _)
T = f(_,_), functor(T, f, 2), arg(1, T, x), T =.. [f|_]
length(L, 30), L = [x|_]
numbervars(f(_,_,_), 0, 3)
term_variables(f(X,Y,g(X,Z)), [_,_,_])
sort([c,a,b,a], [a,b,c]), msort([c,a,b,a], _), keysort([2-a,1-b], _)
append([1,2,3], [4], L), reverse(L, M), nth(2, M, _), memberchk(3, M)
(append(X, Y, [1,2,3]), fail ; true)
(permutation([1,2,3], _), fail ; true)
(select(X, [1,2,3], _), fail ; true)
(between(1, 5, X), fail ; true)
(for(X, 1, 5), fail ; true)
(current_op(P, T, mod), fail ; true)
(current_predicate(q1/N), fail ; true)
(predicate_property(q1(_), P), fail ; true)
(current_prolog_flag(F, V), fail ; true)
(current_stream(X), fail ; true)
(stream_property(X, alias(Y)), fail ; true)
(current_alias(X, Y), fail ; true)
assertz((d2(1) :- q1(2))), (clause(d2(_), _), fail ; true), retractall(d2(_))
once((repeat, g_inc(cnt, N), N >= 0))
op(700, xfx, ===>), op(0, xfx, ===>)
char_conversion(z, y), char_conversion(z, z)
set_prolog_flag(double_quotes, atom), set_prolog_flag(double_quotes, codes)
call((q1(X), X > 1, !))
call((q1(X) ; fail))
call(q2, 1, _)
G = (q1(X), \+ X = 3), call(G)
(G = q1(_), call_det(G, _) -> true)
countall(q1(_), 3)
once(q1(_))
call_nth_test
phrase(gr(X), "aab", _)
(phrase(gr(X), "aab", _), fail ; true)
setarg_test
X is 2 ** 3 + sqrt(4.0) * (S mod 7)
X = "abc", atom_codes(Y, X), Y @< b
compare(_, f(X,1), f(Y,2))
unify_with_occurs_check(f(X,Y), f(g(Y),a))
X #> 3, X #< 10, fd_min(X, 4)
X in_test
fd_domain([X,Y,Z], 1, 5), fd_all_different([X,Y,Z]), X + Y #= Z, fd_labeling([X,Y,Z])
(fd_domain(X, 1, 5), fd_labeling([X]), fail ; true)
fd_domain(X, 0, 200), X #\= 5, X #\= 77, X * X #= Y, fd_size(Y, _)
fd_domain(X, [1,5,9,100]), fd_dom(X, _), fd_domain(Y, 1, 9), X #= Y
B #<=> (X #= 3), X = 4
(fd_domain([X,Y], 1, 4), X * Y #= 6, fd_labeling([X,Y], [variable_method(ff)]), fail ; true)
fd_domain([X,Y], 0, 9), X + Y #= 9, fd_maximize(fd_labeling([X,Y]), X)
fd_element(X, [3,5,7], 5)
fd_cardinality([A #= 1, B #= 2], 1)
consult_atom_test
statistics(runtime, _), cpu_time(_), real_time(_)
random(1, 10, X), get_seed(Z), set_seed(Z)
environ('HOME', _)
file_exists('c34.in'), file_property('c34.in', size(_))
directory_files('.', _)
absolute_file_name('a/../b', _), decompose_file_name('x/y.pl', _, _, _)
date_time(_)
temporary_file('.', tmpx, _)
popen_test
term_hash(f(a,b), _)
current_atom_test
expand_term((a --> b, "c", {d}), _)
print_message_test
portray_clause_test
sum_list([1,2,3], 6), max_list([1,5,2], 5)
maplist(atom, [a,b,c])
maplist(q2, [1,2], _)
sub_atom_all""".split('\n')
DROP = {'upper_lower_test', 'term_to_atom_test', 'setarg_test', 'X in_test', 'consult_atom_test', 'popen_test', 'current_atom_test', 'print_message_test', 'portray_clause_test', 'sub_atom_all', 'call_nth_test', 'temporary_file(\'.\', tmpx, _)'}
BODY = [b for b in BODY if b not in DROP] + ["setarg(1, f(a), b)", "setarg(1, f(a), b, false)", "lower_upper(a, _)", "portray(1)", "open_output_atom_stream(O), portray_clause(O, (a:-b,c)), listing_none, close_output_atom_stream(O, _)", "call_nth(q1(_), 2)", "shell_skip", "popen('true', read, P), close(P)", "(retract(d1(_)) ; true)"]
BODY = [b for b in BODY if b not in ('portray(1)', 'shell_skip')]
KNOWN_ATOMS = ()

PRE = r"""
:- dynamic(d1/1). :- dynamic(d2/1). :- dynamic(gvv/1).
q1(1). q1(2). q1(3).
q2(1,b). q2(2,a). q2(1,c).
gr(X) --> "a", gr(X).
gr(x) --> [].
nested(0) :- throw(b).
nested(N) :- M is N - 1, catch(nested(M), c, true).
abolish_d1 :- retractall(d1(_)).
listing_none.
"""


def progs(r, k, mode):
    """(text, goals, samples expected per goal)"""
    t = [PRE]
    goals = []
    for j in range(k):
        b = r.choice(BODY)
        heavy = any(w in b for w in ('fd_', '#', 'open(', 'popen', 'permutation', 'flag', 'setof', 'sub_atom(abcde', 'predicate', 'directory', 'stream', 'portray'))
        n = 400 if 'popen' in b else (2000 if heavy else 4000)
        q = n // 4
        form = r.randrange(9)
        v = r.randrange(10 ** 6)
        tick = f"( S mod {q} =:= 0 -> vstat({j}) ; true )"
        w = r.choice([f'\\+ \\+ ({b})', f'(({b}), fail ; true)', f'forall(member(_,[1]), ({b}))', f'findall(x, ({b}), _Lx)'])
        if form in (0, 1):       # failure-driven
            gen = r.choice([f'between(1,{n},S)', f'for(S,1,{n})', f'nat(S,{n})'])
            t.append(f"l{j} :- {gen}, once(({b})), {tick}, fail.\nl{j}.")
            if gen.startswith('nat'):
                t.append('')
        elif form == 2:     # repeat
            t.append(f"l{j} :- g_assign(c{j},0), repeat, g_inc(c{j},S0), S is S0, once(({b})), {tick}, S >= {n}, !.")
        elif form in (3, 4):     # tail recursion, clause selection by the first argument
            t.append(f"l{j} :- r{j}({n}).\nr{j}(0).\nr{j}(S) :- S > 0, {w}, {tick}, S1 is S - 1, r{j}(S1).")
            t[-1] = t[-1].replace(f"r{j}(0).\n", f"r{j}(0) :- !.\n")
        elif form == 5:     # if-then-else
            t.append(f"l{j} :- r{j}({n}, x).\nr{j}(S, ZA) :- ( S =:= 0 -> true ; {w}, {tick}, S1 is S - 1, ( ZA == x -> r{j}(S1, y) ; r{j}(S1, x) ) ).")
        elif form == 6:     # mutual, state in first argument (indexing makes it deterministic)
            t.append(f"l{j} :- r{j}(s, {n}).\nr{j}(s, S) :- {w}, {tick}, n{j}(S, ZT, ZK), r{j}(ZK, ZT).\nr{j}(t, S) :- m{j}(S).\nr{j}(e, _).\nm{j}(S) :- r{j}(s, S).\nn{j}(1, 0, e) :- !.\nn{j}(S, T, K) :- T is S - 1, ( S mod 2 =:= 0 -> K = t ; K = s ).")
        elif form == 7:     # list traversal, deterministic by indexing
            t.append(f"l{j} :- numlist_{j}({n}, L), r{j}(L).\nnumlist_{j}(0, []) :- !.\nnumlist_{j}(N, [N|L]) :- M is N - 1, numlist_{j}(M, L).\nr{j}([]).\nr{j}([S|ZL]) :- {w}, {tick}, r{j}(ZL).")
        else:               # through call/N and a dynamic predicate
            t.append(f":- dynamic(r{j}/1).\nl{j} :- r{j}({n}).\nr{j}(0) :- !.\nr{j}(S) :- {w}, {tick}, S1 is S - 1, " + r.choice([f'call(r{j}, S1)', f'r{j}(S1)', f'ZG = r{j}(S1), call(ZG)']) + '.')
        goals.append((j, b, 9 if form <= 1 and gen.startswith('nat') else form, n))
    t.append("nat(S, N) :- nat(1, S, N).\nnat(S, S, _).\nnat(I, S, N) :- I < N, J is I + 1, nat(J, S, N).")
    for j, _, _, _ in goals:
        t.append(f"g{j} :- vmark({j}), catch(( l{j} -> true ; vlogs({j}, no) ), E, vlog({j}, ex(E))), vlogs({j}, done).")
    t.append("main :- " + ', '.join(f'g{j}' for j, _, _, _ in goals) + ", vlogs(-1, done).")
    txt = '\n'.join(t) + '\n'
    if mode == 'native':
        txt += ":- initialization(main).\n"
    return txt, goals


def loops(part, arg):
    mode, i, seed, k = arg
    r = random.Random(f'{seed}/c34/{mode}/{i}')
    d = R.scratch('c34')
    try:
        open(d + '/c34.in', 'w').write('foo(bar). baz.\n')
        txt, goals = progs(r, k, mode)
        open(d + '/p.pl', 'w').write(txt)
        env = dict(GLOBALSZ='32000', LOCALSZ='4000', TRAILSZ='4000', CSTRSZ='8000', LINEDIT='no')
        if mode == 'native':
            res = PL.native_run(d, ['p.pl'], timeout=120, log=d + '/log', env=env)
            if res.compile_failed:
                open('/tmp/c34bad.pl','w').write(txt); part.inconclusive(f'compilation failed: {(res.out + res.err)[-300:]}')
                return
        else:
            res = PL.consult_run(d, ['p.pl'], 'main', timeout=120, log=d + '/log', env=env)
        by = {}
        for key, e in res.events:
            by.setdefault(key, []).append(None if e is None else ts(e))
        if -1 not in by and res.timeout:
            part.inconclusive(f'{mode} {i}: timeout')
        for j, b, form, n in goals:
            ev = [x for x in by.get(j, []) if x is not None]
            if not ev and j not in by:
                if 'Fatal' in res.out + res.err or (not res.timeout and j == max(x for x in by if x >= 0) + 1 if by else False):
                    pass
                continue
            st = [list(map(int, re.findall(r'-?\d+', x))) for x in ev if x.strip("'").startswith('m ')]
            rest = [x for x in ev if not x.strip("'").startswith('m ')]
            what = f'{mode} form {form} body {b}'
            if 'done' not in rest:
                if 'Fatal' in res.out + res.err:
                    m = re.search(r'Fatal Error: ([^\n]*)', res.out + res.err)
                    part.violation(f'overflow:{form}:{b}'[:120], f'{what}: {n} iterations: {m.group(1)} after {len(st)} samples {st}', {'p.pl': txt})
                continue
            part.case(what + str(i), sample=(j == 0))
            part.count(f'loops {mode}')
            part.count('iterations', n)
            part.count('samples of the stacks', len(st))
            if any(x.startswith('ex(') or x == 'no' for x in rest):
                part.violation(f'end:{form}:{b}'[:120], f'{what}: loop ended by {rest}', {'p.pl': txt})
                continue
            if form == 7:
                pass
            if len(st) < 4:
                part.inconclusive(f'{what}: {len(st)} samples')
                continue
            a, z = st[1], st[3]
            dl, dg, dt, dc, da, dm = [y - x for x, y in zip(a, z)]
            bad = []
            if dl > 0: bad.append(f'local stack +{dl}')
            # without garbage collection, terms built going forward stay until backtracking
            if dg > 0 and form <= 2: bad.append(f'global stack +{dg}')
            if dt > 0: bad.append(f'trail +{dt}')
            if dc > 0: bad.append(f'constraint stack +{dc}')
            if da > 2: bad.append(f'{da} atoms')
            if dm > 4096 + n // 2: bad.append(f'C heap +{dm}')
            if bad:
                part.violation(f'growth:{b}'[:120], f'{what}: between iterations {n // 2} and {n}: {", ".join(bad)}\nsamples (local global trail cstr atoms heap): {st}', {'p.pl': txt})
    finally:
        shutil.rmtree(d, ignore_errors=True)


DET = r"""X = f(Y)
atom_codes(_, "abc")
atom_length(abc, _)
sub_atom(abcde, 1, 2, _, _)
sub_atom(abcde, 1, _, 2, _)
sub_atom(abcde, _, 2, 1, _)
atom_concat(abc, X, abcde)
atom_concat(X, de, abcde)
atom_concat(ab, c, _)
between(3, 3, _)
functor(_, f, 3)
arg(2, f(a,b), _)
f(a,b) =.. _
copy_term(f(X), _)
length([a,b], _)
length(_, 4)
append([a,b], [c], _)
reverse([a,b], _)
memberchk(b, [a,b,c])
sort([b,a], _)
msort([b,a], _)
findall(X, q1(X), _)
forall(q1(X), X > 0)
once(q1(_))
\+ q1(9)
(q1(X) -> true ; fail)
catch(X = 1, _, true)
catch(throw(a), _, true)
setof(X, q1(X), _)
bagof(X, q1(X), _)
g_assign(gg, 1)
g_read(gg, _)
g_inc(gg, _)
assertz(dd(1)), retract(dd(1))
clause(d5(1), _)
retractall(d5(7))
number_codes(_, "12")
atom_chars(X, [a])
read_from_atom('f(X). ', _)
write_to_atom(_, f(x))
current_op(700, xfx, =:=)
current_prolog_flag(bounded, _)
nth0(1, [a,b,c], b)
sum_list([1,2], _)
last([1,2,3], _)
keysort([b-1,a-2], _)
X #> 3
fd_domain(X, 1, 5)
fd_labeling([1,2])
phrase(dg, "ab")
call(q1, 3)
call((X = 1, Y = 2))
X is 3 + 4
compare(_, 1, 2)
maplist(=(a), [a,a])
number_vars_ok
numbervars(f(_,_), 0, _)
term_variables(f(X,Y), _)
char_code(_, 65)
tab_ok
atom(foo)
ground(f(a))
d5(3)
q1(3)
q3(a,b)""".split('\n')
DET = [g for g in DET if g not in ('number_vars_ok', 'tab_ok')]
KEYS = ['a', 'b', "'hello w'", '[]', '{}', '1', '2', '-5', '100000', 'f(_)', 'f(_,_)', 'g(x)', '[_|_]', 'h(_,_,_)', 'zz', '77', "'.'", '+', '0', 'k(_)']
CALLS = {'f(_)': 'f(1)', 'f(_,_)': 'f(a,_)', '[_|_]': '[a]', 'h(_,_,_)': 'h(1,2,3)', 'k(_)': 'k(_)'}


def dets(part, arg):
    mode, i, seed = arg
    r = random.Random(f'{seed}/c34d/{mode}/{i}')
    d = R.scratch('c34d')
    try:
        t = [":- dynamic(dd/1). :- dynamic(d5/1).", "q1(1). q1(2). q1(3).", "d5(1). d5(2). d5(3).", 'dg --> "a", "b".', "q3(a,b)."]
        probes = [(g, g) for g in DET]
        for j in range(12):
            ks = r.sample(KEYS, r.randint(2, len(KEYS)))
            if mode == 'dyn' or r.random() < .25:
                t.append(f":- dynamic(p{j}/2).")
            for k in ks:
                t.append(f"p{j}({k}, X) :- " + r.choice(['X = 1', 'true', 'q3(X, _)', 'atom(a), X = 2', '!', '( X = 1 -> true ; X = 2 )', '\\+ a = foo']) + '.')
            for k in ks:
                probes.append((f"p{j}({CALLS.get(k, k)}, _)", f'first argument {k} among {ks}'))
        for n, (g, _) in enumerate(probes):
            t.append(f"t{n} :- vstat({n}), {g}, vstat({n}).\nu{n} :- call_det(({g}), D), vlog({n}, det(D)).")
        t.append("main :- " + ', '.join(f'(t{n} -> true ; vlogs({n}, no)), (u{n} -> true ; vlogs({n}, no))' for n in range(len(probes))[:60]) + ', main2.')
        t.append("main2 :- forall(( between(60, %d, N), number_atom(N, A), atom_concat(t, A, T), atom_concat(u, A, U) ), ( (call(T) -> true ; vlogs(N, no)), (call(U) -> true ; vlogs(N, no)) )), vlogs(-1, done)." % (len(probes) - 1))
        txt = '\n'.join(t) + '\n'
        if mode == 'native':
            txt += ':- initialization(main).\n'
        open(d + '/p.pl', 'w').write(txt)
        if mode == 'native':
            res = PL.native_run(d, ['p.pl'], timeout=120, log=d + '/log')
            if res.compile_failed:
                part.inconclusive(f'compilation failed: {(res.out + res.err)[-300:]}')
                return
        else:
            res = PL.consult_run(d, ['p.pl'], 'main', timeout=120, log=d + '/log')
        by = {}
        for key, e in res.events:
            if e is not None:
                by.setdefault(key, []).append(ts(e))
        if -1 not in by:
            part.inconclusive(f'det {mode}: did not end {res.out[-300:]} {res.err[-200:]}')
            return
        for n, (g, what) in enumerate(probes):
            ev = by.get(n, [])
            part.case(f'{mode} {g} {what}', sample=(n == 70))
            part.count('determinism probes')
            st = [list(map(int, re.findall(r'-?\d+', x))) for x in ev if x.strip("'").startswith('m ')]
            if len(st) != 2 or 'no' in ev:
                part.violation(f'det-end:{g}'[:120], f'{mode} {g} ({what}): {ev}', {'p.pl': txt})
                continue
            if st[0][0] < st[1][0] or 'det(true)' not in ev:
                part.violation(f'det:{g if g == what else "indexing"}'[:120], f'{mode} {g} ({what}): a choice point is left: local stack {st[0][0]} -> {st[1][0]}, call_det {ev[-1]}', {'p.pl': txt})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body():
    global PL
    ck = Check('C34', rule='random loops (failure-driven, repeat, tail recursion with cut, if-then-else, mutual, indexed lists, dynamic, call/N) over goals that release their results: tops of the four stacks, number of atoms and allocated C memory sampled at quarters of the iterations; nothing may grow from the second quarter to the last')
    PL = Sys('plain')
    m = 240 if not ck.thorough else 1200
    parallel(ck, loops, [(('native', 'byte')[i % 2], i, ck.seed, 14) for i in range(m)])
    md = 18 if not ck.thorough else 300
    parallel(ck, dets, [(('native', 'byte', 'dyn')[i % 3], i, ck.seed) for i in range(md)])
    ck.finish(300)


if __name__ == '__main__':
    main(body)
