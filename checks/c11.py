#!/usr/bin/env python3
"""C11: atoms are identical exactly when their text is."""
import sys, os, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.terms import *
from gpv import gen as G, run as R
from gpv.run import Sys
import random

ATOMS_C = r'''
#include <gprolog.h>
#include <string.h>
#include <stdlib.h>
/* atoms through the C interface */
PlBool c_mk(char *s, int *a) { char b[70000]; strncpy(b, s, sizeof b - 1); b[sizeof b - 1] = 0; *a = Pl_Create_Allocate_Atom(b); memset(b, 'z', 20); return PL_TRUE; }
PlBool c_mk2(char *s, int *a) { *a = Pl_Create_Atom(strdup(s)); return PL_TRUE; }
PlBool c_find(char *s, PlLong *k) { int f = Pl_Find_Atom(s); *k = (f < 0) ? -1 : (f == Pl_Create_Allocate_Atom(s)); return PL_TRUE; }
PlBool c_info(int a, PlLong *len, char **name, PlLong *ok) { *len = Pl_Atom_Length(a); *name = Pl_Atom_Name(a); *ok = Pl_Is_Valid_Atom(a); return PL_TRUE; }
'''
CDEC = ''':- discontiguous(mk/3).
:- foreign(c_mk(+codes, -atom)).
:- foreign(c_mk2(+codes, -atom)).
:- foreign(c_find(+codes, -integer)).
:- foreign(c_info(+atom, -integer, -codes, -integer)).
mk(c, Cs, A) :- c_mk(Cs, A).
mk(c2, Cs, A) :- c_mk2(Cs, A).
mk(cf, Cs, A) :- c_find(Cs, K), atom_codes(A, Cs), ( K =:= -1 -> true ; K =:= 1 -> true ; A = wrong_key ).
cinfo(A, Cs) :- c_info(A, L, N, 1), N == Cs, length(Cs, L).
'''
BDEC = ''':- discontiguous(mk/3).
cinfo(_, _).
'''
PL = r'''
mk(codes, Cs, A) :- atom_codes(A, Cs).
mk(chars, Cs, A) :- cs(Cs, L), atom_chars(A, L).
mk(concat, Cs, A) :- length(Cs, N), K is N // 2, length(P, K), append(P, S, Cs), atom_codes(X, P), atom_codes(Y, S), atom_concat(X, Y, A).
mk(sub, Cs, A) :- length(Cs, N), append([0'<|Cs], [0'>], L), atom_codes(X, L), sub_atom(X, 1, N, 1, A).
mk(unconcat, Cs, A) :- append(Cs, [0'.,0'.], L), atom_codes(X, L), atom_concat(A, '..', X).
mk(format, Cs, A) :- format_to_atom(A, '~s', [Cs]).
mk(write, Cs, A) :- atom_codes(X, [0'<|Cs]), sub_atom(X, 1, _, 0, Y), write_to_atom(A, Y).
mk(read, Cs, A) :- quoted(Cs, Q), append([39|Q], [39,0' ,0'.], L), read_from_codes(L, A).
mk(readt, Cs, A) :- quoted(Cs, Q), append([39|Q], [39,0' ,0'.], L), open_input_codes_stream(L, S), read_token(S, A), close_input_codes_stream(S).
mk(out, Cs, A) :- open_output_atom_stream(S), put_codes(S, Cs), close_output_atom_stream(S, A).
mk(func, Cs, A) :- quoted(Cs, Q), append([39|Q], [39,0'(,0'x,0'),0'.], L), read_from_codes(L, T), functor(T, A, 1).
mk(univ, Cs, A) :- atom_codes(X, Cs), T =.. [X,a,b], T =.. [A|_].
mk(name, Cs, A) :- name(A, Cs).
mk(tok, Cs, A) :- read_token_from_codes(Cs, A).
mk(db, Cs, A) :- atom_codes(X, Cs), assertz(dbx(X)), retract(dbx(A)).
mk(src, K, A) :- src(K, A).
mk(lit(A), _, A).
cs([], []).
cs([C|Cs], [H|T]) :- char_code(H, C), cs(Cs, T).
quoted([], []).
quoted([C|Cs], Q) :- ( C =:= 39 -> Q = [39,39|T] ; C =:= 0'\\ -> Q = [0'\\,0'\\|T] ; C >= 32, C < 127 -> Q = [C|T] ; number_codes(C, D), dec_oct(C, D2), append([0'\\|D2], [0'\\|T], Q), D = D ), quoted(Cs, T).
dec_oct(C, O) :- format_to_codes(O, '~8r', [C]).
put_codes(_, []).
put_codes(S, [C|Cs]) :- put_code(S, C), put_codes(S, Cs).
:- dynamic(dbx/1).
loop(F) :- open(F, read, S), repeat, read(S, T), ( T == end_of_file -> !, close(S), fin ; do(T), fail ).
do(t(I, R, Cs)) :- ( mk(R, Cs, A) -> true ; A = failed(I) ), ( atom(A) -> g_read(A, V), ( V = s(J) -> vlog(I, same(J)) ; g_assign(A, s(I)), vlog(I, new) ) ; vlog(I, notatom(A)) ).
do(c(I, Cs)) :- atom_codes(A, Cs), g_read(A, V), atom_length(A, L), atom_codes(A, C2), findall(P, atom_property(A, P), Ps), term_hash(A, H),
  ( C2 == Cs, cinfo(A, Cs), atom(A), current_atom_ok(A, Cs) -> vlog(I, info(V, L, Ps, H)) ; vlog(I, bad(V, L, A)) ).
do(ne(I, Cs1, Cs2)) :- atom_codes(A, Cs1), atom_codes(B, Cs2), ( A \== B, \+ A = B, A \= B, f(A) \== f(B), compare(O, A, B), O \== (=) -> vlog(I, distinct) ; vlog(I, identical) ).
do(op(P, T, Cs)) :- atom_codes(A, Cs), op(P, T, A).
do(n(I, Cs)) :- atom_codes(P, Cs), new_atom(P, A), g_read(A, V), ( V = 0, A \== P -> g_assign(A, s(I)), vlog(I, fresh(A)) ; vlog(I, stale(A)) ).
do(all(I)) :- vmark(I), current_atom(A), vlog(I, A), fail.
do(all(_)).
do(st(I)) :- statistics(atoms, [U, F]), vlog(I, st(U, F)).
current_atom_ok(A, [0'$|_]) :- !, \+ current_atom(A).
current_atom_ok(A, _) :- current_atom(A).
fin :- vlogs(-1, done).
'''
ROUTES = ['codes', 'chars', 'concat', 'sub', 'unconcat', 'format', 'write', 'read', 'readt', 'out', 'func', 'univ', 'name', 'tok', 'db', 'src', 'lit']
PLAIN = ['codes', 'chars', 'read', 'out', 'format', 'lit']


def texts(r, n, style):
    seen = set()
    out = []

    def add(s):
        if s not in seen and len(s) < 60000 and '\0' not in s:
            seen.add(s)
            out.append(s)
    base = []
    while len(out) < n:
        k = r.random()
        if style == 'seq' or k < .15:
            add('%s%d' % (r.choice(['a', 'x_', 'at', '', 'Q', '\xff']), r.randint(0, n)))
        elif k < .55 and out:
            add(G.near_name(r, r.choice(out)))
        elif k < .7:
            add(''.join(r.choice('ab') for _ in range(r.randint(0, 12))))
        elif k < .85:
            add(''.join(chr(r.randint(1, 255)) for _ in range(r.choice([1, 2, 3, 4, 8, 9, 16, 40]))))
        elif k < .95:
            s = list(r.choice(out) if out else 'abc')
            r.shuffle(s)
            add(''.join(s))
        elif k < .98:
            add(r.choice(['12', '1.5', '[]', '{}', '!', ';', ',', '|', '+', '-', '$sys', '$', 'end_of_file', '', ' ', '\n', "'", '"', '0x1', 'is', 'dynamic', '\\', '\\\\', '/*', '*/', '%', '.', '_', '_a', 'A']))
        else:
            add(r.choice('abc') * r.choice([100, 255, 256, 257, 1000, 5000]) + r.choice(['', 'x', 'y']))
    return out


def ok_route(rt, s):
    if rt == 'name':
        return s == '' or (s[0].isalpha() and s.isascii())
    if rt == 'tok':
        return re.match(r'[a-z][A-Za-z0-9_]*\Z', s) or s in ('+', '-', '*', '\\', '**', '=..')
    if rt in ('func',):
        return True
    return True


def unquoted(s):
    return s in ('[]', '{}', ';', '!') or re.match(r'[a-z][A-Za-z0-9_]*\Z', s) or re.match(r'[-+*/\\^<>=~:.?@#&$]+\Z', s) and not s.startswith('/*') and s != '.'


def codes(s):
    return '[' + ','.join(str(ord(c)) for c in s) + ']'


def lit(s, r):
    return qatom(s) if s else "''"


def job(part, arg):
    kind, i, seed = arg
    r = random.Random(f'c11/{seed}/{kind}/{i}')
    cap = None
    native = kind != 'byte'
    n = 2500
    style = r.choice(['mix', 'mix', 'seq'])
    if kind == 'fill':
        cap = r.choice([2500, 3000, 4096, 4097, 5000, 8191, 8192, 10007])
        n = cap
    elif kind == 'big':
        cap = r.choice([20000, 65536, 65537, 100000, 131072, 300000])
        n = r.choice([6000, 9000])
    ts = texts(r, n, style)
    routes = (PLAIN if kind == 'fill' else ROUTES) + (['c', 'c2', 'cf'] if native else [])
    ops, data = [], []
    first = {}
    exp = {}
    src = []
    k = 0
    seq = []
    for s in ts:
        seq += [s] * r.choice([1, 2, 2, 3])
    if kind != 'fill':
        r.shuffle(seq)
    data.append('st(0).\n')
    exp[0] = ('st',)
    data.append('all(1).\n')
    k = 2
    optab = {}
    if kind != 'fill':
        for s in r.sample(ts, 30):
            if s not in (',', '|', '[]', '{}') and len(s) < 300 and s:
                t = r.choice(['xfx', 'fy', 'xf', 'fx', 'yfx'])
                cls = 'prefix_op' if t in ('fy', 'fx') else 'postfix_op' if t == 'xf' else 'infix_op'
                if s in ('+', '-', '*', ';', 'is', '\\', 'dynamic', '.', '/*'):
                    continue
                data.append(f'op({r.randint(1, 1200)}, {t}, {codes(s)}).\n')
                optab.setdefault(s, set()).add(cls)
    touched = set(optab)
    for s in seq:
        x = r.random()
        if kind == 'fill' or x < .8 or s not in first:
            rt = r.choice(routes)
            while not ok_route(rt, s):
                rt = r.choice(routes)
            if rt == 'src':
                src.append(f'src({k}, {lit(s, r)}).\n')
                data.append(f't({k}, src, {k}).\n')
            elif rt == 'lit':
                data.append(f't({k}, lit({lit(s, r)}), []).\n')
            else:
                data.append(f't({k}, {rt}, {codes(s)}).\n')
            exp[k] = ('same', s)
            first.setdefault(s, k)
            part.count('route ' + rt)
        elif x < .9:
            data.append(f'c({k}, {codes(s)}).\n')
            exp[k] = ('info', s)
        elif x < .99:
            s2 = G.near_name(r, s) if r.random() < .6 else r.choice(ts)
            if s2 == s or '\0' in s2:
                continue
            data.append(f'ne({k}, {codes(s)}, {codes(s2)}).\n')
            exp[k] = ('ne',)
        else:
            data.append(f'n({k}, {codes(s[:20])}).\n')
            exp[k] = ('new', s[:20])
        k += 1
        if kind == 'fill' and k % 500 == 0:
            data.append(f'st({k}).\n')
            exp[k] = ('st',)
            k += 1
    data.append(f'st({k}).\n')
    exp[k] = ('st',)
    allk = k + 1
    data.append(f'all({allk}).\n')
    txt = (CDEC if native else BDEC) + PL + (''.join(src) or 'src(0,a).\n')
    d = R.scratch('at')
    try:
        wr = lambda nm, t: open(os.path.join(d, nm), 'w', encoding='latin-1').write(t)
        if native:
            wr('b.pl', ":- initialization(loop('b.dat')).\n" + txt)
            wr('at.c', ATOMS_C)
        else:
            wr('b.pl', txt)
        wr('b.dat', ''.join(data))
        log = os.path.join(d, 'log')
        env = {'MAX_ATOM': str(cap)} if cap else {}
        if native:
            rc = SYS.compile(d, ['b.pl', 'at.c'], 'prog')
            if rc.rc != 0:
                part.violation('rejected', (rc.out + rc.err)[-2000:], {'b.pl': txt})
                return
            res = R.run([os.path.join(d, 'prog')], SYS.build, d, '', 120, env=env, log=log)
        else:
            res = SYS.consult_run(d, ['b.pl'], "loop('b.dat')", 120, log, env=env)
        by = R.by_case(res.events)
        evs = {a: v for a, v in by.items()}
        files = {'b.pl': txt, 'b.dat': ''.join(data), 'env.txt': str(env)}
        done = -1 in by
        capv = cap or 100000
        full = 'atom table full' in (res.err + res.out).lower()
        if not done:
            if res.timeout:
                part.violation(f'{kind}:hang', f'no answer in 120 s with MAX_ATOM={capv}', files)
                return
            if not full:
                part.violation(f'{kind}:died', f'rc={res.rc} MAX_ATOM={capv}\n{res.out[-500:]}{res.err[-1000:]}', files)
                return
            if res.rc == 0:
                part.violation(f'{kind}:full-status', 'atom table full but exit status 0', files)
            part.count('table full reported')
        u0 = None
        created = set()
        newmade = {}
        pre = None

        def bad(key, what):
            part.violation(f'{kind}:{key}', f'{what} (MAX_ATOM={capv})', files)
        last = max([a for a in evs if a >= 0], default=-1)
        for a in sorted(exp):
            e = exp[a]
            if a not in evs or not evs[a]:
                if done or a < last:
                    bad('lost', f'no observation for item {a} {e}')
                    break
                continue
            o = evs[a][0]
            part.case(f'{kind} {e} {a}', sample=(a % 997 == 3))
            if e[0] == 'same':
                s = e[1]
                created.add(s)
                j = min(first[s], newmade.get(s, 1 << 60))
                want = Atom('new') if j == a else Cmp('same', [j])
                if not same(o, want):
                    bad('identity', f'atom {s[:80]!r} made by item {a}: {text(o)[:200]}, expected {text(want)}')
            elif e[0] == 'info':
                s = e[1]
                if type(o) is not Cmp or o.name != 'info' or not same(o.args[0], Cmp('s', [min(first[s], newmade.get(s, 1 << 60))])) or o.args[1] != len(s):
                    bad('info', f'atom {s[:80]!r} ({len(s)} characters, first item {first[s]}): {text(o)[:300]}')
                    continue
                props = {text(p) for p in unlist(o.args[2])}
                if s.startswith('$'):
                    if props:
                        bad('props', f'{s[:60]!r}: properties of a system atom {props}')
                    continue
                want = {f'length({len(s)})', f'hash({text(o.args[3])})'} | optab.get(s, set())
                if not unquoted(s):
                    want.add('needs_quotes')
                free = set()
                if any(ord(c) < 32 or ord(c) > 126 or c == "'" for c in s):
                    want.add('needs_scan')
                elif '\\' in s:
                    free.add('needs_scan')
                if s not in optab and s in STDOPS:
                    free |= {'infix_op', 'prefix_op', 'postfix_op'}
                if s in ('|',):
                    free |= {'infix_op', 'needs_quotes'}
                if (props ^ want) - free:
                    bad('props', f'{s[:60]!r}: properties {sorted(props)} expected {sorted(want)}')
            elif e[0] == 'ne':
                if o is not Atom('distinct'):
                    bad('distinct', f'item {a}: {data[0]} two different texts gave {text(o)}')
            elif e[0] == 'new':
                if type(o) is not Cmp or o.name != 'fresh' or not o.args[0].name.startswith(e[1]) or o.args[0].name in created:
                    bad('new_atom', f'new_atom({e[1]!r}): {text(o)[:200]}')
                else:
                    newmade[o.args[0].name] = a
            elif e[0] == 'st':
                u, f = o.args
                if u + f != max(capv, 256):
                    bad('stat', f'statistics(atoms) {u}+{f} is not {capv}')
                if u0 is None:
                    u0 = u
                elif kind == 'fill' and not u0 <= u <= u0 + len(created | set()) + 5:
                    bad('stat', f'{u} atoms, {u0} at start and {len(created)} created')
                elif kind == 'fill' and u < u0 + len(created - (pre or set())) - 5:
                    bad('stat', f'{u} atoms, {u0} at start and {len(created)} created')
            if a == 0 and 1 in evs:
                pre = {x.name for x in evs[1]}
        if kind == 'fill' and not done and u0 is not None and pre is not None:
            # every place was used before the table was declared full
            known = len({s for s in created if s not in pre})
            if u0 + known < capv - 4 - sum(s.startswith('$') for s in created):
                bad('early', f'table declared full with {u0}+{known} atoms')
        for kk in (1, allk):
            if kk not in evs:
                continue
            names = [x.name for x in evs[kk]]
            part.count('atoms enumerated', len(names))
            if len(set(names)) != len(names):
                bad('enum-dup', f'current_atom enumerated an atom twice: {[x for x in names if names.count(x) > 1][:3]}')
            if any(x.startswith('$') for x in names):
                bad('enum-sys', 'current_atom gave a system atom')
            if kk == allk and done:
                miss = [s for s in created if not s.startswith('$') and s not in set(names)]
                if miss:
                    bad('enum-missing', f'current_atom misses {miss[:3]!r}')
                if pre is not None and kind != 'fill':
                    fresh = [s for s in names if s not in pre and s not in created]
                    part.count('other atoms', len(fresh))
        part.count('atoms created', len(created))
        part.count('tables ' + kind)
    finally:
        shutil.rmtree(d, ignore_errors=True)


STDOPS = set(':- --> ?- ; -> *-> , = \\= == \\== @< @=< @> @>= =.. is =:= =\\= < =< > >= : + - /\\ \\/ * / // rem mod << >> ** ^ \\ | div rdiv divmod dynamic'.split()) | {
    '#<=>', '#\\<=>', '#==>', '#\\==>', '##', '#\\/', '#\\\\/', '#/\\', '#\\/\\', '#\\', '#=', '#\\=', '#<', '#=<', '#>', '#>=', '#=#', '#\\=#', '#<#', '#=<#', '#>#', '#>=#', 'public', 'discontiguous',
    'multifile', 'ensure_linked', 'initialization', 'include', 'ensure_loaded', 'built_in', 'foreign'}


def body():
    global SYS
    ck = Check('C11', rule='histories of 2500 to 20000 atom creations per process along 20 routes (text predicates, reader, streams, compiled source, C interface, new_atom) with near-equal texts, '
               'tables of 2500 to 300000 places filled to capacity; identity of every atom decided through the per-atom global variable and compared with equality of texts; distinct by item')
    SYS = Sys('plain')
    jobs = [(k, i, ck.seed) for i in range(ck.n(6, 40)) for k in ('native', 'byte', 'fill', 'big')]
    parallel(ck, job, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
