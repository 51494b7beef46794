#!/usr/bin/env python3
"""C08: standard order is total and sorting respects it."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv import gen as G
import random, functools

ATS = ['a', 'b', 'c', 'ab', 'abc', 'aB', 'B', '', 'A', '_', 'é', 'z\xff', '\xff', '[]', '{}', '1', '10', '9', ' ', '-', '\x01', 'aa', 'foo', 'z', '~', '.', '[', 'a\x80', 'a\x7f']
OPS = {'@<': (-1,), '@>': (1,), '@=<': (-1, 0), '@>=': (0, 1), '==': (0,), '\\==': (-1, 1)}
NUMS = [0, 1, -1, 2, 10, 9, (1 << 60) - 1, -(1 << 60), 1 << 59, 1 << 31, -(1 << 31), 1 << 32, 255, 256, 65535, 65536]
FL = [0.0, 1.0, -1.0, 1.5, 1e300, -1e300, 5e-324, 2.0, 9.0, 10.0, 1e10, 3.0, 0.1]


def small(r, d, vs, pv):
    k = r.random()
    if vs and k < pv:
        return r.choice(vs)
    if d <= 0 or k < pv + .5:
        k = r.random()
        if k < .4:
            return Atom(r.choice(ATS))
        if k < .75:
            return r.choice(NUMS) if r.random() < .6 else r.randint(-20, 20)
        return r.choice(FL)
    k = r.random()
    if k < .25:
        return mklist([small(r, d - 1, vs, pv) for _ in range(r.choice([1, 2, 2, 3]))], NIL if r.random() < .7 else small(r, 0, vs, pv))
    return Cmp(r.choice(['f', 'g', 'a', 'ab', '.', '-', 'F', 'é', '[]', '']), [small(r, d - 1, vs, pv) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))])


def near(r, t, vs):
    """a term close to t"""
    if r.random() < .15:
        return small(r, 1, vs, .3)
    if type(t) is Cmp:
        a = list(t.args)
        k = r.random()
        if k < .1:
            return Cmp(r.choice(['f', 'g', 'a', t.name + 'a', G.near_name(r, t.name)]), a)
        if k < .2:
            return Cmp(t.name, a + [1])
        i = r.randrange(len(a))
        a[i] = near(r, a[i], vs)
        return Cmp(t.name, a)
    if r.random() < .3:
        return G.near_const(r, t)
    if type(t) is int:
        return r.choice([t, min(max(t + r.choice([1, -1, 1 << 32, 1 << 31, -(1 << 40)]), -(1 << 60)), (1 << 60) - 1), float(t)])
    if type(t) is float:
        return r.choice([t, t * 1.0000000000000002, -t if t else t])
    if type(t) is Atom:
        return r.choice([t, Atom(t.name + 'a'), Atom(t.name[:-1]), Atom(t.name + '\xff')])
    return t


def varorder(vs):
    """comparison of variables from the sorted list of them"""
    pos = {v.id: i for i, v in enumerate(vs)}

    def f(x, y):
        i, j = pos[x.id], pos[y.id]
        return (i > j) - (i < j)
    return f


def one(o):
    if o.state != 'end' or len(o.sols) != 1:
        return None
    return o.sols[0]


def exp_compare(o):
    """template c(X,Y,Vs,[Order|Results])"""
    t = one(o)
    if t is None:
        return 'expected one solution'
    x, y, vs, res = t.args
    cmp = varorder(unlist(vs))
    w = compare(x, y, cmp)
    got = unlist(res)
    want = [Atom('<=>'[w + 1])] + [1 if w in v else 0 for v in OPS.values()] + [Atom('<=>'[1 - w])]
    if len(got) != len(want) or not all(same(a, b) for a, b in zip(got, want)):
        return f'order of {ts(x)} and {ts(y)} should give {[ts(z) for z in want]}'


def exp_sort(kind):
    """template s(L, S, Vs)"""
    def f(o):
        t = one(o)
        if t is None:
            return 'expected one solution'
        l, s, vs = t.args
        cmp = varorder(unlist(vs))
        items = unlist(l)
        if kind == 'keysort':
            k = functools.cmp_to_key(lambda a, b: compare(a.args[0], b.args[0], cmp))
        else:
            k = functools.cmp_to_key(lambda a, b: compare(a, b, cmp))
        w = sorted(items, key=k)
        if kind == 'sort':
            u = []
            for x in w:
                if not u or compare(u[-1], x, cmp) != 0:
                    u.append(x)
            w = u
        if not same(Cmp('p', [l, mklist(w)]), Cmp('p', [l, s])):
            return 'expected sorted list ' + ts(mklist(w), 2000)
    return f


def make(r, n):
    cases = []
    while len(cases) < n:
        nv = r.choice([0, 0, 1, 2, 4])
        vs = [Var('V%d' % i) for i in range(nv)]
        k = r.random()
        if k < .45:
            x = small(r, r.choice([0, 1, 2, 3]), vs, .3)
            if r.random() < .1:
                x = G.prefixed(r, x)
            y = near(r, x, vs) if r.random() < .75 else small(r, 2, vs, .3)
            if r.random() < .5:
                x, y = y, x
            ops = ', '.join('(%s %s %s -> R%d = 1 ; R%d = 0)' % ('X', op, 'Y', i, i) for i, op in enumerate(OPS))
            g = f'=(X, {text(x)}), =(Y, {text(y)}), term_variables(x({",".join(["z"] + [v.id for v in vs])}), Vs0), msort(Vs0, Vs), compare(O, X, Y), {ops}, compare(P, Y, X)'
            if r.random() < .3:     # values created by arithmetic / copying, not constants
                g = g.replace('compare(O, X, Y)', 'copy_term(X-Vs0, X2-Vs0), (ground(X) -> compare(O, X2, Y) ; compare(O, X, Y))')
            cases.append(Case(g, 'c(X,Y,Vs,[O,R0,R1,R2,R3,R4,R5,P])', exp_compare))
        else:
            m = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 31, 33, 60, 120])
            pool = [small(r, r.choice([0, 0, 1, 2]), vs, .2) for _ in range(r.choice([1, 2, 3, m, m, 2 * m]) or 1)]
            if r.random() < .06:
                pool = [G.prefixed(r, x, .9) for x in pool[:12]]
            its = [r.choice(pool) for _ in range(m)]
            if r.random() < .2:
                its.sort(key=functools.cmp_to_key(compare), reverse=r.random() < .5)
            kind = r.choice(['sort', 'msort', 'keysort', 'keysort', 'sort', 'sort1', 'msort1', 'keysort1', 'setof', 'ks'])
            pre = f'term_variables(x({",".join(["z"] + [v.id for v in vs])}), Vs0), msort(Vs0, Vs), '
            if kind in ('keysort', 'keysort1', 'ks'):
                its = [Cmp('-', (x, i if r.random() < .8 else small(r, 1, vs, .2))) for i, x in enumerate(its)]
            l = text(mklist(its))
            if kind in ('sort', 'msort', 'keysort', 'sort0'):
                e = {'sort0': 'msort'}.get(kind, kind)
                chk = ''
                if r.random() < .3:
                    chk = ', copy_term(L-Vs, L1-Vs), L1 == L' if not vs else ''
                cases.append(Case(f'L = {l}, ' + pre + f'{kind}(L, S){chk}', 's(L,S,Vs)', exp_sort(e)))
            elif kind == 'ks':
                cases.append(Case(f'L = {l}, ' + pre + f'keysort(L, S0), {"append(S0, [], S)" if r.random() < .5 else "S = S0"}', 's(L,S,Vs)', exp_sort('keysort')))
            elif kind == 'setof':
                if m == 0:
                    continue
                if vs:
                    continue
                cases.append(Case(f'L = {l}, ' + pre + f'setof(X, {r.choice(["member(X, L)", "member(X, L)", "Q^(member(X, L), Q = X)"])}, S)', 's(L,S,Vs)', exp_sort('sort')))
            else:
                # destructive versions keep the reference list apart
                # keeping the variables shared: copy of the spine only
                cases.append(Case(f"L = {l}, " + pre + f"findall(y, member(_, L), Y), length(Y, N__), length(S, N__), append(S, [], S1), '$cp'(L, S1), {kind[:-1]}(S1), length(S1, M__), S2 = S1",
                                  's(L,S2,Vs)', exp_sort(kind[:-1])))
    return cases


PRE = """'$cp'([], []).
'$cp'([X|L], [X|M]) :- '$cp'(L, M).
'$lcg'(0, _, _, _, []) :- !.
'$lcg'(N, S, M, K, [X|L]) :- S1 is (S * 69069 + 12345) /\\ 0x7fffffff, V is (S1 >> 8) mod M, '$mk'(K, V, N, X), N1 is N - 1, '$lcg'(N1, S1, M, K, L).
'$mk'(int, V, _, V).
'$mk'(key, V, N, V-N).
'$mk'(flt, V, _, F) :- F is V / 7.
'$mk'(atm, V, _, A) :- number_atom(V, A).
'$mk'(cmp, V, _, f(A,V)) :- A is V mod 3.
"""


def large(r):
    n = r.choice([1000, 4095, 4096, 4097, 10000, 50000, 65537])
    m = r.choice([2, 10, 1000, 1 << 22])
    k = r.choice(['int', 'key', 'key', 'flt', 'atm', 'cmp'])
    kind = {'key': 'keysort'}.get(k, r.choice(['sort', 'msort']))
    return Case(f"'$lcg'({n}, {r.randrange(1 << 30)}, {m}, {k}, L), {kind}(L, S)", 's(L,S,[])', exp_sort(kind))


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c08/{seed}/{mode}/{i}')
    cases = [large(r) for _ in range(n)] if mode == 'large' else make(r, n)
    m = {'san': 'native', 'large': r.choice(['native', 'byte'])}.get(mode, mode)
    run_batch(part, SAN if mode == 'san' else SYS, cases, m, PRE, name='order-' + mode, env={'GLOBALSZ': '1000000', 'LOCALSZ': '65536', 'MAX_ATOM': '400000'})
    part.count('cases_' + mode, len(cases))


def body():
    global SYS, SAN
    ck = Check('C08', rule='pairs of terms (near-equal, all types, all byte values in names, shared variables) compared by every comparison predicate both ways, and lists (empty to 65537 '
               'elements, all duplication patterns) sorted by every sorting predicate; results compared with a reference order and stable sort; distinct by goal and mode')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('large', i, 4, ck.seed) for i in range(ck.n(8, 60))]
    jobs += [(m, i, 400, ck.seed) for i in range(ck.n(24, 250)) for m in ('native', 'byte', 'meta')]
    if SAN:
        jobs += [('san', i, 300, ck.seed) for i in range(20)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
