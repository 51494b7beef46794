#!/usr/bin/env python3
"""C39: random numbers stay in range and follow their seed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.refcase import terr, derr
from gpv import run as R
from gpv.run import Sys
from gpv.terms import *
import random, math, re, shutil

A, C = Atom, Cmp
IE = A('instantiation_error')
MAXI, MINI = (1 << 60) - 1, -(1 << 60)
DMAX = 1.7976931348623157e308

PRE = r'''
draws([], []).
draws([D|L], [X|Xs]) :- draw(D, X), draws(L, Xs).
draw(r1, X) :- random(X).
draw(r3(B,M), X) :- ( random(B, M, X0) -> X = X0 ; X = none ).
draw(lab(L,U,Op), X) :- fd_domain(X, L, U), ( fd_labeling([X], Op) -> true ).
draw(vec(L,Op), Vs) :- len(L, N), mkv(N, L, Vs), ( fd_labeling(Vs, Op) -> true ).
draw(bad(G), E) :- catch((G, E = ok), error(E, _), true).
draw(all(L,U,Op), Xs) :- findall(X, (fd_domain(X, L, U), fd_labeling([X], Op)), Xs).
len([], 0).
len([_|L], N) :- len(L, N0), N is N0 + 1.
mkv(_, [], []).
mkv(N, [L-U|T], [X|Xs]) :- fd_domain(X, L, U), mkv(N, T, Xs).
same_seed(S, L, r(S1,S2,Xs,Ys)) :- set_seed(S), get_seed(S1), draws(L, Xs), get_seed(S2), set_seed(S), draws(L, Ys).
rnd(L, r(A,B,C,Xs,Ys)) :- randomize, get_seed(A), draws(L, Xs), set_seed(A), get_seed(B), draws(L, Ys), randomize, get_seed(C).
rep(0, _, []) :- !.
rep(N, D, [X|Xs]) :- draw(D, X), N1 is N - 1, rep(N1, D, Xs).
ni_random(X) :- random(X).
'''


def fl(v):
    return ftext(v) if type(v) is float else str(v)


def bounds(r):
    k = r.random()
    if k < .3:
        b = r.randrange(-50, 50)
        return b, b + r.choice([1, 1, 2, 3, 10, 100])
    if k < .4:
        b = r.choice([MINI, -(1 << 53), 0, 1 << 53, (1 << 53) + 1, MAXI - 1, MAXI - 5, -(1 << 31), (1 << 32) - 1, r.randrange(MINI, MAXI)])
        return b, min(MAXI, b + r.choice([1, 2, 7, 1 << 20, 1 << 31, 1 << 40, 1 << 59, MAXI - b]))
    if k < .47:
        b = r.randrange(-5, 5)
        return b, b - r.choice([0, 0, 1, 5])
    if k < .52:
        b = float(r.randrange(-5, 5))
        return r.choice([(b, b), (b, b - 1), (b, int(b)), (int(b), b)])
    b = r.choice([0.0, 1.0, -1.0, 0.5, -2.5, 1e10, 1e-10, -1e300, 1e300, -1.7e308, DMAX, 5e-324, r.uniform(-100, 100), float(r.randrange(-20, 20))])
    m = r.choice([b + 1, b + .5, b + 1e-3, b + abs(b) * .5 + 1e-300, math.nextafter(b, math.inf), b + 4 * math.ulp(b), 1.7e308, b + float(r.randrange(1, 100)), 1.0, 0.0])
    if not (-DMAX <= m <= DMAX):
        m = DMAX
    k = r.random()
    if k < .3 and abs(b) < 1e15 and b == int(b):
        b = int(b)
    elif k < .6 and abs(m) < 1e15 and m == int(m):
        m = int(m)
    return b, m


def judge1(spec, x):
    k = spec[0]
    if k == 'r1':
        return None if type(x) is float and 0.0 <= x < 1.0 else 'not in [0,1)'
    if k == 'r3':
        b, m = spec[1:]
        if type(b) is int and type(m) is int:
            if b >= m:
                return None if x == A('none') else 'base >= max must fail'
            return None if type(x) is int and b <= x < m else 'not an integer in range'
        fb, fm = float(b), float(m)
        if fb >= fm:
            return None if x == A('none') else 'base >= max must fail'
        return None if type(x) is float and fb <= x < fm else 'not a float in range'
    if k == 'lab':
        return None if type(x) is int and spec[1] <= x <= spec[2] else 'not in the domain'
    if k == 'vec':
        v = unlist(x)
        ok = len(v) == len(spec[1]) and all(type(a) is int and l <= a <= u for a, (l, u) in zip(v, spec[1]))
        return None if ok else 'not in the domains'
    if k == 'all':
        v = unlist(x)
        return None if sorted(v) == list(range(spec[1], spec[2] + 1)) else 'not the values of the domain'
    if k == 'bad':
        return None if same(x, spec[2]) else f'expected {ts(spec[2])}'


OPS = ['[value_method(random)]', '[variable_method(random)]', '[variable_method(random),value_method(random)]', '[value_method(random),variable_method(first_fail)]',
       '[variable_method(random),value_method(max)]']
BAD = [('random(a)', C('uninstantiation_error', (A('a'),))), ('random(0.5)', C('uninstantiation_error', (0.5,))), ('random(1,2,3)', C('uninstantiation_error', (3,))),
       ('random(_,2,_)', IE), ('random(1,_,_)', IE), ('random(a,2,_)', terr('number', A('a'))), ('random(1,f(x),_)', terr('number', C('f', (A('x'),)))),
       ('random("1",2,_)', terr('number', mklist([49]))), ('random(1,[],_)', terr('number', NIL)),
       ('set_seed(_)', IE), ('set_seed(a)', terr('integer', A('a'))), ('set_seed(1.0)', terr('integer', 1.0)), ('set_seed(-1)', derr('not_less_than_zero', -1)),
       ('get_seed(a)', terr('integer', A('a'))), ('get_seed(1.5)', terr('integer', 1.5)), ('get_seed(-3)', derr('not_less_than_zero', -3))]


def one(r):
    k = r.random()
    if k < .3:
        return ('r1',)
    if k < .8:
        return ('r3',) + bounds(r)
    if k < .86:
        l = r.randrange(0, 30)
        return ('lab', l, l + r.choice([0, 1, 3, 9, 60, 200]), r.choice(OPS))
    if k < .9:
        return ('vec', [(l, l + r.choice([0, 1, 5, 100])) for l in (r.randrange(0, 9) for _ in range(r.choice([1, 2, 3, 4])))], r.choice(OPS))
    if k < .93:
        l = r.randrange(0, 30)
        return ('all', l, l + r.choice([0, 1, 3, 9, 40]), r.choice(OPS))
    return ('bad',) + r.choice(BAD)


def stext(s):
    k = s[0]
    if k == 'r1':
        return 'r1'
    if k == 'r3':
        return f'r3({fl(s[1])},{fl(s[2])})'
    if k in ('lab', 'all'):
        return f'{k}({s[1]},{s[2]},{s[3]})'
    if k == 'vec':
        return 'vec([' + ','.join(f'{l}-{u}' for l, u in s[1]) + f'],{s[2]})'
    return f'bad({s[1]})'


def pick_seed(r):
    return r.choice([0, 1, 2, 42, r.randrange(1 << 20), (1 << 31) - 1, 1 << 31, (1 << 32) - 1, r.randrange(1 << 32), r.randrange(1 << 31)])


def chi(xs, cells, what):
    """cells: list of counts; uniform expected"""
    n, k = sum(cells), len(cells)
    e = n / k
    if min(cells) == 0:
        return f'{what}: value never drawn in {n} draws, counts {cells}'
    x2 = sum((c - e) ** 2 / e for c in cells)
    if x2 > (k - 1) + 9 * math.sqrt(2 * (k - 1)) + 30:
        return f'{what}: counts {cells} are not uniform (chi-square {x2:.1f})'


def hist_case(r, seen):
    sp = [one(r) for _ in range(r.choice([3, 8, 20, 40]))]
    s = pick_seed(r)
    key = f'{s} {[stext(x) for x in sp]}'

    def ex(o):
        if len(o.sols) != 1:
            return f'no result {o!r}'
        s1, s2, xs, ys = o.sols[0].args
        if s1 != s or s2 != s:
            return f'get_seed gave {ts(s1)}/{ts(s2)} after set_seed({s})'
        v = unlist(xs)
        if len(v) != len(sp):
            return 'wrong number of draws'
        for a, b in zip(sp, v):
            e = judge1(a, b)
            if e:
                return f'{stext(a)} gave {ts(b)}: {e}'
        if not same(xs, ys):
            return f'set_seed({s}) does not reproduce the sequence: {ts(xs)} / {ts(ys)}'
        got = text(xs)
        if seen.setdefault(key, got) != got:
            return f'another process gave another sequence for seed {s}: {got[:300]} / {seen[key][:300]}'
    return Case(f'same_seed({s},[' + ','.join(map(stext, sp)) + '],Z)', 'Z', ex, key='c39:seq')


def rnd_case(r, seeds):
    sp = [one(r) for _ in range(r.choice([3, 8]))]

    def ex(o):
        if len(o.sols) != 1:
            return f'no result {o!r}'
        a, b, c, xs, ys = o.sols[0].args
        if type(a) is not int or a != b or not 0 <= a:
            return f'seed {ts(a)} after randomize, {ts(b)} after setting it again'
        if a == c:
            return f'two successive randomize gave the same seed {a}'
        for p, q in zip(sp, unlist(xs)):
            e = judge1(p, q)
            if e:
                return f'{stext(p)} gave {ts(q)}: {e}'
        if not same(xs, ys):
            return f'set_seed({a}) does not reproduce the sequence drawn after randomize: {ts(xs)} / {ts(ys)}'
        seeds.add(a)
    return Case('rnd([' + ','.join(map(stext, sp)) + '],Z)', 'Z', ex, key='c39:randomize')


def dist_case(r):
    kind = r.choice(['int', 'int', 'float', 'r1', 'lab', 'bigint', 'mid'])
    k = r.choice([2, 3, 5, 7, 10, 16, 25])
    n = 70 * k
    s = pick_seed(r)
    if kind == 'int':
        b = r.choice([0, 1, -3, 100, MINI, MAXI - k, r.randrange(-10 ** 9, 10 ** 9)])
        d = ('r3', b, b + k)
        f = lambda x: x - b
    elif kind == 'float':
        b = r.choice([0.0, -5.0, 2.5, 1e6, -1e308])
        w = r.choice([1.0, 10.0, .25, 1e3]) if abs(b) < 1e300 else 1.5e308
        d = ('r3', b, b + w)
        w = d[2] - b
        f = lambda x: min(k - 1, int((x - b) / w * k))
    elif kind == 'r1':
        d = ('r1',)
        f = lambda x: int(x * k)
    elif kind == 'bigint':
        b, w = r.choice([(MINI, MAXI - MINI), (0, MAXI), (-(1 << 40), 1 << 50), (0, 1 << 31), (MAXI - (1 << 59), 1 << 59)])
        d = ('r3', b, b + w)
        f = lambda x: min(k - 1, (x - b) * k // w)
    elif kind == 'mid':
        b, w = r.randrange(-5000, 5000), k * r.choice([50, 1000, 4096])
        d = ('r3', b, b + w)
        f = lambda x: (x - b) % k
    else:
        b = r.randrange(0, 50)
        d = ('lab', b, b + k - 1, '[value_method(random)]')
        f = lambda x: x - b

    def ex(o):
        if len(o.sols) != 1:
            return f'no result {o!r}'
        v = unlist(o.sols[0])
        if len(v) != n:
            return f'{len(v)} draws instead of {n}'
        cells = [0] * k
        for x in v:
            e = judge1(d, x)
            if e:
                return f'{stext(d)} gave {ts(x)}: {e}'
            cells[f(x)] += 1
        e = chi(v, cells, f'seed {s} {stext(d)}')
        if e:
            return e
        if kind in ('float', 'r1', 'bigint') and len(set(v)) < n - 20:
            return f'seed {s} {stext(d)}: only {len(set(v))} different values in {n} draws'
        if kind in ('int', 'lab', 'mid') and k > 1:
            # successive values: all pairs of halves occur
            h = [x * 2 // k for x in map(f, v)]
            pairs = [0] * 4
            for a, b2 in zip(h, h[1:]):
                pairs[a * 2 + b2] += 1
            if min(pairs) < n / 40:
                return f'seed {s} {stext(d)}: successive draws are not mixed, pairs of halves {pairs}'
    return Case(f'set_seed({s}), rep({n},{stext(d)},Z)', 'Z', ex, key='c39:frequency')


def differ_case(r):
    a, b = pick_seed(r), pick_seed(r)
    while a == b or {a, b} == {0, 1}:
        b = pick_seed(r)
    w = r.choice(['r1', 'r3(0,1000000)', 'r3(-1.0,1.0)'])

    def ex(o):
        if len(o.sols) != 1:
            return f'no result {o!r}'
        x, y, z = o.sols[0].args
        if same(x, y) or same(y, z) or same(x, z):
            return f'seeds {a}, {b} or the continued sequence give the same values {ts(x)} {ts(y)} {ts(z)}'
    return Case(f'set_seed({a}), rep(12,{w},X), rep(12,{w},Z), set_seed({b}), rep(12,{w},Y)', 'd(X,Y,Z)', ex, key='c39:differ')


def cold(part, seed):
    """first draws of a fresh process: deterministic after set_seed; different seeds after randomize in different processes"""
    d = R.scratch('c39')
    try:
        with open(d + '/a.pl', 'w') as f:
            f.write(":- initialization(m).\nm :- randomize, get_seed(S), random(0,1000000000,A), random(B), format('R ~w ~w ~w~n',[S,A,B]), set_seed(S), random(0,1000000000,A1), random(B1), "
                    "format('Q ~w ~w ~w~n',[S,A1,B1]).\n")
        rc = R.run(['gplc', '-o', 'p', 'a.pl'], SYS.build, d, '', 120, env=dict(R.ROOMY))
        seen = {}
        for j in range(8):
            r = R.run(['./p'], SYS.build, d, 'halt.\n', 30, env=dict(R.ROOMY))
            l = [x.split() for x in r.out.splitlines() if x[:2] in ('R ', 'Q ')]
            part.case(f'process {j}')
            if len(l) != 2 or l[0][1:] != l[1][1:]:
                part.violation('c39:cold', f'randomize/get_seed/set_seed in a fresh process: {l} {r.out[-200:]}{r.err[-200:]}')
                return
            s = l[0][1]
            if s in seen:
                part.violation('c39:cold', f'randomize gave seed {s} in two processes')
                return
            seen[s] = 1
            # replay this seed in another process
            with open(d + '/b.pl', 'w') as f:
                f.write(f":- initialization(m).\nm :- set_seed({s}), random(0,1000000000,A), random(B), format('R ~w ~w~n',[A,B]).\n")
            r = SYS.consult_run(d, ['b.pl'], 'true', log=d + '/log')
            x = [y.split() for y in re.findall(r'R \d.*', r.out)]
            if not x or x[0][1:] != l[0][2:]:
                part.violation('c39:cold', f'seed {s}: process 1 {l[0][2:]}, process 2 {x} {r.out[-200:]}')
                return
    finally:
        shutil.rmtree(d, ignore_errors=True)


NH, ND = 400, 60


def work(part, arg):
    kind, i, seed = arg
    if kind == 'cold':
        return cold(part, seed)
    seen, seeds = {}, set()
    for m in ('native', 'byte', 'meta') + (('san',) if SAN else ()):
        r = random.Random(f'c39/{seed}/{i}')
        cases = [hist_case(r, seen) for _ in range(NH)] + [rnd_case(r, seeds) for _ in range(ND)] + [dist_case(r) for _ in range(ND)] + [differ_case(r) for _ in range(ND)]
        r2 = random.Random(f'{m}{i}')
        r2.shuffle(cases)
        run_batch(part, SAN if m == 'san' else SYS, cases, 'meta' if m == 'san' else m, PRE, name='rand-' + m, timeout=90)
    part.count('sequences_compared_between_processes', len(seen))
    part.count('distinct_random_seeds', len(seeds))


def body():
    global SYS, SAN, NH, ND
    ck = Check('C39', rule='random histories of random/1, random/3, fd_labeling random choices and misuse under chosen seeds: bounds and type of every draw, exact replay after set_seed in the same process '
               'and between processes and execution modes, chi-square/coverage/mixing of many draws, get_seed/randomize/set_seed round trip')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    if ck.thorough:
        NH, ND = 1200, 150
    parallel(ck, work, [('h', i, ck.seed) for i in range(7 if not ck.thorough else 24)] + [('cold', 0, ck.seed)])
    ck.finish(500)


if __name__ == '__main__':
    main(body)
