#!/usr/bin/env python3
"""C25: boolean, reified, cardinality and symbolic constraints mean what the documentation says."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.fd import *
import random

PRE = r"""
doms([], []).
doms([X|Xs], [D|Ds]) :- ( integer(X) -> D = [X] ; fd_dom(X, D) ), doms(Xs, Ds).
"""
BOOL = {'#<=>': lambda x, y: x == y, '#\\<=>': lambda x, y: x != y, '##': lambda x, y: x != y, '#==>': lambda x, y: not x or y, '#\\==>': lambda x, y: x and not y,
        '#/\\': lambda x, y: x and y, '#\\/\\': lambda x, y: not (x and y), '#\\/': lambda x, y: x or y, '#\\\\/': lambda x, y: not (x or y)}


class P:
    def __init__(p, r):
        p.r = r
        n = r.choice([1, 2, 2, 3])
        p.ds = domains(r, n, 400, big=.1)
        p.nums = list(p.ds)
        p.M = max(max(d[1]) for d in p.ds.values())
        p.bools = []
        for i in range(r.choice([0, 1, 2, 3])):
            p.bools.append('B%d' % i)
            p.ds['B%d' % i] = (f'fd_domain_bool(B{i})' if r.random() < .7 else f'fd_domain(B{i},0,1)', {0, 1})

    def leaf(p):
        r = p.r
        while True:
            op, x, y = c = arith(r, p.nums, p.ds, False)
            if sum(map(abs, aux_sum(('-', x, y))[2])) <= 2:
                break
        p.M = max(p.M, bound(x, p.ds) + bound(y, p.ds))
        return ctext(c), lambda a: holds(c, a)

    def bexp(p, d):
        r = p.r
        k = r.random()
        if d == 0 or k < .2:
            k = r.random()
            if p.bools and k < .45:
                b = r.choice(p.bools)
                return b, lambda a: a[b] == 1
            if k < .5:
                v = r.randint(0, 1)
                return str(v), lambda a: v == 1
            t, f = p.leaf()
            return f'({t})', f
        if k < .35:
            t, f = p.bexp(d - 1)
            return f'#\\ ({t})', lambda a: not f(a)
        op = r.choice(list(BOOL))
        t1, f1 = p.bexp(d - 1)
        t2, f2 = p.bexp(d - 1)
        o = BOOL[op]
        return f'(({t1}) {op} ({t2}))', lambda a: bool(o(bool(f1(a)), bool(f2(a))))

    def vlist(p, n=None):
        """list of variables and constants: texts, value functions"""
        r = p.r
        names = list(p.ds)
        out = []
        for _ in range(n or r.choice([1, 2, 2, 3, 3, 4, 5])):
            if r.random() < .8:
                v = r.choice(names)
                out.append((v, lambda a, v=v: a[v]))
            else:
                c = r.choice([0, 1, 2, 3, r.choice(sorted(p.ds[r.choice(names)][1]))])
                p.M = max(p.M, c)
                out.append((str(c), lambda a, c=c: c))
        return '[' + ','.join(t for t, _ in out) + ']', lambda a: [f(a) for _, f in out]

    def con(p):
        r = p.r
        k = r.random()
        if k < .42:
            while True:
                t, f = p.bexp(r.choice([1, 1, 2, 2, 3]))
                if t not in '01' and not t.startswith('B') and not t.startswith('(X'):
                    break
            return t, f
        if k < .56:
            n = r.choice([1, 2, 3, 4])
            bs = [p.bexp(r.choice([0, 0, 1])) for _ in range(n)]
            l = '[' + ','.join(t for t, _ in bs) + ']'
            cnt = lambda a: sum(bool(f(a)) for _, f in bs)
            w = r.randrange(6)
            if w == 0:
                lo, hi = r.randint(0, n), r.randint(0, n)
                return f'fd_cardinality({lo},{l},{hi})', lambda a: lo <= cnt(a) <= hi
            if w == 1:
                return f'fd_at_least_one({l})', lambda a: cnt(a) >= 1
            if w == 2:
                return f'fd_at_most_one({l})', lambda a: cnt(a) <= 1
            if w == 3:
                return f'fd_only_one({l})', lambda a: cnt(a) == 1
            if w == 4:
                v = r.choice(list(p.ds))
                return f'fd_cardinality({l},{v})', lambda a: cnt(a) == a[v]
            c = r.randint(0, n)
            return f'fd_cardinality({l},{c})', lambda a: cnt(a) == c
        v, w = r.choice(p.nums), r.choice(list(p.ds))
        vals = sorted(p.ds[v][1])
        if k < .62:
            lo = r.choice(vals) + r.choice([-1, 0, 0, 1])
            hi = r.choice([lo, lo + 1, lo + 2, r.choice(vals), r.choice(vals) + 1])
            if p.bools:
                b = r.choice(p.bools)
                return f'fd_reified_in({v},{lo},{hi},{b})', lambda a: (lo <= a[v] <= hi) == (a[b] == 1)
            b = r.randint(0, 1)
            return f'fd_reified_in({v},{lo},{hi},{b})', lambda a: (lo <= a[v] <= hi) == (b == 1)
        if k < .68:
            l, f = p.vlist()
            return f'fd_all_different({l})', lambda a: len(set(f(a))) == len(f(a))
        if k < .75:
            n = r.choice([1, 2, 3, 4, 6])
            pool = [r.choice(sorted(p.ds[w][1])) if r.random() < .7 else r.choice([0, 1, 2, 5, 9]) for _ in range(n)]
            p.M = max([p.M] + pool)
            return f'fd_element({v},{pool},{w})', lambda a: 1 <= a[v] <= n and pool[a[v] - 1] == a[w]
        if k < .82:
            l, f = p.vlist(r.choice([1, 2, 3, 4]))
            i, g = p.vlist(1)
            x, h = p.vlist(1)
            return f'fd_element_var({i[1:-1]},{l},{x[1:-1]})', lambda a: 1 <= g(a)[0] <= len(f(a)) and f(a)[g(a)[0] - 1] == h(a)[0]
        if k < .9:
            l, f = p.vlist()
            n = r.choice([0, 1, 1, 2, 3])
            c = r.choice(sorted(p.ds[r.choice(list(p.ds))][1]))
            nm = r.choice(['atmost', 'atleast', 'exactly'])
            o = {'atmost': lambda x: x <= n, 'atleast': lambda x: x >= n, 'exactly': lambda x: x == n}[nm]
            return f'fd_{nm}({n},{l},{c})', lambda a: o(f(a).count(c))
        if k < .96:
            n = r.choice([1, 2, 2, 3])
            l, f = p.vlist(n)
            names = l[1:-1].split(',')
            rel = []
            for _ in range(r.choice([1, 2, 3, 5, 8])):
                rel.append([r.choice(sorted(p.ds[x][1]) if x in p.ds else [int(x)]) if r.random() < .9 else r.choice([0, 1, 2, 3]) for x in names])
            p.M = max([p.M] + [x for t in rel for x in t])
            if r.random() < .5:
                return f'fd_relation({rel},{l})', lambda a: f(a) in rel
            return f'fd_relationc({[list(c) for c in zip(*rel)]},{l})', lambda a: f(a) in rel
        pr = lambda x: x > 1 and all(x % d for d in range(2, int(x ** .5) + 1))
        return (f'fd_prime({v})', lambda a: pr(a[v])) if r.random() < .5 else (f'fd_not_prime({v})', lambda a: not pr(a[v]))


def problem(r):
    p = P(r)
    cs = [p.con() for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
    if p.M > 2000:
        raise TooBig
    if r.random() < .2:
        v = r.choice(list(p.ds))
        x = r.choice(sorted(p.ds[v][1]))
        cs.insert(r.randrange(len(cs) + 1), (f'{v} = {x}' if r.random() < .6 else f'{v} #>= {x}', (lambda a: a[v] == x) if 0 else None))
        t = cs
        cs = [(s, f or ((lambda a, e='=' if ' = ' in s else '>': a[v] == x if e == '=' else a[v] >= x))) for s, f in t]
    if r.random() < .15:
        t, f = p.con()
        cs.insert(r.randrange(len(cs) + 1), (f'( {t}, fail ; true )', lambda a: True))
        list(f(a) for a in assignments(p.ds))
        if p.M > 2000:
            raise TooBig
    alls = list(assignments(p.ds))
    sols = [a for a in alls if all([f(a) for _, f in cs])]
    vs = list(p.ds)
    posts = [t for t, _ in cs]
    decl = [d[0] for d in p.ds.values()]
    r.shuffle(decl)
    decl.insert(0, 'fd_set_vector_max(%d)' % max(127, p.M))
    if r.random() < .2:
        f = r.choice(vs)
        pos = r.randrange(len(posts) + 1)
        goal = f'findall([{",".join(vs)}], ({", ".join(decl + posts[:pos] + [f"fd_labeling({f})"] + posts[pos:])}, fd_labeling([{",".join(vs)}])), L), R = r(none, L)'
        sols.sort(key=lambda a: [a[f]] + [a[v] for v in vs])
    else:
        goal = f'( {", ".join(decl + posts)} -> doms([{",".join(vs)}], D), findall([{",".join(vs)}], fd_labeling([{",".join(vs)}]), L), R = r(D, L) ; R = no )'
    return goal, sols_expect(vs, p.ds, [tuple(a[v] for v in vs) for a in sols]), len(alls), len(sols)


def make(r, n):
    cases = []
    tot = sat = 0
    while len(cases) < n:
        try:
            goal, f, na, ns = problem(r)
        except TooBig:
            continue
        tot += na
        sat += ns
        cases.append(Case(goal, 'R', f, max=3))
    return cases, tot, sat


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c25/{seed}/{mode}/{i}')
    cases, tot, sat = make(r, n)
    part.count('assignments judged', tot)
    part.count('solutions', sat)
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRE, name='fd-' + mode,
              env={'GLOBALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C25', rule='random conjunctions of boolean expressions over reified arithmetic constraints, cardinality, at-least/at-most/only-one, reified_in, all_different, element(_var), atmost/atleast/exactly, '
               'relation(c), prime constraints over 1-6 variables with interval, sparse and 0/1 domains, with constants, repeated variables, instantiated variables, undone postings and interleaved labeling; '
               'solutions by brute force over the whole domain product')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('meta', i, 120, ck.seed) for i in range(ck.n(500, 6000))] + [('native', i, 40, ck.seed) for i in range(ck.n(16, 200))]
    if SAN:
        jobs += [('san', i, 60, ck.seed) for i in range(60)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
