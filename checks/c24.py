#!/usr/bin/env python3
"""C24: arithmetic constraints keep exactly the solutions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.fd import *
import random

PRE = r"""
doms([], []).
doms([X|Xs], [D|Ds]) :- ( integer(X) -> D = [X] ; fd_dom(X, D) ), doms(Xs, Ds).
"""


def problem(r):
    n = r.choice([1, 2, 2, 3, 3, 4])
    ds = domains(r, n)
    vs = list(ds)
    posts, preds = [], []
    M = max(max(d[1]) for d in ds.values())
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        k = r.random()
        if k < .84:
            c = arith(r, vs, ds)
            M = max(M, bound(c[1], ds) + bound(c[2], ds))
            if sum(map(abs, aux_sum(('-', c[1], c[2]))[2])) > 6:
                raise TooBig
            posts.append(ctext(c))
            preds.append(lambda a, c=c: holds(c, a))
        elif k < .9:
            v = r.choice(vs)
            x = r.choice(sorted(ds[v][1]))
            posts.append(f'{v} = {x}' if r.random() < .7 else f'{x} #= {v}')
            preds.append(lambda a, v=v, x=x: a[v] == x)
        elif k < .94 and n > 1:
            v, w = r.sample(vs, 2)
            posts.append(f'{v} = {w}')
            preds.append(lambda a, v=v, w=w: a[v] == a[w])
        else:
            c = arith(r, vs, ds)
            M = max(M, bound(c[1], ds) + bound(c[2], ds))
            if sum(map(abs, aux_sum(('-', c[1], c[2]))[2])) > 6:
                raise TooBig
            posts.append(f'\\+ ({ctext(c)}, fail)' if r.random() < .5 else f'( {ctext(c)}, fail ; true )')
            list(holds(c, a) for a in assignments(ds))
    if M > (2000 if any(f in p for p in posts for f in FULL) else 60000):
        raise TooBig
    alls = list(assignments(ds))
    sols = [a for a in alls if all([p(a) for p in preds])]
    decl = [ds[v][0] for v in vs]
    r.shuffle(decl)
    decl.insert(0, 'fd_set_vector_max(%d)' % max(127, M))
    pos = r.randrange(len(posts) + 1)
    if n > 1 and r.random() < .2:
        f = r.choice(vs)
        body = ', '.join(decl + posts[:pos] + [f'fd_labeling({f})'] + posts[pos:] + ['fd_labeling([%s])' % ','.join(vs)])
        order = sorted(sols, key=lambda a: [a[f]] + [a[v] for v in vs])
        goal = f'findall([{",".join(vs)}], ({body}), L), R = r(none, L)'
    else:
        order = sols
        if r.random() < .15 and all(v not in str(posts) or 1 for v in vs):
            r.shuffle(posts)
        goal = f'( {", ".join(decl + posts)} -> doms([{",".join(vs)}], D), findall([{",".join(vs)}], fd_labeling([{",".join(vs)}]), L), R = r(D, L) ; R = no )'
    return goal, sols_expect(vs, ds, [tuple(a[v] for v in vs) for a in order]), len(alls), len(sols)


def make(r, n):
    cases = []
    tot = sat = 0
    while len(cases) < n:
        try:
            goal, f, na, ns = problem(r)
        except TooBig:
            continue
        tot += na
        sat += ns
        cases.append(Case(goal, 'R', f, max=3))
    return cases, tot, sat


def known(part):
    """sums of non-linear terms with large coefficients: the auxiliary variables overflow before they get their domains"""
    f = lambda o: None if o.sols and o.sols[0] == Atom('yes') else f'expected success, got {o!r}'
    run_batch(part, SYS, [Case('( fd_domain(X,0,5), fd_domain(Z,1,6), fd_domain(Y,0,550), 10*X*Z + 10*X*X #= Y -> R = yes ; R = no )', 'R', f)], 'meta', PRE, name='aux',
              keyf=lambda c: 'aux-overflow')


def work(part, arg):
    mode, i, n, seed = arg
    if mode == 'known':
        return known(part)
    r = random.Random(f'c24/{seed}/{mode}/{i}')
    cases, tot, sat = make(r, n)
    part.count('assignments judged', tot)
    part.count('solutions', sat)
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRE, name='fd-' + mode,
              env={'GLOBALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C24', rule='random conjunctions of arithmetic constraints (partial and full arc-consistency, linear and non-linear) over 1-4 variables with interval and sparse domains, with instantiated variables, '
               'aliasing, undone postings and interleaved labeling; solutions by brute force over the whole domain product; intermediate values outside 0..2^26 are not generated')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('known', 0, 0, 0)] + [('meta', i, 120, ck.seed) for i in range(ck.n(220, 4000))] + [('native', i, 40, ck.seed) for i in range(ck.n(16, 200))]
    if SAN:
        jobs += [('san', i, 60, ck.seed) for i in range(60)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
