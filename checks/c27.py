#!/usr/bin/env python3
"""C27: labeling enumerates completely and optimisation returns the optimum."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.fd import *
import random

PRE = r"""
doms([], []).
doms([X|Xs], [D|Ds]) :- ( integer(X) -> D = [X] ; fd_dom(X, D) ), doms(Xs, Ds).

% reference labeling: chooses the variable with the public inspection predicates; tie = the choice is not determined
reflab(Vs, VM, Val, Re) :- open_vars(Vs, Us), ( Us = [] -> true ; rl_pick(Us, VM, Re, X), rl_val(Val, X), reflab(Vs, VM, Val, Re) ).
open_vars([], []).
open_vars([X|Xs], Us) :- ( integer(X) -> Us = Us1 ; Us = [X|Us1] ), open_vars(Xs, Us1).
rl_pick([X|_], standard, _, X) :- !.
rl_pick(Us, VM, Re, X) :-
    rl_keys(Us, VM, Ks), min_list(Ks, K), findall(I, nth(I, Ks, K), Is), Is = [I1|Rest],
    ( Rest = [] -> true ; (VM = first_fail ; VM = ff), Re = false -> true ; g_assign(tie, yes) ),
    nth(I1, Us, X).
rl_keys([], _, []).
rl_keys([X|Xs], VM, [K|Ks]) :- rl_key(VM, X, K), rl_keys(Xs, VM, Ks).
rl_key(first_fail, X, K) :- fd_size(X, K).
rl_key(ff, X, K) :- fd_size(X, K).
rl_key(most_constrained, X, K) :- fd_size(X, K).
rl_key(smallest, X, K) :- fd_min(X, K).
rl_key(largest, X, K) :- fd_max(X, M), K is -M.
rl_key(max_regret, X, K) :- fd_dom(X, [A,B|_]), K is A - B.
rl_val(Val, X) :- fd_dom(X, D), ( Val = max -> reverse(D, D1) ; D1 = D ), member(X, D1).
"""
VARM = ['standard', 'first_fail', 'ff', 'most_constrained', 'smallest', 'largest', 'max_regret', 'random']
VALM = ['min', 'max', 'middle', 'bounds', 'limits', 'random', 'bisect']


def options(r):
    vm, val, re = r.choice(VARM), r.choice(VALM), r.choice(['true', 'false'])
    l = []
    if vm != 'standard' or r.random() < .3:
        l.append(f'variable_method({vm})')
    if val != 'min' or r.random() < .3:
        l.append(f'value_method({val})')
    if re != 'true' or r.random() < .3:
        l.append(f'reorder({re})')
    r.shuffle(l)
    if r.random() < .2:
        # contradictory options: the rightmost applies
        l.insert(0, r.choice([f'variable_method({r.choice(VARM)})', f'value_method({r.choice(VALM)})', 'reorder(true)', 'reorder(false)']))
        names = [x.split('(')[0] for x in l[1:]]
        if l[0].split('(')[0] not in names:
            l.append({'variable_method': f'variable_method({vm})', 'value_method': f'value_method({val})', 'reorder': f'reorder({re})'}[l[0].split('(')[0]])
    return vm, val, re, '[' + ','.join(l) + ']'


def constraints(r, vs, ds, n):
    """texts, predicates, bound"""
    posts, preds, M = [], [], max(max(d[1]) for d in ds.values())
    for _ in range(n):
        k = r.random()
        if k < .25 and len(vs) > 1:
            sub = r.sample(vs, r.randint(2, len(vs)))
            posts.append('fd_all_different([%s])' % ','.join(sub))
            preds.append(lambda a, s=sub: len(set(a[v] for v in s)) == len(s))
            continue
        c = arith(r, vs, ds)
        M = max(M, bound(c[1], ds) + bound(c[2], ds))
        if sum(map(abs, aux_sum(('-', c[1], c[2]))[2])) > 6:
            raise TooBig
        posts.append(ctext(c))
        preds.append(lambda a, c=c: holds(c, a))
    if M > (2000 if any(f in p for p in posts for f in FULL) else 60000):
        raise TooBig
    return posts, preds, M


def start(posts, ds, vs, M, r):
    decl = [ds[v][0] for v in vs]
    r.shuffle(decl)
    return ', '.join(['fd_set_vector_max(%d)' % max(127, M)] + decl + posts)


def lab_case(r):
    n = r.choice([1, 2, 2, 3, 3, 4])
    ds = domains(r, n, 1200)
    vs = list(ds)
    posts, preds, M = constraints(r, vs, ds, r.choice([0, 0, 1, 1, 2, 3]))
    alls = list(assignments(ds))
    sols = [tuple(a[v] for v in vs) for a in alls if all([p(a) for p in preds])]
    vm, val, re, opts = options(r)
    lv = list(vs)
    if r.random() < .3:
        r.shuffle(lv)
    if r.random() < .25:
        lv.insert(r.randrange(len(lv) + 1), str(r.choice([0, 5, 300])))
    if r.random() < .2:
        lv.insert(r.randrange(len(lv) + 1), r.choice(vs))
    LV = ','.join(lv)
    V = ','.join(vs)
    call = f'fd_labeling([{LV}],{opts})'
    if n == 1 and r.random() < .4:
        call = f'fd_labeling({vs[0]},{opts})'
    if opts == '[variable_method(ff)]' and r.random() < .5:
        call = f'fd_labelingff([{LV}])'
    if vm == 'standard' and val == 'min' and r.random() < .3:
        call = f'fd_labeling([{LV}])'
    det = val in ('min', 'max', 'bisect') and vm != 'random'
    ref = f'g_assign(tie,no), findall([{V}], reflab([{LV}],{vm},{val},{re}), L2), g_read(tie,T)' if det else 'L2 = [], T = yes'
    goal = f'( {start(posts, ds, vs, M, r)} -> findall([{V}], {call}, L), {ref}, doms([{V}], D), R = r(L, L2, T, D) ; R = no )'
    exp = sorted(sols)
    fixed = None
    if vm == 'standard' and det:
        seen = []
        for v in lv:
            if v in ds and v not in seen:
                seen.append(v)
        sg = -1 if val == 'max' else 1
        fixed = sorted(sols, key=lambda s: [sg * s[vs.index(v)] for v in seen])

    def f(o):
        if len(o.sols) != 1:
            return f'not one answer: {o!r}'
        t = o.sols[0]
        if t is Atom('no'):
            return f'no instead of {exp[:3]}' if exp else None
        got = [tuple(unlist(x)) for x in unlist(t.args[0])]
        if sorted(got) != exp:
            miss = [s for s in exp if s not in got][:3]
            wrong = [s for s in got if s not in exp][:3]
            return f'{len(got)} solutions, {len(exp)} expected; missing {miss} wrong {wrong}' + ('' if miss or wrong else ' (repetition)')
        if fixed is not None and got != fixed:
            return f'order: {got[:5]} expected {fixed[:5]}'
        if t.args[2] is Atom('no'):
            l2 = [tuple(unlist(x)) for x in unlist(t.args[1])]
            if l2 != got:
                i = next(i for i in range(len(got)) if i >= len(l2) or got[i] != l2[i])
                return f'order: answer {i + 1} is {got[i]}, the heuristics give {l2[i] if i < len(l2) else None}'
        if not posts and n == 1:
            return val_order(val, [x[0] for x in got])
    return Case(goal, 'R', f, max=3), len(alls)


def val_order(val, got):
    """the documented order of the values of one variable"""
    s = sorted(got)
    rk = [s.index(x) for x in got]
    n = len(rk)
    if val == 'min' or val == 'bisect':
        ok = rk == list(range(n))
    elif val == 'max':
        ok = rk == list(range(n))[::-1]
    elif val in ('bounds', 'limits'):
        ok = rk == [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]
    elif val == 'middle':
        ok = all(max(rk[:i]) - min(rk[:i]) == i - 1 for i in range(1, n + 1)) and all(abs((n - 1) / 2 - x) <= i / 2 + 1.5 for i, x in enumerate(rk))
    else:
        ok = True
    return None if ok else f'value_method({val}) tries {got[:12]}'


def bck_case(r):
    """number of backtracks, unconstrained: one per further solution"""
    n = r.choice([1, 2, 3])
    ds = domains(r, n, 150)
    vs = list(ds)
    V = ','.join(vs)
    vm, val = r.choice(VARM[:7]), r.choice(['min', 'max', 'middle', 'limits', 'random'])
    opts = [f'variable_method({vm})', f'value_method({val})', 'backtracks(B)']
    r.shuffle(opts)
    goal = f'{start([], ds, vs, max(max(d[1]) for d in ds.values()), r)}, findall(B, fd_labeling([{V}],[{",".join(opts)}]), L)'
    k = 1
    for v in vs:
        k *= len(ds[v][1])

    def f(o):
        if len(o.sols) != 1:
            return f'not one answer: {o!r}'
        got = unlist(o.sols[0])
        return None if got == list(range(k)) else f'backtracks {got[:10]}, expected 0..{k - 1}'
    return Case(goal, 'L', f, max=3), k


def opt_case(r):
    n = r.choice([1, 2, 2, 3, 3, 4])
    ds = domains(r, n, 1500)
    vs = list(ds)
    posts, preds, M = constraints(r, vs, ds, r.choice([0, 1, 1, 2]))
    alls = [a for a in assignments(ds) if all([p(a) for p in preds])]
    e = expr(r, vs, r.choice([1, 2, 2]), r.random() < .5)
    M = max(M, bound(e, ds) * 2 + 10)
    if M > (2000 if any(f in p for p in posts for f in FULL) else 60000) or sum(map(abs, aux_sum(('-', 'Z', e))[2])) > 6:
        raise TooBig
    sols = []
    for a in alls:
        try:
            z = ev(e, a)
        except Undef:
            continue
        if z >= 0:
            sols.append((z,) + tuple(a[v] for v in vs))
        elif abs(z) > LIM:
            raise TooBig
    pr = r.choice(['fd_minimize', 'fd_maximize'])
    direct = r.random() < .25
    V = ','.join(vs)
    if direct:
        Z = r.choice(vs)
        posts2 = posts
        i = vs.index(Z)
        sols = [(a[Z],) + tuple(a[v] for v in vs) for a in alls]
    else:
        Z = 'Z'
        posts2 = posts + [f'Z #= {etext(e)}' if r.random() < .7 else f'{etext(e)} #= Z']
    vm, val, re, opts = options(r)
    det = vm == 'standard' and val in ('min', 'max', 'bisect')
    gl = f'fd_labeling([{V}],{opts})'
    if not direct and r.random() < .3:
        gl = f'({gl}, true)' if r.random() < .5 else f'fd_labeling([{V},Z],{opts})'
    if r.random() < .15 and not direct:
        gl = f'( {gl} ; {gl} )'
        rep = 2
    else:
        rep = 1
    nested = r.random() < .15
    best = (min if pr == 'fd_minimize' else max)([s[0] for s in sols]) if sols else None
    sg = -1 if val == 'max' else 1
    exp = sorted([s[1:] for s in sols if s[0] == best], key=lambda s: [sg * x for x in s]) * rep
    if nested:
        # an inner optimisation, undone by \\+ \\+
        gl = f'( \\+ \\+ {r.choice(["fd_minimize", "fd_maximize"])}({gl},{r.choice(vs)}), {gl} )'
    goal = f'( {start(posts2, ds, vs, M, r)} -> findall({Z}-[{V}], {pr}({gl},{Z}), L), doms([{V}], D), R = r(L,D) ; R = no )'

    def f(o):
        if len(o.sols) != 1:
            return f'not one answer: {o!r}'
        t = o.sols[0]
        if t is Atom('no'):
            return f'no instead of {best}-{exp[:3]}' if exp else None
        got = [(x.args[0], tuple(unlist(x.args[1]))) for x in unlist(t.args[0])]
        bad = [g for g in got if g[0] != best]
        if bad:
            return f'{pr}: value {bad[0]}, the optimum is {best}'
        got = [g[1] for g in got]
        if (got if det else sorted(got)) != (exp if det else sorted(exp)):
            return f'{pr}: optimum {best}: answers {got[:6]} expected {exp[:6]} ({len(got)}/{len(exp)})'
        for i, d in enumerate(unlist(t.args[1])):
            if set(s[i + 1] for s in sols) - set(unlist(d)):
                return f'{vs[i]}: the optimisation left the domain {unlist(d)[:10]}'
    return Case(goal, 'R', f, max=3), len(alls)


def big_case(r):
    """more than 50 variables, most of them instantiated early: solutions counted in closed form"""
    n, k = r.randint(52, 90), r.randint(1, 4)
    vm, val = r.choice(VARM), r.choice(VALM)
    re = r.choice(['true', 'false'])
    opts = f'[variable_method({vm}),value_method({val}),reorder({re})]'
    kind = r.choice(['sum', 'free', 'chain'])
    if kind == 'sum':
        # exactly k of n booleans: choose 1 or n-1 to keep it small
        k = r.choice([1, 2, n - 1])
        exp = n if k in (1, n - 1) else n * (n - 1) // 2
        goal = f'length(L,{n}), fd_domain_bool(L), fd_exactly({k},L,1), findall(L, fd_labeling(L,{opts}), S), length(S,N), sort(S,S1), length(S1,M), \\+ ( member(X,S), \\+ ( sum_list(X,{k}) ) )'
    elif kind == 'free':
        # one value for most, k free variables of 3 values interleaved
        pos = sorted(r.sample(range(1, n + 1), k))
        exp = 3 ** k
        goal = f'length(L,{n}), fd_domain(L,0,5), ( nth(I,L,X), \\+ member(I,{pos}), X = 4, fail ; true ), numl(1,{n},{pos},L), findall(L, fd_labeling(L,{opts}), S), length(S,N), sort(S,S1), length(S1,M)'
    else:
        exp = n + 1
        goal = f'length(L,{n}), fd_domain(L,0,1), mono(L), findall(L, fd_labeling(L,{opts}), S), length(S,N), sort(S,S1), length(S1,M)'

    def f(o):
        if len(o.sols) != 1:
            return f'not one answer: {o!r}'
        got = o.sols[0].args
        return None if list(got) == [exp, exp] else f'{kind} {n}: {got[0]} solutions, {got[1]} distinct, expected {exp}'
    return Case(goal, 'N-M', f, max=3), exp


BIGPRE = r"""
numl(I, N, _, _) :- I > N, !.
numl(I, N, P, L) :- nth(I, L, X), ( member(I, P) -> fd_domain(X, 1, 3) ; X = 4 ), I1 is I + 1, numl(I1, N, P, L).
mono([_]) :- !.
mono([X,Y|L]) :- X #=< Y, mono([Y|L]).
"""


def err_cases(r):
    C, A = Cmp, Atom
    def E(goal, f):
        return Case(goal, 'true', formal_is(f), max=3)
    dom = lambda t: C('domain_error', (A('fd_labeling_option'), t))
    out = [
        E('fd_labeling(_)', A('instantiation_error')), E('fd_labeling([_])', A('instantiation_error')),
        E('fd_domain(X,0,3), fd_labeling([X|_])', A('instantiation_error')), E('fd_labeling([a])', C('type_error', (A('fd_variable'), A('a')))),
        E('fd_domain(X,0,3), fd_labeling([X],_)', A('instantiation_error')), E('fd_domain(X,0,3), fd_labeling([X],[_])', A('instantiation_error')),
        E('fd_domain(X,0,3), fd_labeling([X],[reorder(true)|_])', A('instantiation_error')),
        E('fd_domain(X,0,3), fd_labeling([X],foo)', C('type_error', (A('list'), A('foo')))),
        E('fd_labeling(foo(1))', C('type_error', (A('list'), C('foo', (1,))))),
        E('fd_domain(X,0,3), fd_labeling([X],[foo])', dom(A('foo'))),
        E('fd_domain(X,0,3), fd_labeling([X],[value_method(foo)])', dom(C('value_method', (A('foo'),)))),
        E('fd_domain(X,0,3), fd_labeling([X],[variable_method(min)])', dom(C('variable_method', (A('min'),)))),
        E('fd_domain(X,0,3), fd_labeling([X],[reorder(maybe)])', dom(C('reorder', (A('maybe'),)))),
        E('fd_minimize(_,X)', A('instantiation_error')), E('fd_maximize(_,X)', A('instantiation_error')),
        E('fd_minimize(3,X)', C('type_error', (A('callable'), 3))), E('fd_maximize(3,X)', C('type_error', (A('callable'), 3))),
        E('fd_minimize(fail,a)', C('type_error', (A('fd_variable'), A('a')))), E('fd_maximize(fail,f(x))', C('type_error', (A('fd_variable'), C('f', (A('x'),))))),
        E('fd_minimize(nope(X),X)', C('existence_error', (A('procedure'), C('/', (A('nope'), 1))))),
    ]
    return out


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c27/{seed}/{mode}/{i}')
    cases = []
    tot = 0
    if mode == 'errors':
        run_batch(part, SYS, err_cases(r), 'meta', PRE, name='fderr', keyf=lambda c: c.goal[:90])
        return
    while len(cases) < n:
        k = r.random()
        try:
            c, t = lab_case(r) if k < .5 else bck_case(r) if k < .56 else opt_case(r) if k < .98 else big_case(r)
        except TooBig:
            continue
        except Undef:
            continue
        cases.append(c)
        tot += t
    part.count('assignments judged', tot)
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRE + BIGPRE, name='lab-' + mode,
              env={'GLOBALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C27', rule='random finite-domain problems (0-3 constraints over 1-4 variables; and more than 50 variables) labelled under every combination of variable_method, value_method, reorder, with repeated variables, '
               'integers and contradictory options: the solutions found must be exactly those of a brute-force enumeration, each once, in the order the options define (a reference labeling written with fd_size/fd_min/fd_max/fd_dom '
               'chooses the variables; order is not judged on ties); backtracks(B); fd_minimize/fd_maximize answers against the brute-force optimum, nested optimisation, domains unchanged afterwards; errors of the options')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('errors', 0, 0, 0)] + [('meta', i, 100, ck.seed) for i in range(ck.n(160, 3000))] + [('native', i, 40, ck.seed) for i in range(ck.n(16, 200))]
    if SAN:
        jobs += [('san', i, 60, ck.seed) for i in range(60)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
