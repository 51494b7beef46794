#!/usr/bin/env python3
"""C01: unification = most general unifier, in every way a program unifies."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv import gen as G
import random


def rename(t, suffix):
    m = {}

    def go(x):
        if type(x) is Var:
            return m.setdefault(x.id, Var(x.id + suffix))
        if type(x) is Cmp:
            return Cmp(x.name, [go(a) for a in x.args])
        return x
    return go(t)


def pair(r, disjoint):
    va = [Var('A%d' % i) for i in range(r.choice([1, 2, 3, 5]))]
    vb = [Var('B%d' % i) for i in range(r.choice([1, 2, 3, 5]))]
    if not disjoint and r.random() < .6:
        vb = vb + va
    d = r.choice([1, 2, 2, 3, 3, 4])
    base = G.term(r, d, [], atoms=G.SIMPLE)
    while type(base) is not Cmp and r.random() < .8:
        base = G.term(r, d, [])
    if r.random() < .06:
        base = G.prefixed(r, base)
    p = r.choice([.05, .15, .3, 0])
    kill = r.choice([0, 0, .03, .1])
    t1 = G.mutate(r, base, va, p, kill)
    t2 = G.mutate(r, base, vb, p, kill)
    if r.random() < .3:
        t2 = G.near_miss(r, t2, r.choice([.03, .1, .3]))
    if r.random() < .1:
        t2 = G.term(r, d, vb)
    return t1, t2


def vl(*ts):
    return term_vars(Cmp('t', ts))


def expect(t1, t2, vs, neg=False):
    s = unify(t1, t2, {})
    if s == 'cyclic':
        return s, None
    if neg:
        return s, (lambda o: None if o.state == 'end' and len(o.sols) == (1 if s is None else 0) and
                   (not o.sols or same(o.sols[0], mklist(vs))) else 'expected %s' % ('success, no binding' if s is None else 'failure'))
    if s is None:
        return s, sols_are([])
    return s, sols_are([subst(mklist(vs), s)])


def wrap_runtime(r, n, t):
    """build term t in variable n at run time"""
    k = r.random()
    tx = text(t)
    if k < .5:
        return f"'$k'({tx},{n})"
    if k < .7 and type(t) is Cmp and t.name != '.':
        return f"{n} =.. [{atext(t.name) if t.name not in OPS else qp(t.name)},{','.join(text(a) for a in t.args)}]"
    if k < .85 and type(t) is Cmp:
        return f"functor({n},{qp(t.name)},{len(t.args)}), '$args'({n},{mk(t.args)})"
    return f"g_link('$g',{tx}), g_read('$g',{n})"


OPS = {'+', '-', '*', ',', '|', ';', '.', 'is', '\\'}


def qp(n):
    return '(' + qatom(n) + ')' if n in OPS else atext(n)


def mk(args):
    return '[' + ','.join(text(a) for a in args) + ']'


def gen(r, cid):
    how = r.choice(['inline', 'inline', 'rt', 'rt', 'head', 'head', 'head', 'head', 'occ', 'occ', 'neq', 'not', 'bip', 'bip', 'flip'])
    t1, t2 = pair(r, how == 'head')
    vs = vl(t1, t2)
    x1, x2 = text(t1), text(t2)
    if how in ('inline', 'flip'):
        s, e = expect(t1, t2, vs)
        if s == 'cyclic':
            return None
        return Case(f"{x1} = {x2}" if how == 'inline' else f"{x2} = {x1}", text(mklist(vs)), e)
    if how == 'rt':
        s, e = expect(t1, t2, vs)
        if s == 'cyclic':
            return None
        return Case(f"{wrap_runtime(r, 'X', t1)}, {wrap_runtime(r, 'Y', t2)}, X = Y", text(mklist(vs)), e)
    if how == 'occ':
        s = unify(t1, t2, {})
        e = sols_are([] if s in (None, 'cyclic') else [subst(mklist(vs), s)])
        if r.random() < .5:
            g = f"unify_with_occurs_check({x1},{x2})"
        else:
            g = f"{wrap_runtime(r, 'X', t1)}, {wrap_runtime(r, 'Y', t2)}, unify_with_occurs_check(X,Y)"
        return Case(g, text(mklist(vs)), e)
    if how in ('neq', 'not'):
        s, e = expect(t1, t2, vs, True)
        if s == 'cyclic':
            return None
        g = f"X \\= Y" if how == 'neq' else "\\+ X = Y"
        if r.random() < .3:
            return Case((f"{x1} \\= {x2}" if how == 'neq' else f"\\+ {x1} = {x2}"), text(mklist(vs)), e)
        return Case(f"{wrap_runtime(r, 'X', t1)}, {wrap_runtime(r, 'Y', t2)}, {g}", text(mklist(vs)), e)
    if how == 'head':
        s, e = expect(t1, t2, vs)
        if s == 'cyclic':
            return None
        v1 = vl(t1)
        v2 = vl(t2)
        if r.random() < .4 and type(t1) is Cmp and type(t2) is Cmp and t1.name == t2.name and len(t1.args) == len(t2.args) and len(t1.args) < 60:
            # arguments of the predicate directly, permuted so that any of them may be the first
            idx = list(range(len(t1.args)))
            r.shuffle(idx)
            h = ','.join(text(t1.args[i]) for i in idx)
            c = ','.join(text(t2.args[i]) for i in idx)
        else:
            h, c = x1, x2
        pos = r.random() < .5
        hv = text(mklist(v1))
        hd = f"{hv},{h}" if pos else f"{h},{hv}"
        cd = f"V__,{c}" if pos else f"{c},V__"
        ar = hd and None
        body = r.choice(['', '', " :- true", " :- '$k'(a,_)", " :- Z__ = 1, '$k'(Z__,_)"])
        pre = f"'$h{cid}'({hd}){body}."
        via = r.random()
        if via < .5:
            g = f"'$h{cid}'({cd})"
        elif via < .75:
            g = f"G__ = '$h{cid}'({cd}), call(G__)"
        else:
            g = f"'$k'({x2},X__), " + f"'$h{cid}'({cd})"
        # after the call V__ has the head's variables
        tm = f"u(V__,{text(mklist(v2))})"
        if s is None:
            e = sols_are([])
        else:
            e = sols_are([subst(Cmp('u', (mklist(v1), mklist(v2))), s)])
        return Case(g, tm, e, pre=pre)
    # results of built-in predicates
    s, e = expect(t1, t2, vs)
    if s == 'cyclic':
        return None
    n = r.choice([1, 2, 3])
    g = r.choice([
        f"arg({n}, w(p,q,r), Z), Z \\== none, arg(2, f(a,{x1}), {x2})",
        f"f({x1},k) =.. [_,{x2}|_]",
        f"f(k,{x1}) =.. [F,k,{x2}]",
        f"g_link('$g2',{x1}), g_read('$g2',{x2})",
        f"nth(2,[z,{x1}],{x2})",
        f"nth0(0,[{x1},z],{x2})",
        f"memberchk({x2},[{x1}])",
        f"append([q],{x1},[_|T]), T = {x2}",
        f"last([a,{x1}],{x2})",
        f"reverse([{x1},b],[b,{x2}])",
        f"select({x2},[{x1}],[])",
        f"length(L,1), L = [{x1}], L = [{x2}]",
        f"call(=,{x1},{x2})",
        f"call(=({x1}),{x2})",
        f"once({x1} = {x2})",
        f"catch(throw(b),b,{x1} = {x2})",
        f"setof(x,true,[x]), [{x1}] = [{x2}]",
        f"({x1} = {x2} -> true ; fail)",
        f"({x1} = {x2} *-> true ; fail)",
    ])
    return Case(g, text(mklist(vs)), e)


PRELUDE = """'$k'(X,X).
'$args'(T,L) :- '$args'(L,1,T).
'$args'([],_,_).
'$args'([A|L],I,T) :- arg(I,T,A), J is I+1, '$args'(L,J,T).
"""


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c01/{seed}/{mode}/{i}')
    cases = []
    succ = 0
    while len(cases) < n:
        c = gen(r, len(cases))
        if c:
            cases.append(c)
    pre = ''
    m = mode
    if mode == 'dyn':      # heads as dynamic clauses
        m = 'byte'
        for c in cases:
            if c.pre:
                pi = c.pre.split('(')[0]
                c.pre = dyn(c.pre)
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'native' if m == 'san' else m, PRELUDE, name='unify-' + mode)
    part.count('cases_' + mode, n)


def dyn(pre):
    c = pre.rstrip('.')
    return f":- initialization(assertz(({c})))." if True else pre


def deep(part, arg):
    """long lists and deep structures built at run time"""
    seed, = arg
    r = random.Random(f'c01d/{seed}')
    cases = []
    for n in [10, 1000, r.randint(2000, 20000), 100000]:
        for oc in ('=', 'unify_with_occurs_check'):
            cases.append(Case(f"length(L,{n}), length(M,{n}), '{oc}'(L,M), last(L,z), last(M,Z), nth({n // 2 + 1},L,q), nth({n // 2 + 1},M,Q)", 'Z-Q',
                              sols_are([Cmp('-', (Atom('z'), Atom('q')))])))
            cases.append(Case(f"'$mk'({n},T,X), '$mk'({n},U,Y), '{oc}'(T,U), X = 1", 'Y', sols_are([1])))
            cases.append(Case(f"'$mk'({n},T,a), '$mk'({n},U,b), '{oc}'(T,U)", 'x', sols_are([])))
            cases.append(Case(f"'$mk'({n},T,X), '$mk'({n},U,T), '{oc}'(T,U), X = z ; '$mk'({n},T,X), '$mk'({n},U,h(T)), X = w", 'X',
                              None))
        cases.append(Case(f"'$mk'({n},T,X), unify_with_occurs_check(X,T)", 'X', sols_are([])))
        cases.append(Case(f"'$mkl'({n},T,X), unify_with_occurs_check(X,T)", 'X', sols_are([])))
        cases.append(Case(f"'$mkl'({n},T,X), '$mkl'({n},U,Y), T = U, Y = 5", 'X', sols_are([5])))
        cases.append(Case(f"'$mkl'({n},T,a), '$mkl'({n},U,b), T \\= U, '$mkl'({n},V,X), '$mkl'({n},W,c), \\+ V \\= W", 'X',
                          lambda o: None if len(o.sols) == 1 and type(o.sols[0]) is Var else 'X must stay free'))
    cases = [c for c in cases if c.expect]
    run_batch(part, SYS, cases, 'native', PRELUDE + """
'$mk'(0,X,X) :- !.
'$mk'(N,f(T,N),X) :- M is N-1, '$mk'(M,T,X).
'$mkl'(0,X,X) :- !.
'$mkl'(N,g(N,[T]),X) :- M is N-1, '$mkl'(M,T,X).
""", name='unify-deep', env={'GLOBALSZ': '400000', 'LOCALSZ': '200000', 'TRAILSZ': '200000', 'CSTRSZ': '20000'})


def body():
    global SYS, SAN
    ck = Check('C01', rule='pairs of random terms (derived from one another by replacing subterms by variables) unified inline, at run time, by clause heads '
               '(native, byte-code, dynamic), by built-in results, with occurs check and under negation; expected bindings from a reference unifier')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 400, ck.seed) for i in range(ck.n(60, 400)) for m in ('native', 'byte', 'dyn', 'meta')]
    if SAN:
        jobs += [('san', i, 300, ck.seed) for i in range(10)]
    parallel(ck, work, jobs)
    parallel(ck, deep, [(f'{ck.seed}/{i}',) for i in range(ck.n(3, 10))])
    ck.finish(2000)


if __name__ == '__main__':
    main(body)
