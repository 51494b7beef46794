#!/usr/bin/env python3
"""C12: list library predicates satisfy their definition."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.refcase import *
from gpv.progcase import expect_events
from gpv import mini as M, preader as P
from gpv.run import Sys
import random

DEFS = P.clauses("""
r_append([], L, L).
r_append([H|T1], List, [H|T2]) :- r_append(T1, List, T2).
r_member(X, [H|T]) :- ( X = H ; r_member(X, T) ).
r_memberchk(X, L) :- once(r_member(X, L)).
r_reverse([], []).
r_reverse([H|T], L) :- r_rev(T, L, [H]).
r_rev([], L, L).
r_rev([H|T], L, L1) :- r_rev(T, L, [H|L1]).
r_delete([], _, []).
r_delete([H|T], X, L) :- ( H == X -> r_delete(T, X, L) ; L = [H|L1], r_delete(T, X, L1) ).
r_select(X, [X|T], T).
r_select(X, [H|T1], [H|T2]) :- r_select(X, T1, T2).
r_subtract([], _, []).
r_subtract([X|L1], L2, L3) :- r_memberchk(X, L2), !, r_subtract(L1, L2, L3).
r_subtract([X|L1], L2, [X|L3]) :- r_subtract(L1, L2, L3).
r_permutation([], []).
r_permutation(L, [H|T]) :- r_select(H, L, Rest), r_permutation(Rest, T).
r_prefix([], _).
r_prefix([X|T], [X|T1]) :- r_prefix(T, T1).
r_suffix(L, L).
r_suffix(X, [_|T]) :- r_suffix(X, T).
r_sublist(L, L).
r_sublist(Sub, [H|T]) :- r_sub1(T, H, Sub).
r_sub1(Sub, _, Sub).
r_sub1([H|T], _, Sub) :- r_sub1(T, H, Sub).
r_sub1([H|T], X, [X|Sub]) :- r_sub1(T, H, Sub).
r_last([H|T], X) :- r_last1(T, H, X).
r_last1([], X, X).
r_last1([H|T], _, X) :- r_last1(T, H, X).
r_nth(N, L, X) :- r_nth1(N, L, X).
r_nth1(N, L, X) :- r_nthb(N, 1, L, X).
r_nth0(N, L, X) :- r_nthb(N, 0, L, X).
r_nthb(N, B, L, X) :- integer(N), !, N >= B, r_nthi(N, B, L, X).
r_nthb(N, B, L, X) :- var(N), r_nthg(L, X, B, N).
r_nthi(N, N, [H|_], X) :- !, X = H.
r_nthi(N, I, [_|T], X) :- I1 is I + 1, r_nthi(N, I1, T, X).
r_nthg([X|_], X, N, N).
r_nthg([_|T], X, I, N) :- I1 is I + 1, r_nthg(T, X, I1, N).
r_max_list([H|T], Max) :- r_max1(T, H, Max).
r_max1([], Max, Max).
r_max1([H|T], X, Max) :- ( H =< X -> r_max1(T, X, Max) ; r_max1(T, H, Max) ).
r_min_list([H|T], Min) :- r_min1(T, H, Min).
r_min1([], Min, Min).
r_min1([H|T], X, Min) :- ( H >= X -> r_min1(T, X, Min) ; r_min1(T, H, Min) ).
r_sum_list(L, S) :- r_sum1(L, 0, S).
r_sum1([], S, S).
r_sum1([H|T], S0, S) :- S1 is H + S0, r_sum1(T, S1, S).
r_flatten(L, F) :- r_flat(L, [], F0), !, F = F0.
r_flat(V, Tl, [V|Tl]) :- var(V), !.
r_flat([], Tl, Tl) :- !.
r_flat([H|T], Tl, L) :- !, r_flat(H, FT, L), r_flat(T, Tl, FT).
r_flat(X, Tl, [X|Tl]).
r_maplist(_, []).
r_maplist(G, [A|As]) :- call(G, A), r_maplist(G, As).
r_maplist(_, [], []).
r_maplist(G, [A|As], [B|Bs]) :- call(G, A, B), r_maplist(G, As, Bs).
r_maplist(_, [], [], []).
r_maplist(G, [A|As], [B|Bs], [C|Cs]) :- call(G, A, B, C), r_maplist(G, As, Bs, Cs).
r_maplist(_, [], [], [], []).
r_maplist(G, [A|As], [B|Bs], [C|Cs], [D|Ds]) :- call(G, A, B, C, D), r_maplist(G, As, Bs, Cs, Ds).
r_maplist(_, [], [], [], [], []).
r_maplist(G, [A|As], [B|Bs], [C|Cs], [D|Ds], [E|Es]) :- call(G, A, B, C, D, E), r_maplist(G, As, Bs, Cs, Ds, Es).
r_maplist(_, [], [], [], [], [], []).
r_maplist(G, [A|As], [B|Bs], [C|Cs], [D|Ds], [E|Es], [F|Fs]) :- call(G, A, B, C, D, E, F), r_maplist(G, As, Bs, Cs, Ds, Es, Fs).
r_maplist(_, [], [], [], [], [], [], []).
r_maplist(G, [A|As], [B|Bs], [C|Cs], [D|Ds], [E|Es], [F|Fs], [X|Xs]) :- call(G, A, B, C, D, E, F, X), r_maplist(G, As, Bs, Cs, Ds, Es, Fs, Xs).
r_maplist(_, [], [], [], [], [], [], [], []).
r_maplist(G, [A|As], [B|Bs], [C|Cs], [D|Ds], [E|Es], [F|Fs], [X|Xs], [Y|Ys]) :- call(G, A, B, C, D, E, F, X, Y), r_maplist(G, As, Bs, Cs, Ds, Es, Fs, Xs, Ys).
""")
HELP = """
'$q'(a). '$q'(b). '$q'(1). '$q'(b).
'$q'(a, 1). '$q'(b, 2). '$q'(a, 3). '$q'(X, X).
'$q'(X, Y, [X,Y]). '$q'(X, Y, f(Y,X)).
'$q'(X, Y, Z, k(X,Y,Z)).
'$q'(A, B, C, D, k(A,B,C,D)). '$q'(A, _, _, _, A).
'$q'(A, B, C, D, E, k(A,B,C,D,E)).
'$q'(A, B, C, D, E, F, k(A,B,C,D,E,F)).
'$q'(A, B, C, D, E, F, G, k(A,B,C,D,E,F,G)).
'$r'(K, X, K-X). '$r'(_, X, n(X)). '$r'(K, X) :- X = K.
"""
HELPC = P.clauses(HELP)
MAX = 8


def lst(r, vs, els=None, n=None, pt=.12):
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 5]) if n is None else n
    els = els or (lambda: leaf(r, vs))
    k = r.random()
    return mklist([els() for _ in range(n)], NIL if k > pt else (r.choice(vs) if k < pt * .8 else r.choice([Atom('foo'), 3])))


def leaf(r, vs):
    k = r.random()
    if k < .22:
        return r.choice(vs)
    if k < .85:
        return r.choice([Atom('a'), Atom('b'), Atom('c'), 1, 2, 3, 1.0])
    if k < .93:
        return Cmp('f', [r.choice([Atom('a'), 1, r.choice(vs)])])
    return r.choice([NIL, mklist([Atom('a'), r.choice(vs)]), G.const(r, G.ATOMS)])


def num(r, vs):
    k = r.random()
    if k < .7:
        return r.choice([0, 1, 2, 3, -1, 5, 1 << 40, (1 << 60) - 1, r.randint(-9, 9)])
    if k < .9:
        return r.choice([1.0, 2.5, -1.5, 3.0, 1e20])
    if k < .96:
        return Cmp(r.choice('+*-'), [r.randint(0, 5), r.choice([1, 2.0])])
    return r.choice([Atom('a'), r.choice(vs), Cmp('foo', [1])])


def nested(r, vs, d):
    if d == 0 or r.random() < .4:
        return leaf(r, vs)
    return mklist([nested(r, vs, d - 1) for _ in range(r.randint(0, 3))], NIL if r.random() < .85 else leaf(r, vs))


def gen(r):
    vs = [Var('V%d' % i) for i in range(3)]
    V = lambda: r.choice(vs)
    L = lambda **k: V() if r.random() < .18 else lst(r, vs, **k)
    E = lambda: leaf(r, vs)
    name = r.choice(['append', 'append', 'append', 'member', 'member', 'memberchk', 'memberchk', 'reverse', 'reverse', 'delete', 'select', 'subtract', 'permutation', 'prefix', 'suffix', 'sublist',
                     'last', 'nth', 'nth0', 'nth1', 'nth0', 'nth1', 'max_list', 'min_list', 'sum_list', 'flatten', 'maplist', 'maplist', 'maplist'])
    if name == 'append':
        a, b = L(), L()
        c = L()
        if r.random() < .5:
            its, tl = unl(a)
            c = mklist(its + unl(b)[0], r.choice([NIL, NIL, V()]))
            if r.random() < .5:
                c = G.mutate(r, c, vs, .1, .02)
            k = r.random()
            if k < .25:
                a = V()
            if .15 < k < .4:
                b = V()
        args = [a, b, c]
    elif name in ('member', 'memberchk'):
        args = [E(), L()]
    elif name in ('reverse', 'permutation', 'prefix', 'suffix', 'sublist'):
        a = L(n=r.choice([0, 1, 2, 3, 4])) if name == 'permutation' else L()
        b = L(n=r.choice([0, 1, 2, 3])) if r.random() < .5 else V()
        if r.random() < .4:
            its, tl = unl(a)
            its = its[::-1] if name == 'reverse' else [x for x in its if r.random() < .7]
            b = mklist(its, tl if r.random() < .3 else NIL)
        args = [a, b] if name in ('reverse', 'permutation') else [b, a]
    elif name in ('delete', 'subtract'):
        args = [L(), E() if name == 'delete' else L(), r.choice([V(), V(), L()])]
    elif name == 'select':
        args = [E(), L(), r.choice([V(), V(), L()])]
    elif name == 'last':
        args = [L(), E()]
    elif name.startswith('nth'):
        args = [r.choice([V(), 0, 1, 2, 3, 4, 5, -1, (1 << 32) + 1, 1 << 32, 1 << 59, Atom('a'), 1.0]), L(), E()]
    elif name in ('max_list', 'min_list', 'sum_list'):
        args = [L(els=lambda: num(r, vs)), r.choice([V(), V(), num(r, vs)])]
    elif name == 'flatten':
        args = [nested(r, vs, 3), r.choice([V(), V(), V(), lst(r, vs)])]
    else:
        n = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8])
        ln = r.choice([0, 1, 2, 3])
        g = {1: ["'$q'", "'$r'(a)", 'atom', "'='(f(V0))", "'=='(V1)", 'call(var)', 'foo:bar' if 0 else 'nonvar', 'V2', "( '$q' )", '3', "(fail ; var)" if 0 else "memberchk(a)"],
             2: ["'$q'", "'$r'(k)", '=', '==', "functor(f(a,b))", '=..', "'$q'(a)", 'append([a])', '@<', "copy_term", 'member'],
             3: ["'$q'", 'functor', 'append', "'$r'", 'compare', "'$q'(z)", 'select', "append"]}.get(n, ["'$q'", "'$q'(z)" if n < 8 else "'$q'"])
        gt = r.choice(g)
        gt = P.term(gt)
        args = [gt] + [V() if r.random() < .1 else (mklist([r.choice(vs) for _ in range(ln)]) if r.random() < .2 else lst(r, vs, n=ln if r.random() < .85 else None, pt=.08)) for _ in range(n)]
    return name, args, vs


def unl(l):
    n = []
    while is_list_cell(l):
        n.append(l.args[0])
        l = l.args[1]
    return n, l


NAMES = {h.name[2:] for h, b in DEFS}


def engine():
    e = M.Engine(6000)
    for h, b in DEFS + HELPC:
        e.add(h, b)
    return e


def reft(t):
    """the goal with library names replaced by the reference ones (closures too)"""
    if type(t) is Cmp:
        n = 'r_' + t.name if t.name in NAMES and t.name != 'length' else t.name
        return Cmp(n, [reft(t.args[0])] + list(t.args[1:]) if t.name in ('maplist', 'call') else t.args)
    if type(t) is Atom and t.name in NAMES:
        return Atom('r_' + t.name)
    return t


def length_case(r):
    vs = [Var('V%d' % i) for i in range(3)]
    l = Var('V0') if r.random() < .25 else lst(r, vs, pt=.45)
    n = r.choice([Var('V1'), Var('V1'), 0, 1, 2, 3, 4, 7, 30, -1, -5, 1 << 30 if False else 5, Atom('a'), 1.0, Cmp('f', [1])])
    its, tl = unl(l)
    if type(n) is Var and type(tl) is Var and n.id == tl.id:
        return None
    E = []
    if type(n) not in (Var, int):
        E.append(terr('integer', n))
    if type(n) is int and n < 0:
        E.append(derr('not_less_than_zero', n))
    tm = Cmp('v', vs)
    g = Cmp('length', [l, n])
    if E:
        exp = formal_is(*E)
    elif tl is not NIL and type(tl) is not Var:
        exp = sols_are([])          # strict_iso is on
    elif tl is NIL:
        s = uni((n, len(its)))
        exp = sols_are([subst(tm, s)] if s is not None else [])
    elif type(n) is int:
        exp = sols_are([subst(tm, {tl.id: mklist([Var('F%d' % i) for i in range(n - len(its))])})] if n >= len(its) else [])
    else:
        # n could occur in the elements
        want = []
        for k in range(MAX):
            s = unify(tl, mklist([Var('F%d' % i) for i in range(k)]), {})
            s = unify(subst(n, s), len(its) + k, s)
            if s is not None:
                want.append(subst(tm, s))

        def exp(o):
            if o.state != 'cut' or len(o.sols) != MAX or not all(same(a, b) for a, b in zip(o.sols, want)):
                return 'expected the first %d of infinitely many lengths' % MAX
    return Case(text(g), text(tm), exp, max=MAX, key='length')


def big_case(r):
    n = r.choice([1000, 30000])
    m = r.randrange(1, n)
    return r.choice([
        lambda: Case(f"numl(1,{n},L), append(L,[x],M), length(M,N), reverse(M,[X|_]), nth({n},M,Y), nth1({m},M,Z), nth0({m},M,W), last(M,Q), sum_list(L,S), max_list(L,A), min_list(L,B)", 'r(N,X,Y,Z,W,Q,S,A,B)',
                     sols_are([Cmp('r', [n + 1, Atom('x'), n, m, m + 1 if m < n else Atom('x'), Atom('x'), n * (n + 1) // 2, n, 1])])),
        lambda: Case(f"numl(1,{n},L), append(A,[{m}|B],L), length(A,NA), length(B,NB), memberchk({n},L), delete(L,{m},D), length(D,ND), findall(X,member(X,L),F), F == L, maplist(succ,L,P), last(P,PL), subtract(L,[1,{m}],SU), length(SU,SL), flatten([[L]|L],FL), length(FL,FN)", 'r(NA,NB,ND,PL,SL,FN)',
                     sols_are([Cmp('r', [m - 1, n - m, n - 1, n + 1, n - len({1, m}), 2 * n])])),
        lambda: Case(f"numl(1,{n},L), length(P,{m}), append(P,S,L), !, prefix(P,L), suffix(S,L), S = [H|_], length(S,SL)", 'r(H,SL)', sols_are([Cmp('r', [m + 1, n - m])])),
        lambda: Case(f"length(L,{n}), nth({m},L,k), nth(I,L,E), E == k, select(k,L,R), !, length(R,N)", 'r(I,N)', sols_are([Cmp('r', [m, n - 1])])),
    ])()


PRE = HELP + "\nnuml(N,M,[]) :- N > M, !.\nnuml(N,M,[N|L]) :- N1 is N+1, numl(N1,M,L).\n"


def make(r, n):
    out = []
    while len(out) < n:
        k = r.random()
        if k < .06:
            c = length_case(r)
            if c:
                out.append(c)
            continue
        if k < .066:
            out.append(big_case(r))
            continue
        name, args, vs = gen(r)
        g = Cmp(name, args)
        t = Cmp('v', vs)
        try:
            e = engine()
            ev = e.case(reft(g), t, MAX)
        except (M.Skip, RecursionError):
            continue
        if any('r_' in str(x) for x in ev):
            ev = [unref(x) for x in ev]
        gt = text(g)
        if r.random() < .3 and name != 'maplist':
            gt = ', '.join(f'=(A{i}_, {text(a)})' for i, a in enumerate(args)) + ', ' + name + '(' + ', '.join('A%d_' % i for i in range(len(args))) + ')'
        c = Case(gt, text(t), expect_events(ev), max=MAX, key=name)
        out.append(c)
    return out


def unref(t):
    if type(t) is Cmp:
        return Cmp(t.name[2:] if t.name.startswith('r_') else t.name, [unref(a) for a in t.args])
    if type(t) is Atom and t.name.startswith('r_'):
        return Atom(t.name[2:])
    return t


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c12/{seed}/{mode}/{i}')
    cases = make(r, n)
    m = 'native' if mode == 'san' else mode
    run_batch(part, SAN if mode == 'san' else SYS, cases, m, PRE, name='list-' + mode, env={'GLOBALSZ': '200000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.key or c.goal[:60]}')
    for c in cases:
        part.count('op ' + (c.key or 'large'))


def body():
    global SYS, SAN
    ck = Check('C12', rule='calls of the list predicates on proper, partial, ill-typed and nested lists in all modes; the sequence of solutions (first 8) or the error compared with the textbook '
               'definitions run by a reference engine; lists to 30000 elements; distinct by goal and mode')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 500, ck.seed) for i in range(ck.n(16, 160)) for m in ('native', 'byte', 'meta')]
    if SAN:
        jobs += [('san', i, 300, ck.seed) for i in range(20)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
