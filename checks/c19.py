#!/usr/bin/env python3
"""C19: findall, bagof, setof and countall collect exactly the solutions."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.progcase import expect_events, PRELUDE
from gpv.proggen import btext, clause_text
from gpv import mini as M
import random

A = Atom
C = lambda n, *a: Cmp(n, list(a))
MAX = 40


def conj(gs):
    gs = list(gs)
    t = gs[-1]
    for g in reversed(gs[:-1]):
        t = C(',', g, t)
    return t


class Gen:
    def __init__(self, r, tag):
        self.r = r
        self.tag = tag
        self.preds = []
        self.clauses = []
        self.nv = 0
        self.pool = []
        self.pool = [self.cst() for _ in range(r.choice([2, 3, 4, 6]))]
        for i in range(r.choice([1, 2, 3])):
            n, ar = f'f{tag}_{i}', r.choice([1, 2, 2, 3, 3])
            self.preds.append((n, ar))
            gp = r.random() < .8
            for _ in range(r.choice([0, 1, 3, 6, 12, 30])):
                vs = []
                self.clauses.append((Cmp(n, [self.cst(gp) for _ in range(ar)]), A('true')))
            if r.random() < .2:
                v = [self.var() for _ in range(ar)]
                self.clauses.append((Cmp(n, v), self.goal(v, 1)))
        # a recursive collector
        self.tree = r.random() < .2
        if self.tree:
            n = f't{tag}'
            x, y, l, z = [self.var() for _ in range(4)]
            k = r.choice(['findall', 'setof', 'bagof'])
            self.clauses.append((C(n, 0, A('leaf')), A('!')))
            self.clauses.append((C(n, x, C('n', x, l)), conj([C('is', y, C('-', x, 1)), C(k, z, conj([C('between', 1, x, self.var()), C(n, y, z)]) if k == 'findall'
                                                                                         else C('^', Var('Q'), conj([C('between', 1, x, Var('Q')), C(n, y, z)])), l)])))

    def var(self):
        self.nv += 1
        return Var('V%d' % self.nv)

    def cst(self, ground=True):
        r = self.r
        if self.pool and r.random() < .85:
            return r.choice(self.pool)
        k = r.random()
        if k < .35:
            return A(r.choice(['a', 'b', 'c', 'd']))
        if k < .65:
            return r.choice([0, 1, 2, 3, 1, 2])
        if k < .72:
            return r.choice([1.0, 2.5, -1.0])
        if k < .85:
            return C('g', self.cst(ground))
        if k < .92:
            return mklist([self.cst(ground) for _ in range(r.randrange(3))])
        if ground:
            return C('h', self.cst(), self.cst())
        return self.var()

    def goal(self, vs, d):
        r = self.r
        k = r.random()
        pv = lambda: r.choice(vs) if vs and r.random() < .8 else self.cst()
        if k < .5 or d <= 0:
            n, ar = r.choice(self.preds)
            return Cmp(n, [pv() for _ in range(ar)])
        if k < .6:
            return C('member', pv(), mklist([self.cst() for _ in range(r.randint(1, 6))]))
        if k < .66:
            return C('between', 1, r.randint(1, 4), r.choice(vs) if vs else 2)
        if k < .78:
            return C(',', self.goal(vs, d - 1), self.goal(vs, d - 1))
        if k < .86:
            return C(';', self.goal(vs, d - 1), self.goal(vs, d - 1))
        if k < .9:
            return C(',', self.goal(vs, d - 1), C('\\+', self.goal(vs, d - 1)))
        if k < .93:
            return C(';', C('->', self.goal(vs, d - 1), self.goal(vs, d - 1)), self.goal(vs, d - 1))
        if k < .95:
            return C('out', pv())
        if k < .97:
            return C(',', self.goal(vs, d - 1), C('throw', C('ball', pv())))
        return C(',', self.goal(vs, d - 1), A('!'))

    def templ(self, vs):
        r = self.r
        k = r.random()
        if k < .5 and vs:
            return r.choice(vs)
        if k < .7:
            return C('-', r.choice(vs), r.choice(vs))
        if k < .8:
            return C('t', r.choice(vs), self.cst(), r.choice(vs), r.choice(vs))
        if k < .85:
            return self.cst()
        if k < .93:
            return mklist([r.choice(vs), r.choice(vs)])
        return C('-', r.choice(vs), self.var())

    def inst(self):
        r = self.r
        k = r.random()
        if k < .72:
            return self.var()
        if k < .8:
            return mklist([self.var()], self.var())
        if k < .86:
            return mklist([self.var() for _ in range(r.choice([0, 1, 2, 3]))])
        if k < .92:
            return mklist([self.cst() for _ in range(r.choice([0, 1, 2, 3]))])
        if k < .95:
            return mklist([self.cst(), self.var()], self.var())
        return r.choice([A('foo'), mklist([1], A('x')), 12, NIL, C('f', 1), C('.', 1, 2)])

    def coll(self, vs, d):
        """a collecting goal over some of the variables"""
        r = self.r
        mine = [self.var() for _ in range(r.choice([1, 2, 2, 3, 4]))]
        pool = mine + ([r.choice(vs)] if vs and r.random() < .3 else [])
        if self.tree and r.random() < .2:
            z = self.var()
            return C('findall', z, C('t' + self.tag, r.choice([1, 2, 3]), z), self.inst())
        g = self.goal(pool, 2) if d <= 0 or r.random() < .7 else C(',', self.goal(pool, 1), self.coll(pool, d - 1))
        k = r.random()
        if k < .25:
            return C('findall', self.templ(pool), g, self.inst())
        if k < .33:
            return C('findall', self.templ(pool), g, self.inst(), r.choice([NIL, self.var(), mklist([self.cst()]), self.var()]))
        if k < .83:
            n = r.choice(['bagof', 'setof'])
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                g = C('^', r.choice(mine) if r.random() < .7 else C('q', r.choice(mine), r.choice(mine)), g)
            return C(n, self.templ(pool), g, self.inst())
        if k < .9:
            return C('countall', g, self.var() if r.random() < .7 else r.choice([0, 1, 2, 3]))
        if k < .97:
            return C('forall', g, self.goal(pool, 1))
        return C('call_nth', g, self.var() if r.random() < .5 else r.randint(1, 5))

    def query(self):
        r = self.r
        vs = [self.var() for _ in range(2)]
        gs = []
        if r.random() < .3:
            gs.append(self.goal(vs, 1))
        for _ in range(r.choice([1, 1, 2, 3])):
            c = self.coll(vs, r.choice([0, 1, 2]))
            if r.random() < .3:
                b = self.var()
                c = C('catch', c, b, C('out', C('caught', b)))
            if r.random() < .15:
                c = C(';', C('->', c, A('true')), A('true'))
            gs.append(c)
        g = conj(gs)
        ids, al = set(), []
        for v in term_vars(g):
            if v.id not in ids:
                ids.add(v.id)
                al.append(v)
        return g, C('r', *al[:60]) if al else A('r')


def member_alts(e, x, l):
    l = e.walk(l)
    out = []
    while type(l) is Cmp and l.name == '.' and len(l.args) == 2:
        out.append([(x, l.args[0])])
        l = e.walk(l.args[1])
    return out


M.BIP[('member', 2)] = member_alts


def make(r, n, tag):
    cases, nev, nsk = [], 0, 0
    k = 0
    while len(cases) < n:
        g = Gen(r, f'{tag}x{k}')
        k += 1
        txt = ''.join(f':- dynamic({n}/{a}).\n' for n, a in g.preds) + '\n'.join(clause_text(h, b) for h, b in g.clauses) + '\n'
        first = True
        for _ in range(6):
            q, t = g.query()
            e = M.Engine(1500)
            e.strict_lists = True
            for h, b in g.clauses:
                e.add(h, b)
            for nm, a in g.preds:
                e.dynamic.add((nm, a))
                e.db.setdefault((nm, a), [])
            try:
                ev = e.case(q, t, MAX)
            except (M.Skip, RecursionError):
                nsk += 1
                continue
            if len(ev) == 1 and r.random() < .7:
                continue
            if len(str(ev)) > 60000:
                continue
            c = Case(btext(q), text(t), expect_events(ev), max=MAX, pre=txt if first else '')
            first = False
            nev += len(ev)
            cases.append(c)
    return cases, nev, nsk


# large and conserving cases written with a direct oracle
def big(r, n):
    cases = []
    for _ in range(n):
        k = r.randrange(6)
        N = r.choice([100, 1000, 5000, 20000])
        if k == 0:
            v = r.choice(['X', 'f(X,[X])', 'X-_'])
            cases.append(Case(f'findall({v},between(1,{N},X),L),length(L,N),sumx(L,0,S)', 'N-S', sols_are([C('-', N, N * (N + 1) // 2)])))
        elif k == 1:
            m = r.choice([2, 7, 50, 999])
            N = min(N, 5000)
            want = [C('-', j, len([x for x in range(1, N + 1) if x % m == j])) for j in range(m) if any(x % m == j for x in range(1, N + 1))]
            p = r.choice(['bagof', 'setof'])
            cases.append(Case(f'{p}(X,(between(1,{N},X),Y is X mod {m}),L),length(L,C)', 'Y-C', sols_are(want)))
        elif k == 2:
            m = r.choice([2, 7, 50])
            cases.append(Case(f'setof(Y,X^(between(1,{N},X),Y is X mod {m}),L)', 'L', sols_are([mklist(list(range(m)))])))
        elif k == 3:
            cases.append(Case(f'countall((between(1,{N},X),X mod 3 =:= 0),C)', 'C', sols_are([N // 3])))
        elif k == 4:
            # witness with variables: every solution lies in exactly one group
            rows = [(r.choice(['_', 'a', 'f(_)', 'Z', 'g(Z,Z)', 'b', '_']), i) for i in range(r.randint(1, 12))]
            t = '[' + ','.join(f'p({w},{i})' for w, i in rows) + ']'

            def cons(o, rows=rows):
                got = []
                for s in o.sols:
                    got += [x for x in unlist(s) if type(x) is int]
                return None if o.state == 'end' and sorted(got) == [i for _, i in rows] else f'every one of {len(rows)} solutions in exactly one group'
            cases.append(Case(f'bagof(I,mb(p(W,I),{t}),L)' if r.random() < .5 else f'setof(I,mb(p(W,I),{t}),L)', 'L', cons))
        else:
            d = r.randint(2, 5)
            cases.append(Case(f'nest({d},L),flat(L,0,C)', 'C', sols_are([4 ** d])))
    return cases


PRE = PRELUDE + r"""
sumx([], S, S).
sumx([X|L], A, S) :- ( integer(X) -> Y = X ; X = f(Y,_) -> true ; X = Y-_ ), B is A+Y, sumx(L, B, S).
mb(X, L) :- member(Y, L), copy_term(Y, X).
nest(0, x) :- !.
nest(D, L) :- D1 is D-1, findall(Z, (member(_, [1,2,3,4]), nest(D1, Z)), L).
flat(x, N, M) :- !, M is N+1.
flat([], N, N).
flat([X|L], N, M) :- flat(X, N, K), flat(L, K, M).
"""


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c19/{seed}/{mode}/{i}')
    cases, nev, nsk = make(r, n, f'{mode[0]}{i}')
    cases += big(r, 4)
    part.count('events', nev)
    part.count('skipped (order of variables)', nsk)
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'byte' if mode == 'san' else mode, PRE, name='as-' + mode,
              env={'GLOBALSZ': '300000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C19', rule='random fact tables and rules; findall/3-4, bagof, setof, countall, forall, call_nth over random goals, templates, ^ prefixes and result patterns, nested, recursive and aborted by '
               'exceptions and cuts; large collections and non-ground witnesses with a direct oracle; event by event comparison with a reference interpreter; distinct by program and query')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = []
    for m, q, t in (('meta', 40, 800), ('byte', 30, 600), ('native', 16, 200)):
        jobs += [(m, i, 120, ck.seed) for i in range(ck.n(q, t))]
    if SAN:
        jobs += [('san', i, 100, ck.seed) for i in range(32)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
