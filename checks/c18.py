#!/usr/bin/env python3
"""C18: dynamic predicates obey the logical update view."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.progcase import expect_events, PRELUDE
from gpv.proggen import btext
from gpv import mini as M
import random

A = Atom
MAX = 3
C = lambda n, *a: Cmp(n, list(a))


class Db(M.Engine):
    """engine with updates: clause/2, retract/1, retractall/1, abolish/1"""

    def __init__(self, steps):
        super().__init__(steps)
        self.refs = {}
        self.stats = {'snap': 0, 'stale': 0, 'live': 0}
        self.db[('retract', 1)] = [[C('retract', Var('C')), C(',', C('$rcl', Var('C'), Var('R')), C('$erase', Var('R'))), True]]

    def snap(self, k):
        l = [c for c in self.db.get(k, []) if c[2]]
        self.stats['snap'] += 1
        return l


def key(h):
    return (h.name, len(h.args) if type(h) is Cmp else 0)


def split(e, c):
    c = e.walk(c)
    if type(c) is Cmp and c.name == ':-' and len(c.args) == 2:
        return e.walk(c.args[0]), c.args[1]
    return c, None


def b_clause(e, h, b, ref=None):
    h = e.walk(h)
    out = []
    for cl in e.snap(key(h)):
        hh, bb = e.rename(cl[0], cl[1])
        alt = [(h, hh)]
        if b is not None:
            alt.append((b, bb))
        else:
            alt.append((bb, A('true')))
        if ref is not None:
            n = len(e.refs)
            e.refs[n] = cl
            alt.append((ref, n))
        out.append(alt)
    return out


def b_rcl(e, c, ref):
    h, b = split(e, c)
    return b_clause(e, h, b, ref)


def b_erase(e, ref):
    cl = e.refs[e.walk(ref)]
    if not cl[2]:
        e.stats['stale'] += 1
    cl[2] = False
    return True


def b_retractall(e, h):
    h = e.walk(h)
    k = key(h)
    for cl in e.snap(k):
        m = len(e.trail)
        hh, _ = e.rename(cl[0], cl[1])
        if e.unify(h, hh):
            cl[2] = False
        e.undo(m)
    return True


def b_abolish(e, pi):
    pi = e.res(pi)
    k = (pi.args[0].name, pi.args[1])
    for cl in e.db.get(k, []):
        cl[2] = False
    e.db.pop(k, None)
    e.dynamic.discard(k)
    return True


def b_exists(e, pi):
    pi = e.res(pi)
    return (pi.args[0].name, pi.args[1]) in e.dynamic


def b_ncl(e, h, n):
    k = key(e.walk(h))
    if k not in e.dynamic:
        return False
    return e.unify(n, len(e.snap(k)))


M.BIP.update({('clause', 2): b_clause, ('$rcl', 2): b_rcl, ('$erase', 1): b_erase, ('retractall', 1): b_retractall, ('abolish', 1): b_abolish,
              ('current_predicate', 1): b_exists, ('ncl', 2): b_ncl})

PRE = PRELUDE + r"""
ncl(H, N) :- predicate_property(H, dynamic), findall(x, clause(H, _), L), length(L, N).
"""


def conj(gs):
    gs = list(gs)
    if not gs:
        return A('true')
    t = gs[-1]
    for g in reversed(gs[:-1]):
        t = C(',', g, t)
    return t


class Gen:
    def __init__(self, r, tag):
        self.r = r
        self.preds = [(f'd{tag}_{i}', r.choice([0, 1, 1, 1, 2, 2, 3])) for i in range(r.choice([1, 1, 2, 3]))]
        self.nid = 0
        self.tag = tag
        k = r.random()
        self.pool = 'atom' if k < .25 else 'int' if k < .5 else 'mixed'
        self.nv = 0

    def var(self):
        self.nv += 1
        return Var('V%d' % self.nv)

    def first(self, ground=False):
        r = self.r
        if self.pool == 'atom':
            t = A(r.choice(['a', 'b', 'c', 'dd']))
        elif self.pool == 'int':
            t = r.choice([0, 1, 2, 3, -1, 1 << 40])
        else:
            t = r.choice([A('a'), A('b'), 1, 2, 1.0, 1.5, A('[]'), mklist([1]), mklist([A('a'), 2]), C('f', 1), C('f', A('a')), C('g', 1, 2), C('f', 1, 2)])
        if not ground:
            if type(t) is Cmp and t.name != '.' and r.random() < .3:
                return Cmp(t.name, [self.var() for _ in t.args])
            if r.random() < .2:
                return self.var()
        return t

    def head(self, p=None, ground=False):
        n, a = p or self.r.choice(self.preds)
        if a == 0:
            return A(n)
        args = [self.first(ground)] + [self.r.choice([A('x'), A('y'), self.r.randrange(4)] + ([] if ground else [self.var()])) for _ in range(a - 1)]
        if a == 2 and self.r.random() < .1 and not ground:
            args[1] = args[0] = self.var()
        return Cmp(n, args)

    def gen(self, p=None):
        n, a = p or self.r.choice(self.preds)
        return Cmp(n, [self.var() for _ in range(a)]) if a else A(n)

    def body(self, d):
        r = self.r
        gs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .3:
                gs.append(C('out', A('b%d' % r.randrange(50))))
            elif k < .45:
                gs.append(self.head() if r.random() < .5 else self.gen())
            elif k < .55:
                gs.append(A('!'))
            elif k < .8:
                gs.append(self.update(0))
            elif k < .85:
                gs.append(A('fail'))
            elif k < .92:
                gs.append(C(';', C('->', self.head(), C('out', A('t'))), C('out', A('e'))))
            else:
                gs.append(C('\\+', self.head()))
        return conj(gs)

    def clause(self, d=1):
        r = self.r
        h = self.head(ground=r.random() < .6)
        if d and r.random() < .25:
            return C(':-', h, self.body(d))
        return h

    def update(self, d):
        r = self.r
        k = r.random()
        if k < .3:
            return C('assertz', self.clause(d))
        if k < .5:
            return C('asserta', self.clause(d))
        if k < .75:
            h = self.head() if r.random() < .7 else self.gen()
            g = C('retract', h if r.random() < .7 else C(':-', h, self.var()))
            return C(';', C('->', g, C('out', C('r', h))), C('out', A('nr')))
        if k < .92:
            return C('retractall', self.head() if r.random() < .8 else self.gen())
        p = r.choice(self.preds)
        if r.random() < .4:
            return C('abolish', C('/', A(p[0]), p[1]))
        return C('retractall', self.gen(p))

    def iter(self, depth):
        """failure-driven loop over the solutions of a goal, updates run while it is active"""
        r = self.r
        k = r.random()
        h = self.head() if r.random() < .4 else self.gen()
        if k < .4:
            g, o = h, h
        elif k < .7:
            b = self.var()
            g, o = C('clause', h, b), C('-', h, b)
        elif k < .9:
            g, o = C('retract', h), h
            if r.random() < .4:
                b = self.var()
                g, o = C('retract', C(':-', h, b)), C('-', h, b)
        else:
            g, o = C('call', h), h
        self.nid += 1
        i = A('k%s_%d' % (self.tag, self.nid))
        n, n1 = self.var(), self.var()
        subs = [self.ops(depth - 1, r.choice([1, 1, 2, 3])) for _ in range(r.choice([1, 1, 2, 3]))]
        every = r.random() < .2
        t = A('true')
        if every:
            t = subs[0]
        else:
            for j in range(len(subs), 0, -1):
                t = C(';', C('->', C('=:=', n1, j), subs[j - 1]), t)
        lim = C('<', n1, 60)
        loop = conj([g, C('g_read', i, n), C('is', n1, C('+', n, 1)), C('g_assign', i, n1), C('out', C('s', n1, o)), lim, t])
        end = r.random()
        if end < .75:
            return C(',', C('g_assign', i, 0), C(';', C(',', loop, A('fail')), A('true')))
        return C(',', C('g_assign', i, 0), C(';', C('->', C(',', loop, C('>=', n1, r.randint(1, 4))), C('out', A('stop'))), C('out', A('none'))))

    def bulk(self):
        r = self.r
        p = r.choice([q for q in self.preds if q[1]] or [None])
        if p is None:
            return self.update(1)
        v = self.var()
        args = [v if r.random() < .8 else C('f', v)] + [r.choice([A('x'), v, self.var()]) for _ in range(p[1] - 1)]
        g = C(r.choice(['assertz', 'asserta']), Cmp(p[0], args))
        return C(';', conj([C('between', 1, r.choice([3, 9, 17, 40, 150] + ([1200] if r.random() < .25 else [])), v), g, A('fail')]), A('true'))

    def ops(self, depth, n):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            if depth > 0 and k < .35:
                out.append(self.iter(depth))
            elif k < .75:
                out.append(self.update(1))
            elif k < .82:
                out.append(self.bulk())
            elif k < .9:
                h = self.head()
                b = C('catch', C(';', conj([C('out', C('go', h)), h, C('out', C('ok', h)), A('fail')]), A('true')), C('error', self.var(), Var('_')), A('true'))
                out.append(b)
            elif k < .95:
                v = self.var()
                h = self.gen()
                out.append(C(';', C('->', C('ncl', h, v), C('out', C('n', v))), C('out', A('none'))))
            else:
                p = r.choice(self.preds)
                out.append(C(';', C('->', C('current_predicate', C('/', A(p[0]), p[1])), C('out', A('ex'))), C('out', A('nex'))))
        return conj(out)

    def query(self):
        r = self.r
        ini = [C('assertz', self.clause(1)) for _ in range(r.choice([0, 2, 4, 8]))]
        if r.random() < .3:
            ini.append(self.bulk())
        v = self.var()
        main = C('catch', self.ops(r.choice([1, 2, 2, 3]), r.choice([2, 4, 7])), v, C('out', C('caught', v)))
        fin = []
        for p in self.preds:
            h, b = self.gen(p), self.var()
            fin.append(C(';', conj([C('clause', h, b), C('out', C('cl', h, b)), A('fail')]), A('true')))
            if p[1]:
                h = self.head(p)
                fin.append(C(';', conj([C('clause', h, self.var()), C('out', C('cf', h)), A('fail')]), A('true')))
            v = self.var()
        return conj(ini + [main, A('fail')]), conj(fin)


def make(r, n, tag):
    cases = []
    st = {'snap': 0, 'stale': 0}
    nev = 0
    k = 0
    while len(cases) < n:
        g = Gen(r, f'{tag}x{k}')
        k += 1
        q, fin = g.query()
        goal = C(';', q, fin)
        e = Db(20000)
        try:
            ev = e.case(goal, A('x'), MAX)
        except (M.Skip, RecursionError):
            continue
        if len(str(ev)) > 60000:
            continue
        c = Case(btext(goal), 'x', expect_events(ev), max=MAX)
        nev += len(ev)
        for s in st:
            st[s] += e.stats[s]
        cases.append(c)
    return cases, st, nev


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c18/{seed}/{mode}/{i}')
    cases, st, nev = make(r, n, f'{mode[0]}{i}')
    part.count('events', nev)
    part.count('snapshots', st['snap'])
    part.count('erased while visible', st['stale'])
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRE, name='dy-' + mode,
              env={'GLOBALSZ': '300000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C18', rule='random histories of asserta/assertz/retract/retractall/abolish run while calls, clause/2 and retract/1 of the same predicates are active (nested up to 3 deep), '
               'bodies that update their own predicate, indexed predicates up to hundreds of clauses; event by event comparison with an interpreter keeping a snapshot per call; distinct by history')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('meta', i, 60, ck.seed) for i in range(ck.n(100, 2000))] + [('native', i, 60, ck.seed) for i in range(ck.n(16, 200))]
    if SAN:
        jobs += [('san', i, 60, ck.seed) for i in range(40)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
