"""Cases from random programs whose expected event sequence comes from the reference engine."""
from .batch import *
from . import mini as M
from .proggen import Prog, btext, clause_text

PRELUDE = "out(X) :- g_read('$vid', I), vlog(I, out(X)).\n"
MAX = 25


def ev_same(a, b):
    """events equal; error contexts are not compared"""
    if type(a) is Cmp and type(b) is Cmp and a.name == 'exc' == b.name:
        x, y = a.args[0], b.args[0]
        if type(x) is Cmp and type(y) is Cmp and x.name == 'error' == y.name and len(x.args) == 2 == len(y.args):
            return same(mask(x.args[0]), mask(y.args[0]))
    return same(mask(a), mask(b))


def mask(t):
    """second argument of error/2 (implementation defined) hidden wherever it appears"""
    if type(t) is Cmp:
        if t.name == 'error' and len(t.args) == 2:
            return Cmp('error', (mask(t.args[0]), Atom('ctx')))
        return Cmp(t.name, [mask(a) for a in t.args])
    return t


def expect_events(want):
    def f(o):
        got = o.raw
        if len(got) == len(want) and all(ev_same(a, b) for a, b in zip(got, want)):
            return None
        i = 0
        while i < min(len(got), len(want)) and ev_same(got[i], want[i]):
            i += 1
        return 'events differ at %d: observed %s expected %s' % (i, [ts(x) for x in got[i:i + 3]], [ts(x) for x in want[i:i + 3]])
    return f


def wrap(p, g):
    """the query inside one more control construct"""
    r = p.r
    k = r.choice(['or', 'ite', 'soft', 'call', 'catch', 'cut', 'nth'])
    o = Cmp('out', [Atom('w%d' % r.randrange(5))])
    if k == 'or':
        return Cmp(';', (g, o))
    if k == 'ite':
        return Cmp(';', (Cmp('->', (g, o)), Cmp('out', [Atom('else')])))
    if k == 'soft':
        return Cmp(';', (Cmp('*->', (g, o)), Cmp('out', [Atom('else')])))
    if k == 'call':
        return Cmp(',', (Cmp('call', [g]), o))
    if k == 'catch':
        return Cmp('catch', (Cmp(',', (g, o)), Var('C'), Cmp('out', [Cmp('caught', [Var('C')])])))
    if k == 'nth':
        return Cmp('call_nth', (g, r.choice([1, 2, 3, Var('N')])))
    return Cmp(';', (Cmp(',', (g, Cmp(',', (o, Atom('!'))))), Cmp('out', [Atom('no')])))


def make(r, n, tag, style, steps=2500, extra=False):
    """cases from random programs; the first case of a program carries its text"""
    cases = []
    pn = 0
    progs = []
    nev = 0
    while len(cases) < n:
        p = Prog(r, f'{tag}{pn}_', style() if callable(style) else style)
        pn += 1
        ok = []
        for _ in range(5):
            g, t = p.query()
            if extra and r.random() < .3:
                g = wrap(p, g)
            g = Cmp(',', (Cmp('g_assign', (Atom(p.prefix + 'g'), 0)), g))
            e = M.Engine(steps)
            for nm, ar, cls in p.preds:
                for h, b in cls:
                    e.add(h, b)
            try:
                ev = e.case(g, t, MAX)
            except (M.Skip, RecursionError):
                continue
            if e.steps < 8 and r.random() < .7:
                continue
            if len(str(ev)) > 60000:
                continue
            nev += len(ev)
            ok.append((g, t, ev))
        if not ok:
            continue
        progs.append(p)
        for j, (g, t, ev) in enumerate(ok):
            c = Case(btext(g), text(t), expect_events(ev), max=MAX, pre=p.text() if j == 0 else '')
            c.note = p
            cases.append(c)
    return cases, progs, nev
