#!/usr/bin/env python3
"""C22: grammar rules define the language they describe."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.progcase import *
from gpv.proggen import btext, btext1
from gpv import mini as M
import random

A, C = Atom, Cmp
TOK = ['a', 'b', 'c']


def phrase(e, b, l, r=NIL):
    """phrase/2-3 by the reading of grammar bodies below"""
    b = e.walk(b)
    if type(b) is Var:
        raise M.err(A('instantiation_error'))
    if type(b) not in (A, C):
        raise M.typ('callable', b)
    return tr(e, b, l, r)


def cell(l, tail):
    for x in reversed(l):
        tail = C('.', (x, tail))
    return tail


def elements(e, t):
    r = []
    t = e.walk(t)
    while type(t) is C and t.name == '.' and len(t.args) == 2:
        r.append(t.args[0])
        t = e.walk(t.args[1])
    return r if t is NIL else None


def tr(e, b, s0, s):
    """the goal that says: the sequence s0 - s is described by b"""
    b = e.walk(b)
    eq = lambda x, y: C('=', (x, y))
    cj = lambda x, y: C(',', (x, y))
    if type(b) is Var:
        return C('phrase', (b, s0, s))
    l = elements(e, b)
    if l is not None:
        return eq(s0, cell(l, s))
    if type(b) is C and b.name == '.' and len(b.args) == 2:
        t = b
        while type(t) is C and t.name == '.' and len(t.args) == 2:
            t = e.walk(t.args[1])
        raise M.err(A('instantiation_error')) if type(t) is Var else M.typ('list', b)
    if b is A('!'):
        return cj(b, eq(s0, s))
    if type(b) is C:
        n = len(b.args)
        if b.name in (',', '->', '*->') and n == 2:
            m = e.fresh()
            return C(b.name, (tr(e, b.args[0], s0, m), tr(e, b.args[1], m, s)))
        if b.name in (';', '|') and n == 2:
            return C(';', (tr(e, b.args[0], s0, s), tr(e, b.args[1], s0, s)))
        if b.name == '\\+' and n == 1:
            return cj(C('\\+', (tr(e, b.args[0], s0, e.fresh()),)), eq(s0, s))
        if b.name == '{}' and n == 1:
            return cj(b.args[0], eq(s0, s))
        return C(b.name, tuple(b.args) + (s0, s))
    return C(b.name, (s0, s))


# ---------------------------------------------------------------- random grammars
class Gram:
    def __init__(self, r, pre):
        self.r, self.pre = r, pre
        self.nt = [(f'{pre}n{i}', r.choice([0, 0, 1, 1, 2, 3])) for i in range(r.choice([2, 3, 3, 4, 5]))]
        self.rules = []
        self.push = r.random() < .25        # pushback: an output argument given in advance may then be seen early
        for i, (n, a) in enumerate(self.nt):
            for k in range(r.choice([1, 2, 2, 3, 4])):
                self.vs = []
                self.lvl = i
                self.k = k
                head = self.nonterm(n, a)
                push = None
                if self.push and r.random() < .4:
                    push = [self.tok() for _ in range(r.choice([0, 1, 1, 2]))]
                self.rules.append(((n, a), head, push, self.body(r.choice([0, 1, 2, 2, 3]))))

    def var(self):
        r = self.r
        if self.vs and r.random() < .65:
            return r.choice(self.vs)
        v = Var('V%d' % len(self.vs))
        self.vs.append(v)
        return v

    def tok(self):
        r = self.r
        x = r.random()
        return A(r.choice(TOK)) if x < .75 else self.var() if x < .9 else r.choice([1, C('f', (self.var(),)), NIL, 97])

    def arg(self, d=1):
        r = self.r
        x = r.random()
        if x < .6:
            return self.var()
        if x < .85 or d == 0:
            return r.choice([A('a'), 0, 1, NIL, A('b')])
        return r.choice([lambda: C('s', (self.arg(0),)), lambda: C('.', (self.arg(0), self.arg(0)))])()

    def nonterm(self, n=None, a=None):
        r = self.r
        if n is None:
            n, a = r.choice(self.nt) if r.random() < .35 else r.choice(self.nt[min(self.lvl + 1, len(self.nt) - 1):])
        return C(n, [self.arg() for _ in range(a)]) if a else A(n)

    def goal(self):
        r = self.r
        v = self.var
        return r.choice([lambda: C('out', (v(),)), lambda: C('out', (v(),)), lambda: C('=', (v(), self.arg())), lambda: C('==', (v(), v())), lambda: A('true'), lambda: A('fail'), lambda: C('\\==', (v(), A('a'))), lambda: A('!'),
                         lambda: C(';', (C('=', (v(), A('a'))), C('=', (v(), A('b'))))), lambda: C(',', (C('var', (v(),)), C('=', (v(), 1)))), lambda: C('nonvar', (v(),)),
                         lambda: C(';', (C('->', (C('var', (v(),)), A('true'))), A('!'))), lambda: C('throw', (C('ball', (v(),)),)) if r.random() < .2 else A('true')])()

    def body(self, d):
        r = self.r
        x = r.random()
        if d == 0 or x < .16:
            y = r.random()
            if y < .42:
                return mklist([self.tok() for _ in range(r.choice([0, 1, 1, 1, 2, 3]))])
            if y < .7:
                return self.nonterm()
            if y < .84:
                return C('{}', (self.goal(),))
            if y < .9:
                return A('!')
            if y < .93:
                return C('call', [A(r.choice([n for n, a in self.nt]))] + [self.arg() for _ in range(r.choice([0, 0, 1, 2]))])
            if y < .95 and not self.push:
                return self.var()
            return mklist([97, 98][:r.choice([1, 2])])
        if x < .62:
            return C(',', (self.body(d - 1), self.body(d - 1)))
        if x < .78:
            return C(r.choice([';', ';', '|']), (self.body(d - 1), self.body(d - 1)))
        if x < .88:
            return C(';', (C(r.choice(['->', '->', '*->']), (self.body(d - 1), self.body(d - 1))), self.body(d - 1)))
        if x < .93:
            return C(r.choice(['->', '*->']), (self.body(d - 1), self.body(d - 1)))
        return C('\\+', (self.body(d - 1),))

    def text(self, style):
        out = []
        for (n, a), head, push, body in self.rules:
            h = text(head) + (', [%s]' % ', '.join(text(t) for t in push) if push is not None else '')
            rule = f'{h} --> {dtext(body, 0)}'
            if style == 'rule':
                out.append(rule + '.')
            else:
                out.append(f':- initialization((expand_term(({rule}), C__), assertz(C__))).')
        return '\n'.join(out) + '\n'

    def load(self, e):
        for (n, a), head, push, body in self.rules:
            s0, s = e.fresh(), e.fresh()
            b = tr(e, body, s0, s) if push is None else None
            if push is not None:
                m = e.fresh()
                b = C(',', (tr(e, body, s0, m), C('=', (s, cell(push, m)))))
            h = C(n, (tuple(head.args) if type(head) is C else ()) + (s0, s))
            e.add(h, b)


PR = {',': 1000, ';': 1100, '|': 1105, '->': 1050, '*->': 1050}


def dtext(b, _=0, mx=1200):
    if type(b) is C and len(b.args) == 2 and b.name in PR:
        p = PR[b.name]
        s = f'{dtext(b.args[0], 0, p - 1)} {b.name} {dtext(b.args[1], 0, p)}'
        return '(' + s + ')' if p > mx else s
    if type(b) is C and b.name == '\\+' and len(b.args) == 1:
        return '\\+ (' + dtext(b.args[0]) + ')'
    if type(b) is C and b.name == '{}' and len(b.args) == 1:
        return '{ ' + btext(b.args[0]) + ' }'
    if type(b) is C and b.name == '.' and elements(M.Engine(1), b) == [97, 98]:
        return '"ab"'
    return btext1(b)


def gquery(g):
    r = g.r
    g.vs = []
    g.lvl = -1
    n, a = r.choice(g.nt[:2])
    b = g.nonterm(n, a) if r.random() < .7 else g.body(r.choice([1, 2]))
    k = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])
    items = [A(r.choice(TOK)) if r.random() < .85 else r.choice([97, 98, 1, Var('I%d' % i)]) for i in range(k)]
    tail = Var('T') if r.random() < .15 else NIL
    l = cell(items, tail)
    x = r.random()
    t = [v for v in g.vs] + [Var('I%d' % i) for i in range(k)] + [Var('T'), Var('R')]
    if x < .5 or g.push and x < .85:
        q = C('phrase', (b, l, Var('R')))
    elif x < .7:
        q = C('phrase', (b, l))
    elif x < .85 or type(b) is C and b.name in PR or l is None:
        q = C('phrase', (b, l, cell(items[r.randrange(k + 1):], tail)))
    else:
        nm, ar = n, a
        q = None
        h = g.nonterm(n, a)
        q = C(n, (tuple(h.args) if type(h) is C else ()) + (l, Var('R')))
        t += g.vs
    return q, C('t', t)


def qtext(q):
    if q.name == 'phrase':
        return f'phrase(({dtext(q.args[0])}), ' + ', '.join(text(x) for x in q.args[1:]) + ')'
    return text(q)


def make(r, n, tag, style):
    cases, nr, nev = [], 0, 0
    pn = 0
    while len(cases) < n:
        g = Gram(r, f'{tag}{pn}_')
        pn += 1
        ok = []
        for _ in range(7):
            q, t = gquery(g)
            e = M.Engine(3000)
            e.ext = {('phrase', 2): phrase, ('phrase', 3): phrase}
            g.load(e)
            try:
                ev = e.case(q, t, MAX)
            except (M.Skip, RecursionError):
                continue
            if len(ev) < 2 and r.random() < .8 or len(str(ev)) > 40000:
                continue
            ok.append((q, t, ev))
        if not ok:
            continue
        nr += len(g.rules)
        for j, (q, t, ev) in enumerate(ok):
            nev += len(ev)
            pre = ''
            if j == 0:
                pre = ''.join(f':- discontiguous({n_}/{a + 2}).\n' for n_, a in g.nt) + g.text('rule') if style == 'rule' else g.text('dyn')
            c = Case(qtext(q), text(t), expect_events(ev), max=MAX, pre=pre)
            cases.append(c)
    return cases, nr, nev


EXPAND = [  # (rule, outcome): ill-formed rules
    ('(a --> 1)', 'type_error(callable,1)'), ('(X --> a)', 'instantiation_error'), ('(1 --> a)', 'type_error(callable,1)'), ('(a, b --> c)', 'type_error(list,b)'), ('(a, B --> c)', 'instantiation_error'), ('(a --> b, 2)', 'type_error(callable,2)'),
    ('(a --> (b ; 2.5))', 'type_error(callable,2.5)'), ('(a --> (1 -> b))', 'type_error(callable,1)'), ('(a --> \\+ 3)', 'type_error(callable,3)'), ('(a --> [x|T])', 'instantiation_error'), ('(a --> [x|y])', 'type_error(list,[x|y])'), ('(a --> b, [x|y], c)', 'type_error(list,[x|y])'),
    ('(1, [a] --> c)', 'type_error(callable,1)'), ('(X, [a] --> c)', 'instantiation_error'), ('(a --> (b *-> 7))', 'type_error(callable,7)'),
]


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c22/{seed}/{mode}/{i}')
    cases, nr, nev = make(r, n, 'g', 'rule' if mode in ('native', 'byte', 'meta', 'san') else 'dyn')
    if i == 0:
        for rule, o in EXPAND:
            cases.append(Case(f'expand_term({rule}, _)', 'none', formal_is(parse_t(o)), max=3))
    part.count('grammar rules', nr)
    part.count('events_compared', nev)
    m, s = ('byte', SYS) if mode == 'dyn' else ('native', SAN) if mode == 'san' else (mode, SYS)
    run_batch(part, s, cases, m, PRELUDE, name='dcg-' + mode, env=ROOMY)
    part.count('cases_' + mode, len(cases))


ROOMY = {'GLOBALSZ': '200000'}


def parse_t(s):
    from gpv import preader
    return preader.term(s)


def body():
    global SYS, SAN
    ck = Check('C22', rule='random grammars (terminals incl. variables and strings, pushback, {}, !, ;, |, ->, *->, \\+, call//N, variables as bodies, recursion, arguments), loaded as native code, byte-code or translated by expand_term/2 and asserted; '
               'queries through phrase/2-3 (bodies of every form, complete and partial lists, bound remainders) and direct calls; the events and all solutions in order are compared with a reference interpreter of grammar bodies; '
               'ill-formed rules must raise their documented errors')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 120, ck.seed) for i in range(ck.n(16, 200)) for m in ('native', 'byte', 'meta', 'dyn')]
    if SAN:
        jobs += [('san', i, 100, ck.seed) for i in range(40)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
