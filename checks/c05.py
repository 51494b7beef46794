#!/usr/bin/env python3
"""C05: clause indexing never changes the answers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv import gen as G
import random

BIGI = [0, 1, -1, 2, 3, 7, 255, 256, 65536, -65536, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 32) + 1, 1 << 32, (1 << 60) - 1, -(1 << 60), (1 << 59), 1 << 40, (1 << 40) + 1]
ATS = ['a', 'b', 'c', '[]', '{}', 'foo', 'f', 'g', '.', 'x y', '', '1', 'é'.encode('latin-1').decode('latin-1'), '-', ',', 'a1', 'A']


def first(r, pal, varp):
    """a first argument for a clause head (variables named W*)"""
    if r.random() < varp:
        return Var('W0')
    k = r.choice(pal)
    if k == 'atom':
        return Atom(r.choice(ATS))
    if k == 'manyatom':
        return Atom('k%d' % r.randrange(200))
    if k == 'int':
        return r.choice(BIGI)
    if k == 'manyint':
        return r.randint(-50, 50)
    if k == 'stride':
        return r.randrange(64) * r.choice([8, 64, 1024, 1 << 32])
    if k == 'float':
        return r.choice([0.0, -0.0, 1.0, 1.5, 2.5, 1e300, -1.5])
    if k == 'list':
        return mklist([garg(r)], r.choice([NIL, Var('W1'), mklist([garg(r)])]))
    n = r.choice([1, 1, 2, 2, 3, 5])
    return Cmp(r.choice(['f', 'g', 'h', '.', 'foo', '[]', 'a', '-']) if r.random() < .8 else 's%d' % r.randrange(60), [garg(r) for _ in range(n if True else 2)])


def garg(r):
    k = r.random()
    if k < .4:
        return Var('W%d' % r.randrange(2, 4))
    if k < .7:
        return Atom(r.choice(['a', 'b', 'c']))
    if k < .9:
        return r.randint(0, 3)
    return Cmp('f', [Var('W2') if r.random() < .5 else 1])


PALS = [['atom'], ['int'], ['manyatom'], ['manyint'], ['list'], ['stc'], ['float'], ['stride'],
        ['atom', 'int'], ['atom', 'list'], ['list', 'stc'], ['atom', 'int', 'list', 'stc'], ['atom', 'int', 'float', 'list', 'stc'],
        ['manyint', 'manyatom', 'stc'], ['int', 'float'], ['manyatom', 'list', 'manyint', 'stc', 'float'], ['list', 'atom', 'atom'], ['stc', 'manyatom']]


def rename(t, sfx):
    if type(t) is Var:
        return Var(t.id + sfx)
    if type(t) is Cmp:
        return Cmp(t.name, [rename(a, sfx) for a in t.args])
    return t


def key(t):
    """what the first argument alone tells: None for a variable"""
    if type(t) is Var:
        return None
    if type(t) is Cmp:
        return ('s', t.name, len(t.args))
    return (type(t).__name__, t.name if type(t) is Atom else t)


class Pred:
    def __init__(self, r, name, big=0):
        self.name = name
        self.r = r
        pal = r.choice(PALS)
        varp = r.choice([0, 0, 0, .05, .15, .3])
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 16, 17, 33, 65, 130])
        self.extra = r.choice([0, 0, 1, 2])
        self.cls = []
        for i in range(n):
            a = first(r, pal, varp)
            ex = [r.choice([Var('W0'), Var('W5'), Atom('a'), 1, Cmp('f', [Var('W2')])]) for _ in range(self.extra)]
            k = r.random()
            body = None
            if k < .12 and type(a) is Var:
                # unification in the body can be used as an index
                body = r.choice([Cmp('=', (a, first(r, pal, 0))), Cmp('=', (first(r, pal, 0), a))])
            self.cls.append((a, ex, body))
        self.pal = pal

    def heads(self, i):
        a, ex, body = self.cls[i]
        return [a] + ex + [i]

    def text(self):
        out = []
        for i in range(len(self.cls)):
            a, ex, body = self.cls[i]
            h = text(Cmp(self.name, self.heads(i)))
            b = self.bodytext(i)
            out.append(h + (' :- ' + b if b else '') + '.')
        return '\n'.join(out) + '\n'

    def bodytext(self, i):
        body = self.cls[i][2]
        if body is None:
            return ''
        w = [paren(x) for x in body.args]
        return f'{w[0]} = {w[1]}'

    def asserts(self):
        out = []
        # built with asserta/assertz in an order giving the same final sequence
        n = len(self.cls)
        cut = self.r.randrange(n + 1)
        order = [('z', i) for i in range(cut, n)] + [('a', i) for i in range(cut - 1, -1, -1)]
        for k, i in order:
            h = text(Cmp(self.name, self.heads(i)))
            b = self.bodytext(i)
            out.append(f":- initialization(assert{k}(({h} :- {b or 'true'})))." )
        return '\n'.join(out) + '\n'

    def query(self):
        r = self.r
        k = r.random()
        if k < .12:
            a = Var('X')
        elif k < .65:
            a = r.choice(self.cls)[0]
            if type(a) is Cmp and r.random() < .4:
                a = G.mutate(r, a, [Var('Q1'), Var('Q2')], .3, .1)
        else:
            a = first(r, self.pal if r.random() < .5 else ['atom', 'int', 'manyint', 'float', 'list', 'stc'], 0)
        a = rename(a, 'q')
        ex = [r.choice([Var('E%d' % j), Var('E%d' % j), Atom('a'), 1, Cmp('f', [Var('E9')])]) for j in range(self.extra)]
        return a, ex

    def solve(self, a, ex):
        """clause numbers selected, with the argument after unification; candidates by first argument"""
        sols, cand = [], []
        for i in range(len(self.cls)):
            h = [rename(x, 'c') for x in self.heads(i)]
            s = {}
            c = self.cls[i][2]
            kc, kq = key(self.cls[i][0]), key(a)
            if kc is None or kq is None or kc == kq:
                cand.append(i)
            s = unify(mklist([a] + ex), mklist(h[:-1]), s)
            if s == 'cyclic':
                raise RecursionError
            if s is not None and c is not None:
                s = unify(rename(c.args[0], 'c'), rename(c.args[1], 'c'), s)
            if s == 'cyclic':
                raise RecursionError
            if s is None:
                continue
            sols.append((i, subst(mklist([a] + ex), s)))
        return sols, cand


def paren(t):
    s = text(t)
    return '(' + s + ')' if type(t) is Atom and not (s[0].isalnum() or s in ('[]', '{}')) else s


def make(r, npred, mode, pre):
    cases = []
    for pi in range(npred):
        p = Pred(r, f'{pre}{pi}')
        t = p.asserts() if mode == 'dyn' else (f':- dynamic({p.name}/{p.extra + 2}).\n' if mode == 'dyndecl' else '') + p.text()
        for qi in range(14):
            a, ex = p.query()
            try:
                sols, cand = p.solve(a, ex)
            except RecursionError:
                continue
            g = Cmp(p.name, [a] + ex + [Var('I__')])
            goal = text(g)
            tm = Cmp('s', [Var('I__'), mklist([a] + ex)])
            pretext, t = t, ''
            want = [Cmp('s', (i, v)) for i, v in sols]
            # determinism: all clauses told apart by their first argument, all heads distinct otherwise
            allnv = all(key(c[0]) is not None and type(c[0]) is not float for c in p.cls)
            det = allnv and type(a) not in (Var, float) and sols and sols[-1][0] == cand[-1]
            if det and r.random() < .6:
                goal = f'call_det({goal}, D__)'
                tm = Cmp('s', [Var('I__'), mklist([a] + ex), Var('D__')])
                nd = [Cmp('s', (i, v, Atom('true' if k == len(sols) - 1 else 'false'))) for k, (i, v) in enumerate(sols)]
                cases.append(Case(goal, text(tm), sols_are(nd), pre=pretext, key=None))
                cases[-1].note = 'det'
                continue
            cases.append(Case(goal, text(tm), sols_are(want), pre=pretext))
            cases[-1].note = ''
    return cases


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c05/{seed}/{mode}/{i}')
    if mode == 'bigtable':
        return big(part, r, i)
    cases = make(r, n, mode, 'p')
    m = {'dyn': 'byte', 'dyndecl': r.choice(['byte', 'native']), 'san': 'native'}.get(mode, mode)
    for c in cases:
        part.count('determinism checked', c.note == 'det')
    run_batch(part, SAN if mode == 'san' else SYS, cases, m, ':- discontiguous(x__/0).\n', name='idx-' + mode)
    part.count('cases_' + mode, len(cases))


def big(part, r, i):
    """large fact tables: present and absent keys, full scan order"""
    mode = r.choice(['native', 'native', 'byte', 'dyn'])
    n = r.choice([300, 1000, 2000, 4000]) if i != 45 and not THO else r.choice([5000, 10000, 20000])
    kind = r.choice(['int', 'intstride', 'atom', 'mixed', 'stc', 'dup'])
    keys = []
    for i in range(n):
        if kind == 'int':
            k = i * 3
        elif kind == 'intstride':
            k = i * r.choice([4096, 1 << 20]) if r.random() < .5 else -i * 64 - 1
        elif kind == 'atom':
            k = Atom('key_%d' % (i * 7))
        elif kind == 'stc':
            k = Cmp('s%d' % (i % 500), [i // 500]) if i % 3 else Cmp('t', [i, i])
        elif kind == 'dup':
            k = r.randrange(n // 4)
        else:
            k = r.choice([i, Atom('k%d' % i), float(i), Cmp('f', [i]), mklist([i])])
        keys.append(k)
    idx = {}
    for i, k in enumerate(keys):
        idx.setdefault(text(k), []).append(i)
    facts = ''.join(f'tb({text(k)},{i}).\n' for i, k in enumerate(keys))
    if mode == 'dyn':
        facts = ''.join(f':- initialization(assertz(tb({text(k)},{i}))).\n' for i, k in enumerate(keys)) if n <= 3000 else ':- dynamic(tb/2).\n' + facts
    cases = []
    for q in range(150):
        k = r.choice(keys) if r.random() < .7 else r.choice([r.randrange(-5, 5 * n), Atom('key_%d' % r.randrange(8 * n)), Cmp('s%d' % r.randrange(600), [r.randrange(20)]), Atom('zz%d' % q), (1 << 60) - 1 - q])
        w = idx.get(text(k), [])
        if kind != 'mixed' and type(k) is not Cmp and w and r.random() < .5:
            nd = [mklist([i, Atom('true' if j == len(w) - 1 else 'false')]) for j, i in enumerate(w)]
            cases.append(Case(f'call_det(tb({text(k)},I__), D__)', '[I__,D__]', sols_are(nd)))
        else:
            cases.append(Case(f'tb({text(k)},I__)', 'I__', sols_are(w)))
    cases.append(Case('findall(I, tb(_,I), L__), length(L__, N__), msort(L__, M__), (L__ == M__ -> O__ = ordered ; O__ = L__)', '[N__,O__]', sols_are([mklist([n, Atom('ordered')])])))
    ls = r.randrange(n)
    cases.append(Case(f'tb(K__,{ls})', 'K__', sols_are([keys[ls]])))
    cases[0].pre = facts
    run_batch(part, SYS, cases, 'byte' if mode == 'dyn' else mode, '', name='idx-big-' + mode, timeout=300)
    part.count('table facts ' + mode, n)
    part.count('cases_bigtable', len(cases))


def body():
    global SYS, SAN, THO
    ck = Check('C05', rule='random predicates (1..130 clauses; first arguments of every type, with and without variables, body unifications usable as indexes) and tables up to 25000 facts, '
               'called with bound, partial and unbound first arguments; ordered clause numbers and the determinism flag of call_det/2 are compared with head unification; '
               'distinct by predicate text, call and mode')
    THO = ck.thorough
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('bigtable', i, 0, ck.seed) for i in range(ck.n(40, 300))]
    jobs += [(m, i, 40, ck.seed) for i in range(ck.n(25, 250)) for m in ('native', 'native', 'byte', 'dyn', 'dyndecl')]
    jobs = [(m, i * 5 + (k % 5), n, s) for k, (m, i, n, s) in enumerate(jobs)]
    if SAN:
        jobs += [('san', i, 30, ck.seed) for i in range(30)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
