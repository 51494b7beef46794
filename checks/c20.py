#!/usr/bin/env python3
"""C20: global variables and arrays hold what was assigned."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.progcase import expect_events, PRELUDE
from gpv.proggen import btext
from gpv import mini as M
import random

A = Atom
MAX = 3
C = lambda n, *a: Cmp(n, list(a))
BITS = 61
IMAX, IMIN = (1 << 60) - 1, -(1 << 60)
ARR = ('g_array', 'g_array_auto', 'g_array_extend')


class Cell:
    """one global variable or array element: val is ('c', copied term), ('l', linked term) or ('a', cells, initial cell or None)"""
    __slots__ = ('val', 'undo')

    def __init__(self, val=('c', 0)):
        self.val = val
        self.undo = []


class G(M.Engine):
    def __init__(self, steps):
        super().__init__(steps)
        self.gv = {}
        self.st = {'assign': 0, 'read': 0, 'undone': 0, 'grown': 0, 'error': 0, 'sel': 0}

    # -- names
    def bad(self, dom, culprit):
        self.st['error'] += 1
        raise M.err(C('domain_error', A(dom), self.res(culprit)))

    def target(self, t):
        t = self.walk(t)
        if type(t) is Var:
            self.st['error'] += 1
            raise M.err(A('instantiation_error'))
        if type(t) not in (Atom, Cmp):
            self.st['error'] += 1
            raise M.typ('callable', t)
        if type(t) is Cmp and t.name == '-' and len(t.args) == 2:
            return self.selector(t)
        args = t.args if type(t) is Cmp else ()
        cell = self.gv.setdefault(t.name, Cell())
        if args and cell.val[0] != 'a':
            self.bad('g_array_index', t)
        for x in args:
            i = self.integer(x)
            if cell.val[0] != 'a' or i < 0:
                self.bad('g_array_index', t)
            _, cells, init = cell.val
            if i >= len(cells):
                if init is None or i > 1 << 20:
                    self.bad('g_array_index', t)
                n = 1
                while n <= i:
                    n *= 2
                if n > 3000:
                    raise M.Skip('size')
                self.st['grown'] += 1
                cell.val = ('a', cells + [self.dup(init) for _ in range(n - len(cells))], init)
            cell = cell.val[1][i]
        return cell, []

    def selector(self, t):
        cell, path = self.target(t.args[0])
        n = self.integer(t.args[1])
        self.st['sel'] += 1
        if cell.val[0] == 'a':
            self.bad('g_argument_selector', t)
        x = self.sub(cell, path)
        if type(x) is not Cmp:
            self.bad('g_argument_selector', t)
        if x.name == '.' and len(x.args) == 2:
            path = list(path)
            if n < 1:
                self.bad('g_argument_selector', t)
            for _ in range(n - 1):
                x = self.walk(x.args[1])
                path.append(1)
                if not (type(x) is Cmp and x.name == '.' and len(x.args) == 2):
                    self.bad('g_argument_selector', t)
            return cell, path + [0]
        if not 1 <= n <= len(x.args):
            self.bad('g_argument_selector', t)
        return cell, path + [n - 1]

    def sub(self, cell, path):
        x = self.walk(cell.val[1])
        for i in path:
            x = self.walk(x.args[i])
        return x

    def integer(self, t):
        t = self.walk(t)
        if type(t) is int:
            return t
        return self.gint(*self.target(t))

    def gint(self, cell, path):
        if cell.val[0] == 'a':
            self.st['error'] += 1
            raise M.typ('integer', A('g_array'))
        x = self.sub(cell, path)
        if type(x) is not int:
            self.st['error'] += 1
            raise M.typ('integer', self.copy(x) if cell.val[0] == 'c' else self.res(x))
        return x

    # -- elements
    def dup(self, c):
        if c.val[0] == 'a':
            _, cells, init = c.val
            return Cell(('a', [self.dup(x) for x in cells], self.dup(init) if init else None))
        return Cell(c.val)

    def forget(self, cell, deep=True):
        for u in cell.undo:
            u[2] = False
        cell.undo = []
        if deep and cell.val[0] == 'a':
            for x in cell.val[1]:
                self.forget(x)
            if cell.val[2]:
                self.forget(cell.val[2])

    def trail_undo(self, cell, saved):
        u = [cell, saved, True]
        cell.undo.append(u)
        self.trail.append((self.g_undo, u))

    def g_undo(self, u):
        if u[2]:
            u[0].val = u[1]
            u[0].undo = [x for x in u[0].undo if x is not u]
            self.st['undone'] += 1

    def check(self, t, skip=0):
        t = self.walk(t)
        if type(t) is not Cmp or t.name not in ARR:
            return
        a = self.walk(t.args[0])
        if type(a) is int:
            if a <= 0 or len(t.args) > 2:
                self.bad('g_array_index', t)
            if a > 3000:
                raise M.Skip('size')
            if len(t.args) == 2 and a > skip:
                self.check(t.args[1])
            return
        l = self.items(a)
        if not l or len(t.args) != 1:
            self.bad('g_array_index', t)
        for x in l[skip:]:
            self.check(x)

    def items(self, a):
        l = []
        while type(a) is Cmp and a.name == '.' and len(a.args) == 2:
            l.append(a.args[0])
            a = self.walk(a.args[1])
        return l if a is A('[]') else None

    def assign(self, cell, t, bt, copy):
        t = self.walk(t)
        saved = cell.val
        if type(t) is Cmp and t.name in ARR:
            ext = t.name == 'g_array_extend' and saved[0] == 'a'
            self.check(t, len(saved[1]) if ext else 0)
            a = self.walk(t.args[0])
            if type(a) is int:
                l = [t.args[1] if len(t.args) == 2 else 0] * a
            else:
                l = self.items(a)
            if ext:
                if not bt:
                    cells, init = list(saved[1]), saved[2]
                else:
                    cells, init = [self.dup(x) for x in saved[1]], self.dup(saved[2]) if saved[2] else None
            else:
                if not bt:
                    self.forget(cell)
                cells, init = [], None
                if t.name == 'g_array_auto':
                    init = Cell()
                    if len(t.args) == 2:
                        self.assign(init, t.args[1], False, copy)
            for x in l[len(cells):]:
                n = Cell()
                self.assign(n, x, False, copy)
                cells.append(n)
            cell.val = ('a', cells, init)
        else:
            if not bt:
                self.forget(cell)
            cell.val = ('c', self.copy(t)) if copy else ('l', t)
        if bt:
            self.trail_undo(cell, saved)

    def own(self, cell):
        """a modified linked term becomes a private copy"""
        if cell.val[0] == 'l':
            self.assign(cell, cell.val[1], False, True)

    def put(self, cell, path, t):
        def go(x, p):
            if not p:
                return t
            a = list(x.args)
            a[p[0]] = go(self.walk(a[p[0]]), p[1:])
            return Cmp(x.name, a)
        cell.val = ('c', go(self.walk(cell.val[1]), path))

    # -- reading
    def value(self, cell):
        k = cell.val
        if k[0] == 'l':
            return k[1]
        if k[0] == 'c':
            return self.copy(k[1])
        return C('g_array', mklist([self.value(x) for x in k[1]]))


def b_assign(bt, copy):
    def f(e, v, t):
        e.st['assign'] += 1
        cell, path = e.target(v)
        if not path:
            e.assign(cell, t, bt, copy)
            return True
        if bt:
            e.bad('g_argument_selector', v)
        e.own(cell)
        e.put(cell, path, e.copy(t))
        e.forget(cell)
        return True
    return f


def b_read(e, v, t):
    e.st['read'] += 1
    cell, path = e.target(v)
    if not path:
        return e.unify(e.value(cell), t)
    x = e.sub(cell, path)
    return e.unify(x if cell.val[0] == 'l' else e.copy(x), t)


def intarg(e, x):
    x = e.walk(x)
    if type(x) not in (int, Var):
        e.st['error'] += 1
        raise M.typ('integer', e.res(x))


def b_size(e, v, n):
    cell, path = e.target(v)
    intarg(e, n)
    return not path and cell.val[0] == 'a' and e.unify(len(cell.val[1]), n)


def modify(e, v, f):
    cell, path = e.target(v)
    old = e.gint(cell, path)
    return cell, path, old


def store(e, cell, path, n):
    if path:
        e.own(cell)
        e.put(cell, path, n)
    else:
        cell.val = ('c', n)


def b_inc(d, which):
    def f(e, v, *a):
        for x in a:
            intarg(e, x)
        old_w = a[0] if 'o' in which else None
        new_w = a[-1] if 'n' in which else None
        cell, path = e.target(v)
        old = e.gint(cell, path)
        new = old + d
        if not IMIN <= new <= IMAX:
            raise M.err(C('evaluation_error', A('int_overflow')))
        if old_w is not None and not e.unify(old, old_w):
            return False
        store(e, cell, path, new)
        return new_w is None or e.unify(new, new_w)
    return f


def b_bit(op):
    def f(e, v, b):
        b = e.walk(b)
        if type(b) is Var:
            raise M.err(A('instantiation_error'))
        if type(b) is not int:
            raise M.typ('integer', e.res(b))
        if b < 0:
            raise M.err(C('domain_error', A('not_less_than_zero'), b))
        m = 1 << b % BITS
        cell, path = e.target(v)
        x = e.gint(cell, path)
        if op == 'ts':
            return x & m != 0
        if op == 'tr':
            return x & m == 0
        x = (x | m if op == 's' else x & ~m) & ((1 << BITS) - 1)
        store(e, cell, path, x - (1 << BITS) if x >> (BITS - 1) else x)
        return True
    return f


M.BIP.update({('g_assign', 2): b_assign(False, True), ('g_assignb', 2): b_assign(True, True), ('g_link', 2): b_assign(True, False),
              ('g_read', 2): b_read, ('g_array_size', 2): b_size,
              ('g_inc', 1): b_inc(1, ''), ('g_inc', 2): b_inc(1, 'n'), ('g_inco', 2): b_inc(1, 'o'), ('g_inc', 3): b_inc(1, 'on'),
              ('g_dec', 1): b_inc(-1, ''), ('g_dec', 2): b_inc(-1, 'n'), ('g_deco', 2): b_inc(-1, 'o'), ('g_dec', 3): b_inc(-1, 'on'),
              ('g_set_bit', 2): b_bit('s'), ('g_reset_bit', 2): b_bit('r'), ('g_test_set_bit', 2): b_bit('ts'), ('g_test_reset_bit', 2): b_bit('tr')})


def conj(gs):
    gs = list(gs)
    if not gs:
        return A('true')
    t = gs[-1]
    for g in reversed(gs[:-1]):
        t = C(',', g, t)
    return t


class Gen:
    def __init__(self, r, tag):
        self.r = r
        self.names = [f'v{tag}_{i}' for i in range(r.choice([1, 2, 2, 3]))]
        self.k = f'k{tag}'
        self.vars = [Var('X%d' % i) for i in range(4)]
        self.nv = 0
        self.arrays = r.random()

    def var(self):
        self.nv += 1
        return Var('V%d' % self.nv)

    def idx(self):
        r = self.r
        k = r.random()
        if k < .72:
            return r.choice([0, 0, 1, 1, 2, 3, 4, 5])
        if k < .78:
            return r.choice([-1, 7, 9, 17, 40, 1 << 32, (1 << 32) + 1, -(1 << 40), IMAX, (1 << 20) + 1])
        if k < .95:
            return A(self.k) if r.random() < .7 else self.name(1)
        return r.choice([self.var(), 1.0, A('zz'), C('f', 1), self.r.choice(self.vars)])

    def name(self, d=0):
        r = self.r
        k = r.random()
        n = r.choice(self.names)
        if d > 1 or k < .45:
            return A(n)
        if k < .75:
            return C(n, *[self.idx() for _ in range(r.choice([1, 1, 1, 2, 2, 3]))])
        if k < .97:
            t = self.name(d + 1)
            for _ in range(r.choice([1, 1, 2])):
                t = C('-', t, r.choice([1, 1, 2, 2, 3, 0, 4]) if r.random() < .9 else self.idx())
            return t
        return r.choice([self.var(), 3, 1.5, mklist([1]), C('-', A(n), 1)])

    def term(self, d=0):
        r = self.r
        k = r.random()
        if d > 2 or k < .4:
            return r.choice([0, 1, 2, 3, -1, 5, A('a'), A('b'), 2.5, A('[]'), 1 << 50, IMAX, IMIN, A('foo bar'), -0.5])
        if k < .55:
            return r.choice(self.vars)
        if k < .6:
            return self.var()
        if k < .75:
            return mklist([self.term(d + 1) for _ in range(r.choice([1, 2, 3, 6]))], r.choice([A('[]')] * 5 + [self.vars[0]]))
        return Cmp(r.choice(['f', 'g', 'g_arr', '-']), [self.term(d + 1) for _ in range(r.choice([1, 2, 3, 3]))])

    def array(self, d=0):
        r = self.r
        f = r.choice(ARR)
        el = lambda: self.array(d + 1) if d < 2 and r.random() < .35 else self.term(1)
        k = r.random()
        if k < .05:
            return r.choice([C(f, 0), C(f, -1), C(f, mklist([])), C(f, mklist([1], Var('T'))), C(f, A('a')), C(f, 1.0), C(f, 2, 0, 0), C(f, mklist([1]), 2), C(f, self.var()),
                             C(f, mklist([1, C('g_array', 0), 3]))])
        if k < .3:
            return C(f, r.choice([1, 2, 3, 4, 5]))
        if k < .6:
            return C(f, r.choice([1, 2, 3, 5]), el())
        return C(f, mklist([el() for _ in range(r.choice([1, 2, 3, 4, 6]))]))

    def op(self):
        r = self.r
        k = r.random()
        v = self.name()
        if k < .30:
            return C(r.choice(['g_assign', 'g_assign', 'g_assignb', 'g_link']), v, self.array() if r.random() < self.arrays * .7 else self.term())
        if k < .36:
            return C('g_assign', A(self.k), r.choice([0, 1, 2, 3, 4, 6, 9]))
        if k < .58:
            return C('g_read', v, self.var() if r.random() < .7 else self.term())
        if k < .63:
            return C('g_array_size', v, r.choice([self.var(), self.var(), 2, 3, A('a')]))
        if k < .78:
            o, n = [r.choice([self.var(), self.var(), self.var(), 1, 2, A('a'), 1.0]) for _ in 'ab']
            i = r.choice(['inc', 'dec'])
            w = r.random()
            if w < .3:
                v = A(self.k)
            return r.choice([C('g_' + i, v), C('g_' + i, v, n), C('g_' + i + 'o', v, o), C('g_' + i, v, o, n)])
        if k < .9:
            b = r.choice([0, 1, 2, 5, 31, 32, 59, 60, 61, 62, 63, 64, 122, 1000]) if r.random() < .93 else r.choice([self.var(), -1, A('a'), 1.5])
            return C(r.choice(['g_set_bit', 'g_reset_bit', 'g_test_set_bit', 'g_test_reset_bit']), v, b)
        return C('=', r.choice(self.vars), self.term())

    def step(self):
        op = self.op()
        e = self.var()
        return C(';', C('->', C('catch', op, C('error', e, Var('_')), C(',', C('out', C('e', e)), A('fail'))), C('out', C('y', op))), C('out', A('n')))

    def ops(self, depth):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 3, 5])):
            if depth and r.random() < .4:
                b = self.ops(depth - 1)
                k = r.random()
                if k < .35:
                    out.append(C(';', C(',', b, A('fail')), C('out', A('bk'))))
                elif k < .5:
                    out.append(C('\\+', C('\\+', b)))
                elif k < .65:
                    out.append(C('catch', C(',', b, C('throw', A('x'))), A('x'), C('out', A('c'))))
                elif k < .8:
                    out.append(C(';', C('->', b, A('true')), A('true')))
                else:
                    out.append(C(',', C(';', b, self.ops(depth - 1)), C('out', A('alt'))))
            else:
                out.append(self.step())
            if r.random() < .3:
                out.append(self.dump())
        return conj(out)

    def dump(self):
        l = []
        for n in self.names + [self.k]:
            v = self.var()
            l += [C('g_read', A(n), v), C('out', C(n[0], v))]
        return conj(l)

    def query(self):
        r = self.r
        ini = [C('g_assign', A(self.k), r.choice([0, 1, 2, 3]))]
        for n in self.names:
            if r.random() < .6:
                ini.append(C('catch', C(r.choice(['g_assign', 'g_assign', 'g_assignb']), A(n), self.array() if r.random() < .7 else self.term()), C('error', self.var(), self.var()), A('true')))
        return C(';', conj(ini + [self.ops(3), self.dump(), C('out', C('x', *self.vars)), A('fail')]), self.dump())


def make(r, n, tag):
    cases = []
    st = {}
    k = nev = 0
    while len(cases) < n:
        g = Gen(r, f'{tag}x{k}')
        k += 1
        goal = g.query()
        e = G(20000)
        try:
            ev = e.case(goal, A('x'), MAX)
        except (M.Skip, RecursionError):
            continue
        if len(str(ev)) > 30000:
            continue
        nev += len(ev)
        for s in e.st:
            st[s] = st.get(s, 0) + e.st[s]
        cases.append(Case(btext(goal), 'x', expect_events(ev), max=MAX))
    return cases, st, nev


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c20/{seed}/{mode}/{i}')
    cases, st, nev = make(r, n, f'{mode[0]}{i}')
    part.count('events', nev)
    for s in st:
        part.count(s, st[s])
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRELUDE, name='gv-' + mode,
              env={'GLOBALSZ': '300000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C20', rule='random histories of g_assign/g_assignb/g_link of terms, arrays (fixed, extended, auto-growing, nested), element and sub-term selectors (direct and indirect), counters and bits, '
               'with erroneous selectors, run inside nested backtracking, exception and commit scopes; every result compared with a store kept by an interpreter; distinct by history')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('meta', i, 60, ck.seed) for i in range(ck.n(100, 2000))] + [('native', i, 40, ck.seed) for i in range(ck.n(16, 200))]
    if SAN:
        jobs += [('san', i, 60, ck.seed) for i in range(60)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
