#!/usr/bin/env python3
"""C15: the operator table is exactly what op/3 declared."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv import gen as G
from gpv.optab import *
from gpv import ptext as P
from gpv.run import Sys
import random

NAMES = ['aa', 'bb', 'is', 'mod', '+', '-', '*', '=', ':-', '->', ';', '|', '^', '\\+', '&&', 'A b', '', '\xe9\xe9', '+++', '@', 'dynamic', 'zz1', '#=', '->>', "it's", '!', '$', 'x' * 40] + ['o%d' % i for i in range(6)]

PRE = r"""
dop(P,T,O) :- current_op(P,T,O).
rs :- findall(op(P,T,O), current_op(P,T,O), L), rs1(L), defs(D), rs2(D).
rs1([]).
rs1([op(_,_,',')|L]) :- !, rs1(L).
rs1([op(P,T,O)|L]) :- ( defs(D), member(op(P,T,O), D) -> true ; op(0,T,O) ), rs1(L).
rs2([]).
rs2([op(_,_,',')|L]) :- !, rs2(L).
rs2([op(P,T,O)|L]) :- ( current_op(P,T,O) -> true ; op(P,T,O) ), rs2(L).
vh(Ops, X) :- rs, hs(Ops, X).
hs([G|_], step(R)) :- catch((G -> R = yes ; R = no), E, (E = error(F,_) -> R = err(F) ; R = err(E))).
hs([_|L], X) :- hs(L, X).
hs([], X) :- findall(op(P,T,O), current_op(P,T,O), L), X = table(L).
% probes
rd(A, X) :- catch((read_term_from_atom(A, T, [end_of_term(eof)]), X = t(T)), error(E, _), (E = syntax_error(_) -> X = syntax ; X = err(E))).
pr(L, A, X) :- vp(L), X = A.
vp([]).
vall(Ops, Txts, Terms, X) :- vh(Ops, X0), ( X0 = table(_) -> ( X = X0 ; member(A, Txts), rd(A, R), X = rd(R) ; member(T, Terms), writeq_to_atom(A, T), X = wr(A) ) ; X = X0 ).
"""


def opt(p, t, n):
    return f'op({p},{t},{n})'


def optxt(k):
    return qatom(k)


class Model:
    def __init__(self):
        self.t = dict(DEF)

    def op(self, p, ty, names):
        """list of possible error formals (any acceptable) or None; changes the table"""
        for n in names:
            e = self.err(p, ty, n)
            if e:
                return e
            k = (n, cls(ty))
            if p:
                self.t[k] = (p, ty)
            else:
                self.t.pop(k, None)

    def err(self, p, ty, n):
        perm = lambda a, b: Cmp('permission_error', [Atom(a), Atom('operator'), Atom(b)])
        if n == ',':
            return [perm('modify', ',')] + ([perm('create', ',')] if cls(ty) == 'postfix' else [])
        if n in ('[]', '{}'):
            return [perm('create', n)]
        if n == '|' and (cls(ty) != 'infix' or 0 < p <= 1000):
            return [perm('create', '|')]
        o = {'infix': 'postfix', 'postfix': 'infix'}.get(cls(ty))
        if o and (n, o) in self.t:
            return [perm('create', n)]


def rstep(r, m):
    """(goal text, expected: 'yes' or list of formals)"""
    p = r.choice([0, 0, 1, 199, 200, 201, 399, 400, 500, 699, 700, 701, 900, 999, 1000, 1001, 1100, 1199, 1200, r.randint(0, 1200)])
    ty = r.choice(SPEC)
    k = r.random()
    if k < .72:
        n = r.choice(NAMES)
        if n == '|' and 1000 < p <= 1100:
            p = 1150
        if r.random() < .1:
            # several names
            ns = [x for x in (r.choice(NAMES) for _ in range(r.choice([1, 2, 3, 5]))) if x != '|'] or ['aa']
            e, ns2 = None, []
            m2 = Model()
            m2.t = dict(m.t)
            if m2.op(p, ty, ns):
                ns = [x for x in ns if not m.err(p, ty, x) and x not in ns2][:1] or ['o9']
            e = m.op(p, ty, ns)
            return opt(p, ty, '[' + ','.join(map(qatom, ns)) + ']'), e or 'yes'
        e = m.op(p, ty, [n])
        return opt(p, ty, qatom(n)), e or 'yes'
    if k < .82:
        n = r.choice([',', '[]', '{}', '|', '|'])
        if n == '|':
            p = r.choice([0, 1, 700, 999, 1000, 1105, 1200])
        e = m.op(p, ty, [n])
        return opt(p, ty, qatom(n)), e or 'yes'
    n = qatom(r.choice(NAMES))
    inst, tye, dom = Atom('instantiation_error'), (lambda a, b: Cmp('type_error', [Atom(a), b])), (lambda a, b: Cmp('domain_error', [Atom(a), b]))
    nm = Atom(r.choice(['aa', 'bb', 'o1']))
    if any(m.err(p, ty, nm.name) or [] for _ in [0]):
        ty = 'fy'
    q = qatom(nm.name)
    j = r.randrange(13)
    if j == 0:
        return opt('_', ty, q), [inst]
    if j == 1:
        return opt(p, '_', q), [inst]
    if j == 2:
        return opt(p, ty, '_'), [inst]
    if j == 3:
        return opt(p, ty, '[_|_]' if r.random() < .5 else '[aa|_]' if False else '[_]'), [inst]
    if j == 4:
        x = r.choice([Atom('a'), 1.0, Cmp('f', [1]), NIL])
        return opt(text(x), ty, q), [tye('integer', x)]
    if j == 5:
        x = r.choice([1, 1.5, Cmp('f', [1])])
        return opt(p, text(x), q), [tye('atom', x)]
    if j == 6:
        x = r.choice([1, 1.5, Cmp('f', [1])])
        return opt(p, ty, text(x)), [tye('list', x)]
    if j == 7:
        x = r.choice([1, 1.5, Cmp('f', [1])])
        return opt(p, ty, f'[{text(x)}]'), [tye('atom', x)]
    if j == 8:
        x = r.choice([-1, 1201, 1 << 32, (1 << 32) + 700, -(1 << 31), 65536 + 700, (1 << 60) - 1])
        return opt(x, ty, q), [dom('operator_priority', x)]
    if j == 9:
        x = Atom(r.choice(['xx', 'f', 'xfxx', 'yfy', '', 'XFX', 'fz', 'x f']))
        return opt(p, text(x), q), [dom('operator_specifier', x)]
    if j == 10:
        x = r.choice([1201, -1, 1.0, Atom('a'), (1 << 32) + 200])
        return f'dop({text(x)},_,_)', [dom('operator_priority', x)]
    if j == 11:
        x = r.choice([Atom('xx'), 1, Cmp('f', [1])])
        return f'dop(_,{text(x)},_)', [dom('operator_specifier', x)]
    x = r.choice([1, 1.5, Cmp('f', [1])])
    return f'dop(_,_,{text(x)})', [tye('atom', x)]


def query(r, m):
    """a current_op call with bound arguments"""
    n = r.choice(NAMES + [','])
    ent = [(k, v) for k, v in m.t.items() if k[0] == n]
    k = r.random()
    if ent and k < .5:
        (nn, c), (p, t) = r.choice(ent)
    else:
        p, t = r.randint(1, 1200), r.choice(SPEC)
    hit = any(v == (p, t) for kk, v in ent)
    return f'dop({p},{t},{qatom(n)})', 'yes' if hit else 'no'


def probe(r, m, names):
    """(text, expected term or None = syntax error) using one or two operators between plain atoms"""
    n = r.choice(names)
    a, b, c = Atom('xx'), Atom('yy'), Atom('ww')
    inf, pre, post = (m.t.get((n, k)) for k in ('infix', 'prefix', 'postfix'))
    q = qatom(n) if not P.plain_atom(n) or r.random() < .1 else n
    if n in (',', '|'):
        q = n
    j = r.randrange(7)
    mx = r.choice([1200, 999])
    W = (lambda s: s) if mx == 1200 else (lambda s: f'g({s})')
    T = (lambda t: t) if mx == 1200 else (lambda t: Cmp('g', [t]))
    if n == ',' and (mx == 999 or j != 0):
        return None
    if n in ('|', '') and (mx == 999 or q != '|' and False):
        return None
    if j == 0:
        s = f'xx {q} yy'
        if inf and not pre:
            return W(s), T(Cmp(n, [a, b])) if inf[0] <= mx else None
        if not inf and not pre:
            return W(s), None
        if inf and pre:
            return W(s), T(Cmp(n, [a, b])) if inf[0] <= mx else None
        return None
    if j == 1:
        s = f'{q} yy'
        if pre and not inf and not post:
            return (W(s), T(Cmp(n, [b]))) if pre[0] <= mx else None
        if not pre and not (n == '|'):
            return W(s), None
        return None
    if j == 2:
        s = f'xx {q}'
        if pre or n == '|':
            return None
        if post:
            return W(s), T(Cmp(n, [a])) if post[0] <= mx else None
        return W(s), None
    if j == 3:
        if pre or n == '|':
            return None
        s = f'xx {q} yy {q} ww'
        if not inf:
            return W(s), None
        p, t = inf
        if t == 'xfx' or p > mx:
            return W(s), None
        return W(s), T(Cmp(n, [Cmp(n, [a, b]), c]) if t == 'yfx' else Cmp(n, [a, Cmp(n, [b, c])]))
    if j == 4:
        if inf or post or n == '|':
            return None
        if not pre:
            return None
        s = f'{q} ({q} yy)' if r.random() < .3 else f'{q} {q} yy'
        if pre[1] == 'fx' and '(' not in s:
            return None         # an operator as an atom may be an operand
        return (W(s), T(Cmp(n, [Cmp(n, [b])]))) if pre[0] <= mx else None
    if j == 5:
        if pre or not post:
            return None
        s = f'xx {q} {q}'
        return W(s), (T(Cmp(n, [Cmp(n, [a])])) if post[1] == 'yf' and post[0] <= mx else None)
    # two infix operators
    n2 = r.choice(names)
    i2 = m.t.get((n2, 'infix'))
    if n2 == n or not inf or not i2 or pre or m.t.get((n2, 'prefix')) or n in ('|', ',') or n2 in ('|', ','):
        return None
    q2 = qatom(n2) if not P.plain_atom(n2) else n2
    s = f'xx {q} yy {q2} ww'
    (p1, t1), (p2, t2) = inf, i2
    left = Cmp(n2, [Cmp(n, [a, b]), c])
    right = Cmp(n, [a, Cmp(n2, [b, c])])
    l_ok = p1 <= p2 - (t2[0] == 'x') and p2 <= mx
    r_ok = p2 <= p1 - (t1[2] == 'x') and p1 <= mx
    if l_ok and r_ok:
        return None
    return W(s), T(left) if l_ok else T(right) if r_ok else None


def wprobe(r, m, names):
    """(term, predicate on the text written)"""
    n = r.choice(names)
    if n in ('|', ',', '[]', '{}'):
        return None
    if r.random() < .5:
        t = Cmp(n, [Atom('xx'), Atom('yy')])
        return t, ((n, 'infix') in m.t), n
    t = Cmp(n, [Atom('xx')])
    return t, ((n, 'prefix') in m.t or (n, 'postfix') in m.t), n


def make(r):
    m = Model()
    steps, exp = [], []
    for _ in range(r.choice([1, 3, 6, 12, 25])):
        g, e = query(r, m) if r.random() < .2 else rstep(r, m)
        steps.append(g)
        exp.append(e)
    names = [n for n in NAMES if any((n, k) in m.t for k in ('infix', 'prefix', 'postfix')) or r.random() < .2] + [',']
    probes = [x for x in (probe(r, m, names) for _ in range(25)) if x]
    wps = [x for x in (wprobe(r, m, names) for _ in range(10)) if x]
    tab = dict(m.t)

    def ex(o):
        if o.state != 'end':
            return 'did not end'
        s = o.sols
        if len(s) != len(exp) + 1 + len(probes) + len(wps):
            return f'{len(s)} results'
        for g, e, x in zip(steps, exp, s):
            v = x.args[0]
            if e in ('yes', 'no'):
                if v is not Atom(e):
                    return f'{g} gave {ts(v)}, expected {e}'
            elif not (type(v) is Cmp and v.name == 'err' and any(same(v.args[0], f) for f in e)):
                return f'{g} gave {ts(v)}, expected error ' + ' or '.join(ts(f) for f in e)
        t = s[len(exp)]
        got = {}
        try:
            for x in unlist(t.args[0]):
                k = (x.args[2].name, cls(x.args[1].name))
                if k in got:
                    return f'{k} enumerated twice'
                got[k] = (x.args[0], x.args[1].name)
        except (ValueError, AttributeError, IndexError):
            return 'bad table'
        if got != tab:
            d = [(k, got.get(k), tab.get(k)) for k in set(got) | set(tab) if got.get(k) != tab.get(k)]
            return f'table differs (operator, reported, declared): {d[:5]}'
        i = len(exp) + 1
        for (s_, e), x in zip(probes, s[i:]):
            v = x.args[0]
            if e is None:
                if v is not Atom('syntax'):
                    return f'{s_!r} read as {ts(v)}, expected a syntax error; ops {show(tab, s_)}'
            elif not (type(v) is Cmp and v.name == 't' and same(v.args[0], e)):
                return f'{s_!r} read as {ts(v)}, expected {ts(e)}; ops {show(tab, s_)}'
        for (t_, isop, n), x in zip(wps, s[i + len(probes):]):
            a = x.args[0].name
            func = a.endswith(')') and '(' in a and (a.startswith(n + '(') or a.startswith("'"))
            if func == isop:
                return f'{ts(t_)} written as {a}; operator: {isop}'
    q = '[' + ','.join(steps) + ']'
    tx = '[' + ','.join(qatom(s) for s, e in probes) + ']'
    tm = '[' + ','.join(text(t) for t, _, _ in wps) + ']'
    return Case(f'vall({q}, {tx}, {tm}, X)', 'X', ex, key=None), len(steps), len(probes) + len(wps)


def show(tab, s):
    return {k: v for k, v in tab.items() if k[0] and k[0] in s and k[0] not in ('x', 'g')}


DEFS = None


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c15/{seed}/{mode}/{i}')
    cases = []
    for _ in range(n):
        c, a, b = make(r)
        cases.append(c)
        part.count('op calls', a)
        part.count('reading and writing probes', b)
    pre = PRE + 'defs([' + ','.join(f'op({p},{t},{qatom(n)})' for (n, k), (p, t) in DEF.items()) + ']).\n'
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, pre, name='op-' + mode,
              env={'GLOBALSZ': '200000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C15', rule='random histories of op/3 calls (valid, forbidden, ill-typed, lists) and current_op/3 queries; the whole table enumerated afterwards; texts with one or two operators read '
               'and terms written, compared with a table model; distinct by history')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(('meta', 'meta', 'byte', 'native')[i % 4], i, 40, ck.seed) for i in range(ck.n(400, 4000))]
    if SAN:
        jobs += [('san', i, 30, ck.seed) for i in range(24)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
