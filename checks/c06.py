#!/usr/bin/env python3
"""C06: integer arithmetic exact or an error, in every execution mode."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv import arith as A

BOUND = sorted({s * v for s in (1, -1) for v in
                [0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 60, 61, 62, 63, 64, 65, 255, 256, 1000, 65535, 65536, 1 << 20, (1 << 30) - 1, 1 << 30,
                 (1 << 30) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 3037000499, 3037000500,
                 1073741823, 1073741824, 1 << 45, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, 1 << 58, (1 << 59) - 1, 1 << 59, (1 << 59) + 1,
                 A.IMAX - 1, A.IMAX]} | {A.IMIN, A.IMIN + 1, A.IMIN // 2, A.IMIN // 2 - 1})


def rint(r):
    k = r.random()
    if k < .5:
        return r.choice(BOUND)
    if k < .7:
        return r.randint(-20, 20)
    v = r.getrandbits(r.randint(1, 60))
    return -v if r.random() < .5 else v


def shiftarg(r):
    return r.choice([0, 1, 2, 3, 7, 8, 30, 31, 32, 33, 52, 58, 59, 60, 61, 62, 63, 64, 65, 100, -1, -2, -31, -32, -59, -60, -61, -62, -63, -64, -65, -100,
                     A.IMAX, A.IMIN, A.IMIN + 1, 1 << 32, -(1 << 32), r.randint(-70, 70)])


DIRECT = [True]       # ill-typed operands written in place (compiled code rejects those at compile time)


def leaf(r, env, bad=0.0):
    k = r.random()
    if bad and r.random() < bad:
        k2 = r.random()
        if k2 < .3:
            v = r.choice([0.0, 1.0, -2.5, 1e300, 3.5])
        elif k2 < .5:
            v = Atom(r.choice(['foo', 'a', '[]', 'inf', 'random']))
        elif k2 < .7:
            v = Var('U%d' % r.randint(0, 3))
        elif k2 < .85:
            v = Cmp(r.choice(['foo', 'bar', '+', 'mod']), [rint(r)] * r.choice([1, 3]))
            if v.name == '+' and len(v.args) == 1:
                v = Cmp('foo', v.args)
        else:
            v = mklist([r.choice([rint(r), Atom('x'), 1.5, Cmp('+', (1, 2)), Var('U0')])] * r.choice([1, 2]))
        if r.random() < .5 and DIRECT[0]:
            return v
    else:
        v = rint(r)
        if k < .06:
            v = mklist([v])
        if k < .5:
            return v
    n = 'V%d' % len(env)
    env[n] = v
    return Var(n)


def expr(r, env, depth, bad=0.0):
    if depth == 0 or r.random() < .1:
        return leaf(r, env, bad)
    if r.random() < .3:
        return Cmp(r.choice(A.INT_UN + A.ROUND[:1]), [expr(r, env, depth - 1, bad)])
    op = r.choice(A.INT_BI)
    x = expr(r, env, depth - 1, bad)
    if op in ('<<', '>>'):
        y = shiftarg(r) if r.random() < .8 else expr(r, env, depth - 1, bad)
    elif op == '^':
        y = r.choice([0, 1, 2, 3, 4, 5, 7, 13, 20, 31, 59, 60, 61, 62, 63, 64, 65, 1000, A.IMAX, A.IMIN, -1, -2, -3])
        if r.random() < .6:
            x = r.choice([0, 1, -1, 2, -2, 3, -3, 4, 5, 7, 10, -10, 1 << 10, 1 << 15, 1 << 20, 1 << 30, -(1 << 30), 1 << 31, r.randint(-2000, 2000)])
    else:
        y = expr(r, env, depth - 1, bad)
    return Cmp(op, [x, y])


def binds(r, env):
    out = []
    for n, v in env.items():
        t = text(v)
        k = r.random()
        if k < .4 and type(v) is not Var:
            out.append(f"{n} = {t}")
        elif k < .7:
            out.append(f"'$k'({t},{n})")
        else:
            out.append(f"{n}_ = f({n}_1, {n}), '$k'({t},{n}_1), {n}_1 = {n}")
    return ''.join(o + ', ' for o in out)


def expect_val(res):
    def f(o):
        if res[0] == 'v':
            if o.state == 'end' and len(o.sols) == 1 and A.value_matches(o.sols[0], res[1]):
                return None
            return 'expected value %r' % (res[1],)
        if o.state == 'exc' and not o.sols and o.formal is not None and any(same(o.formal, x) for x in res[1]):
            return None
        return 'expected error ' + ' or '.join(ts(x) for x in res[1])
    return f


def expect_bool(res):
    def f(o):
        if res[0] == 'e':
            return expect_val(res)(o)
        if o.state == 'end' and len(o.sols) == (1 if res[1] else 0):
            return None
        return 'expected %s' % res[1]
    return f


def gen_is(r, bad):
    env = {}
    e = expr(r, env, r.choice([1, 1, 1, 1, 2, 2, 3, 4]), bad)
    res = A.evaluate(e, env)
    k = r.random()
    if k < .8 or res[0] == 'e':
        return Case(binds(r, env) + f'R is {text(e)}', 'R', expect_val(res))
    # result argument already bound: right value, wrong value, float of same value
    v = res[1]
    w = r.choice([v, v, v + 1 if type(v) is int else v, v - 1 if type(v) is int else v])
    if w > A.IMAX or w < A.IMIN:
        w = 0
    if r.random() < .2:
        return Case(binds(r, env) + f'{text(float(w)) if type(w) is int else text(w)} is {text(e)}', 'true',
                    lambda o: None if o.state == 'end' and not o.sols or type(w) is float else 'expected failure')
    return Case(binds(r, env) + f'{text(w)} is {text(e)}', 'true', expect_bool(('v', A.value_matches(w, v))))


def gen_cmp(r, bad):
    env = {}
    op = r.choice(['=:=', '=\\=', '<', '=<', '>', '>='])
    e1 = expr(r, env, r.choice([0, 0, 1, 2]), bad)
    if r.random() < .3:
        e2 = e1
    else:
        e2 = expr(r, env, r.choice([0, 0, 1, 2]), bad)
    a, b = A.evaluate(e1, env), A.evaluate(e2, env)
    if a[0] == 'e' or b[0] == 'e':
        res = ('e', (a[1] if a[0] == 'e' else []) + (b[1] if b[0] == 'e' else []))
    else:
        res = ('v', A.compare_nums(op, a[1], b[1]))
    return Case(binds(r, env) + f"'{op}'({text(e1)},{text(e2)})".replace('\\', '\\\\') if op == '=\\=' and '\\' not in text(e1) + text(e2)
                else binds(r, env) + f"{text(e1)} {op} {text(e2)}", 'true', expect_bool(res))


def gen_succ(r, bad):
    env = {}
    k = r.random()
    vals = [0, 1, 2, 5, A.IMAX, A.IMAX - 1, -1, -5, A.IMIN, 1 << 32, r.getrandbits(40)]

    def arg(v):
        if r.random() < .4:
            return text(v)
        n = 'V%d' % len(env)
        env[n] = v
        return n
    TI = lambda x: Cmp('type_error', (Atom('integer'), x))
    NZ = lambda x: [Cmp('type_error', (Atom('not_less_than_zero'), x)), Cmp('domain_error', (Atom('not_less_than_zero'), x))]
    if k < .35:
        x = r.choice(vals)
        if x < 0:
            res = ('e', NZ(x))
        elif x == A.IMAX:
            res = ('e', [Cmp('evaluation_error', (Atom('int_overflow'),))])
        else:
            res = ('v', x + 1)
        g = f'succ({arg(x)}, R)'
        return Case(binds(r, env) + g, 'R', expect_val(res))
    if k < .7:
        y = r.choice(vals)
        if y < 0:
            res = ('e', NZ(y))
        elif y == 0:
            g = f'succ(R, {arg(y)})'
            return Case(binds(r, env) + g, 'R', expect_bool(('v', False)))
        else:
            res = ('v', y - 1)
        g = f'succ(R, {arg(y)})'
        return Case(binds(r, env) + g, 'R', expect_val(res))
    if k < .9:
        x = r.choice(vals)
        y = r.choice([x + 1, x + 1, x, x - 1, r.choice(vals)])
        if y > A.IMAX or y < A.IMIN:
            y = 0
        if x < 0 or y < 0:
            res = ('e', (NZ(x) if x < 0 else []) + (NZ(y) if y < 0 else []))
        else:
            res = ('v', y == x + 1)
        g = f'succ({arg(x)}, {arg(y)})'
        return Case(binds(r, env) + g, 'true', expect_bool(res))
    x, y, fs = r.choice([('P', 'Q', [Atom('instantiation_error')]), ('a', 'Q', [TI(Atom('a'))]), ('P', 'a', [TI(Atom('a'))]), ('1.5', 'Q', [TI(1.5)]),
                         ('3', '4.0', [TI(4.0)]), ('f(x)', '1', [TI(Cmp('f', (Atom('x'),)))])])
    return Case(f'succ({x},{y})', 'true', expect_bool(('e', fs)))


def gen(r, fast):
    if fast:
        while True:
            c = gen_is(r, 0) if r.random() < .7 else gen_cmp(r, 0)
            return c
    k = r.random()
    bad = r.choice([0, 0, 0, .25])
    if k < .7:
        return gen_is(r, bad)
    if k < .9:
        return gen_cmp(r, bad)
    return gen_succ(r, bad)


def fast_ok(c):
    return '[' not in c.goal and not any(o in c.goal for o in ('ceiling', '.', 'max', 'min'))


def work(part, arg):
    mode, i, n, seed = arg
    import random
    r = random.Random(f'c06/{seed}/{mode}/{i}')
    DIRECT[0] = mode not in ('native', 'fast')
    cases = []
    while len(cases) < n:
        c = gen(r, mode == 'fast')
        if mode == 'fast':
            if not fast_ok(c):
                continue
        cases.append(c)
    s = SAN if mode.startswith('san') else SYS
    m = {'fast': 'native', 'sanbyte': 'byte'}.get(mode, mode)
    run_batch(part, s, cases, m, "'$k'(X,X).\n", name='arith-' + mode, opts='--fast-math' if mode == 'fast' else '')
    part.count('cases_' + mode, len(cases))


def table(part, seed):
    """every operator on every pair of a small boundary set, one loop, values compared with the model"""
    import random
    r = random.Random(f'c06t/{seed}')
    small = sorted(set(r.sample(BOUND, 22)) | {0, 1, -1, 2, -2, A.IMAX, A.IMIN, 60, 61, 63, -60, -61})
    ops = A.INT_BI
    lst = '[' + ','.join(map(str, small)) + ']'
    prog = f"vals({lst}).\n" + ''.join(f"op({i},X,Y,Z) :- Z is {text(Cmp(o, (Var('X'), Var('Y'))))}.\n" for i, o in enumerate(ops)) + \
        ''.join(f"un({i},X,Z) :- Z is {text(Cmp(o, (Var('X'),)))}.\n" for i, o in enumerate(A.INT_UN))
    cases = []
    for i, o in enumerate(ops):
        want = [A.evaluate(Cmp(o, (x, y))) for x in small for y in small]
        cases.append(Case(f"vals(L), member(X,L), member(Y,L), catch(op({i},X,Y,R0), error(E,_), R0=e(E)), R = r(X,Y,R0)", 'R', tab_expect(o, want, [(x, y) for x in small for y in small])))
    for i, o in enumerate(A.INT_UN):
        want = [A.evaluate(Cmp(o, (x,))) for x in BOUND]
        cases.append(Case(f"member(X,[{','.join(map(str, BOUND))}]), catch(un({i},X,R0), error(E,_), R0=e(E)), R = r(X,0,R0)", 'R', tab_expect(o, want, [(x, 0) for x in BOUND])))
    run_batch(part, SYS, cases, 'native', prog, name='arith-table')
    part.count('table_entries', len(ops) * len(small) ** 2 + len(A.INT_UN) * len(BOUND))


def tab_expect(o, want, pairs):
    def f(out):
        if out.state != 'end' or len(out.sols) != len(want):
            return 'expected %d entries' % len(want)
        for (x, y), w, s in zip(pairs, want, out.sols):
            gx, gy, g = s.args
            if gx != x or gy != y:
                return f'operands changed: {x} {y} seen as {gx} {gy}'
            if w[0] == 'v':
                if not A.value_matches(g, w[1]):
                    return f'{o}({x},{y}) gave {ts(g)}, expected {w[1]}'
            elif not (type(g) is Cmp and g.name == 'e' and any(same(g.args[0], z) for z in w[1])):
                return f'{o}({x},{y}) gave {ts(g)}, expected error {w[1]}'
        return None
    return f


def body():
    global SYS, SAN
    ck = Check('C06', rule='random integer expressions (constants, run-time bound variables, nested evaluables, ill-typed operands) and '
               'boundary-value tables, each evaluated native / native --fast-math / byte-code / meta-called; a case is distinct by mode and goal text')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = []
    n = ck.n(500, 600)
    for i in range(ck.n(16, 100)):
        jobs += [(m, i, n, ck.seed) for m in ('native', 'fast', 'byte', 'meta')]
    if SAN:
        jobs += [('sanbyte', i, n, ck.seed) for i in range(16)]
    parallel(ck, work, jobs)
    parallel(ck, table, [f'{ck.seed}/{i}' for i in range(ck.n(8, 40))])
    ck.finish(1000)


if __name__ == "__main__":
    main(body)
