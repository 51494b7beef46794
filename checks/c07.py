#!/usr/bin/env python3
"""C07: float and mixed arithmetic."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv import arith as A
from gpv import gen as G
import c06, struct, re

FB = [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.0, 2.5, -2.5, 3.5, 0.1, 0.2, 0.3, 1e-5, 1e-10, 1e15, 1e16, 1e17, 123456789.125, 1e22, 1e23, 1e100, 1e300, -1e300,
      1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 0.49999999999999994, 0.5000000000000001, 4503599627370495.5, 4503599627370496.5,
      9007199254740992.0, 9007199254740993.0, 9007199254740994.0, -9007199254740992.0, float(1 << 60), float(-(1 << 60)), float((1 << 60) - 128), float(1 << 61),
      9.223372036854775807e18, 1.8446744073709552e19, 2147483647.0, 2147483648.0, -2147483648.5, 4294967296.0, 3.141592653589793, 2.718281828459045, 709.78, 710.0, 0.1 + 0.2, 1 / 3,
      99999999999999.9, 999999999999999.9, 123456.7, 1e-7, 1234567890123456.7, 1e21]


def rfloat(r):
    k = r.random()
    if k < .45:
        return r.choice(FB)
    if k < .6:
        return r.randint(-2000, 2000) / r.choice([1, 2, 4, 5, 8, 10])
    if k < .75:
        return r.uniform(-1, 1)
    if k < .85:
        return r.choice([1, -1]) * 10 ** r.uniform(-20, 20)
    while True:
        d = struct.unpack('>d', struct.pack('>Q', r.getrandbits(64)))[0]
        if d == d and abs(d) != A.INF:
            return d


def leaf(r, env, bad=0.0):
    k = r.random()
    if bad and r.random() < bad:
        v = r.choice([Atom('foo'), Atom('x'), Cmp('foo', [1]), Cmp('g', [1, 2, 3]), Var('U0')])
        if r.random() < .5 and c06.DIRECT[0]:
            return v
    else:
        v = rfloat(r) if r.random() < .7 else c06.rint(r)
        if r.random() < .04:
            return Atom(r.choice(['pi', 'e', 'epsilon']))
        if k < .5:
            return v
    n = 'V%d' % len(env)
    env[n] = v
    return Var(n)


UNL = [n for n in A.UN if n not in ('\\', 'lsb', 'msb', 'popcount')]
BIL = ['+', '-', '*', '/', 'min', 'max', '^', '**', 'atan2', 'log', '+', '-', '*', '/']


def expr(r, env, depth, bad=0.0):
    if depth == 0:
        return leaf(r, env, bad)
    if r.random() < .5:
        o = r.choice(UNL)
        if r.random() < .08:
            o = r.choice(['\\', 'lsb', 'msb', 'popcount'])
        x = expr(r, env, depth - 1, bad)
        if o in ('acos', 'asin', 'atanh') and r.random() < .7:
            x = r.choice([r.uniform(-1.1, 1.1), 1.0, -1.0, 1, -1, 0, 0.5, 2])
        elif o in ('exp', 'sinh', 'cosh') and r.random() < .6:
            x = r.choice([r.uniform(-800, 800), 1, 0, -1.0])
        return Cmp(o, [x])
    o = r.choice(BIL)
    if r.random() < .06:
        o = r.choice(['//', 'mod', 'rem', 'div', '/\\', '<<', 'gcd'])
    x, y = expr(r, env, depth - 1, bad), expr(r, env, depth - 1, bad)
    if o in ('min', 'max') and r.random() < .6:
        # close operands, of both types
        v = r.choice([rfloat(r), float(r.randint(-(1 << 60), 1 << 60)), float(r.randint(1, 256) << r.randint(45, 52)), c06.rint(r)])
        if type(v) is float and abs(v) >= 1 << 60:
            v = float(1 << r.randint(52, 59))
        w = G.near_const(r, v)
        if r.random() < .4 and type(w) is float and abs(w) < 1 << 60:
            w = min(max(int(w) + r.choice([0, 1, -1]), -(1 << 60)), (1 << 60) - 1)
        x, y = (v, w) if r.random() < .5 else (w, v)
    if o in ('^', '**') and r.random() < .6:
        x = r.choice([2, 3, 0, 1, -1, 2.0, 0.0, 1.0, -1.0, -2.0, 10.0, 0.5, -8, 7, x])
        y = r.choice([0, 1, 2, -1, -2, 0.0, 0.5, -0.5, 2.0, -1.0, 3, 1024, 10, 63, 1 / 3, y])
    return Cmp(o, [x, y])


def gen(r, strict):
    env = {}
    bad = r.choice([0, 0, 0, 0, .2])
    k = r.random()
    if k < .72:
        e = expr(r, env, r.choice([1, 1, 1, 1, 2, 2, 3]), bad)
        res = A.evaluate(e, env, strict)
        return Case(c06.binds(r, env) + f'R is {text(e)}', 'R', c06.expect_val(res))
    if k < .9:
        op = r.choice(['=:=', '=\\=', '<', '=<', '>', '>='])
        e1 = expr(r, env, r.choice([0, 0, 0, 1]), bad)
        e2 = e1 if r.random() < .2 else expr(r, env, r.choice([0, 0, 0, 1]), bad)
        a, b = A.evaluate(e1, env, strict), A.evaluate(e2, env, strict)
        if r.random() < .35 and a[0] == 'v':
            # neighbours, across types
            v = a[1]
            e2 = r.choice([float(v), float(v) + 1]) if type(v) is int else (v if abs(v) > 1e17 or v != v else r.choice([int(v), int(v) + 1, v]))
            b = ('v', e2)
        if a[0] == 'e' or b[0] == 'e':
            res = ('e', (a[1] if a[0] == 'e' else []) + (b[1] if b[0] == 'e' else []))
        else:
            res = ('v', A.compare_nums(op, a[1], b[1]))
        return Case(c06.binds(r, env) + f"{text(e1)} {op} {text(e2)}", 'true', c06.expect_bool(res))
    # text conversions of floats
    d = rfloat(r)
    how = r.choice(["number_codes({d},C), atom_codes(T,C)", "number_atom({d},T)", "atom_codes(A,C0), C0=C0, write_to_atom(T,{d})", "format_to_atom(T,'~w',[{d}])",
                    "writeq_to_atom(T,{d})", "number_chars({d},C), atom_chars(T,C)", "print_to_atom(T,{d})", "write_canonical_to_atom(T,{d})"])
    if how.startswith('atom_codes(A'):
        how = "write_to_atom(T,{d})"
    back = r.choice(["number_atom(N,T)", "atom_codes(T,CC), number_codes(N,CC)", "atom_concat(T,' .',T2), read_from_atom(T2,N)", "read_term_from_atom(T,N,[end_of_term(eof)])", "atom_chars(T,CC), number_chars(N,CC)"])
    if back.startswith('number_atom') and False:
        pass
    n = 'D'
    return Case(f"{n} = {text(d)}, {how.format(d=n)}, {back}", 'r(T,N)', conv(d))


FSYN = re.compile(r'-?[0-9]+\.[0-9]+([eE][+-]?[0-9]+)?$')


def conv(d):
    def f(o):
        if o.state != 'end' or len(o.sols) != 1:
            return 'conversion failed for %r' % d
        t, n = o.sols[0].args
        s = t.name
        if not FSYN.match(s):
            return 'text %r is not a float of the standard syntax' % s
        if not A.value_matches(float(s), d):
            return 'text %r denotes %r, not %r' % (s, float(s), d)
        if not A.value_matches(n, d):
            return 'read back %r instead of %r' % (n, d)
    return f


def numtext(r):
    ip = str(r.choice([0, 1, 9, 10, 123, 2**53 + 1, 2**60 - 1])) if r.random() < .5 else ''.join(r.choice('0123456789') for _ in range(r.randint(1, 25)))
    fp = ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 5, 17, 25])))
    s = ip + '.' + fp
    if r.random() < .6:
        s += r.choice('eE') + r.choice(['', '+', '-']) + str(r.choice([0, 1, 2, 5, 10, 22, 100, 300, r.randint(0, 290)]))
    return s


def gen_read(r):
    while True:
        s = numtext(r)
        d = float(s)
        if abs(d) != A.INF and (d != 0 or set(s.split('e')[0].split('E')[0]) <= set('0.')):
            break
    neg = r.random() < .3
    how = r.choice(["number_codes(R,C)", "number_chars(R,H)", "number_atom(R,A)", "atom_concat(A,'. ',A2), read_from_atom(A2,R)", "read_term_from_atom(A,R,[end_of_term(eof)])", "R = %s"])
    t = ('-' if neg else '') + s
    if neg:
        d = -d
    if '%s' in how:
        return Case(how % t, 'R', c06.expect_val(('v', d)))
    return Case(f"A='{t}', atom_codes(A,C), atom_chars(A,H), {how}", 'R', c06.expect_val(('v', d)))


EV = {(n, 0) for n in A.CONST} | {(n, 1) for n in A.UN} | {(n, 2) for n in A.BI}


def evs(r):
    cs = []

    def all_(o):
        got = sorted((x.args[0].name, x.args[1]) for x in o.sols)
        if o.state != 'end' or got != sorted(EV):
            return 'evaluables differ: missing %s extra %s' % (sorted(EV - set(got)), sorted(set(got) - EV))
    cs.append(Case('current_evaluable(N/A)', 'N/A', all_))
    names = sorted({n for n, _ in EV} | {'foo', 'max_int', 'is'})
    for n in r.sample(names, 12):
        w = sorted(a for m, a in EV if m == n)
        cs.append(Case(f"N = ({atext(n)}), current_evaluable(N/A)", 'A', lambda o, w=w: None if o.state == 'end' and sorted(o.sols) == w else 'expected arities %s' % w))
        a = r.choice([0, 1, 2, 3])
        cs.append(Case(f"current_evaluable(({atext(n)})/{a})", 'true', c06.expect_bool(('v', (n, a) in EV))))
    for a in (0, 1, 2, 3):
        w = sorted(n for n, b in EV if b == a)
        cs.append(Case(f"current_evaluable(N/{a})", 'N', lambda o, w=w: None if o.state == 'end' and sorted(x.name for x in o.sols) == w else 'expected %s' % w))
    return cs


def work(part, arg):
    mode, i, n, seed = arg
    import random
    r = random.Random(f'c07/{seed}/{mode}/{i}')
    c06.DIRECT[0] = mode != 'native'
    strict = i % 2 == 0
    cases = [gen(r, strict) if r.random() < .88 else gen_read(r) for _ in range(n)]
    if i == 0:
        cases += evs(r)
    if not strict:
        for c in cases:
            c.goal = 'set_prolog_flag(strict_iso, off), ' + c.goal
    run_batch(part, SYS, cases, mode, "'$k'(X,X).\n", name='float-' + mode)
    part.count('cases_' + mode, len(cases))


def body():
    global SYS
    ck = Check('C07', rule='random float/mixed expressions over boundary and random doubles (native, byte-code, meta-called; strict_iso on/off), comparisons '
               'across types, float<->text conversions checked against the exact value; distinct by mode and goal text',
               assumptions=['the C library libm used by the system is the one ctypes loads (same machine)'])
    SYS = Sys('plain')
    jobs = [(m, i, 400, ck.seed) for i in range(ck.n(50, 400)) for m in ('native', 'byte', 'meta')]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
