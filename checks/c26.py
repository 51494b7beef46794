#!/usr/bin/env python3
"""C26: domain reports of finite-domain variables are exact through unary constraints, unification and backtracking."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
import random

PRE = r"""out(X) :- g_read('$vid', I), vlog(I, out(X)).
rep(K, L) :- infos(L, R), out(rep(K, R)).
infos([], []).
infos([X|L], [I|M]) :- info(X, I), infos(L, M).
info(X, I) :- tests(X, T), info1(X, T, I).
info1(X, T, int(X, T, Mi, Ma, Sz, D)) :- integer(X), !, fd_min(X, Mi), fd_max(X, Ma), fd_size(X, Sz), fd_dom(X, D).
info1(X, T, fd(Mi, Ma, Sz, D, V, E, W, T)) :- fd_var(X), !, fd_min(X, Mi), fd_max(X, Ma), fd_size(X, Sz),
  ( Sz =< 400 -> fd_dom(X, D) ; D = big ), ( fd_has_vector(X) -> V = 1 ; V = 0 ), ( fd_has_extra_cstr(X) -> E = 1 ; E = 0 ), write_to_atom(W, X).
info1(X, T, free(T)) :- var(X), !.
info1(X, T, other(X, T)).
tests(X, t(A, B, C, D)) :- ( fd_var(X) -> A = 1 ; A = 0 ), ( non_fd_var(X) -> B = 1 ; B = 0 ), ( generic_var(X) -> C = 1 ; C = 0 ), ( non_generic_var(X) -> D = 1 ; D = 0 ).
"""
MAX = (1 << 28) - 1


# a set of naturals: sorted list of disjoint, non adjacent (lo, hi)
def norm(l):
    out = []
    for lo, hi in sorted(l):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


def inter(a, b):
    return norm([(max(l, x), min(h, y)) for l, h in a for x, y in b])


def minus(a, c):
    return norm([p for l, h in a for p in ((l, min(h, c - 1)), (max(l, c + 1), h))])


def size(a):
    return sum(h - l + 1 for l, h in a)


def isprime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


class V:
    """true: value set ignoring vector limits; vec: set of possible answers; lost: values may have been lost"""

    def __init__(v):
        v.free, v.true, v.vec, v.lost, v.off, v.multi = True, None, {0}, False, False, False

    def copy(v):
        w = V()
        w.free, w.true, w.vec, w.lost, w.off, w.multi = v.free, v.true, set(v.vec), v.lost, v.off, v.multi
        return w

    def fd(v):
        if v.free:
            v.free, v.true, v.vec = False, [(0, MAX)], {0}

    def shown(v, vm, vec):
        return inter(v.true, [(0, vm)]) if vec else v.true


class Bad(Exception):
    pass


class Model:
    def __init__(m, vm, evs, n):
        m.vm, m.evs, m.i = vm, evs, 0
        m.vars = [V() for _ in range(n)]       # aliases share the object
        m.ints = [False] * n
        m.stats = [0, 0, 0]

    def snap(m):
        mp = {}
        return [mp.setdefault(id(v), v.copy()) for v in m.vars]

    def nxt(m):
        if m.i >= len(m.evs):
            return None
        e = m.evs[m.i].args[0]
        return e

    def run(m, ops):
        """False: failed"""
        for o in ops:
            if o[0] == 'alt':
                for br in o[1]:
                    keep = m.snap()
                    ints = list(m.ints)
                    m.run(br)
                    m.vars, m.ints = keep, ints
            elif o[0] == 'rep':
                if not m.report(o[1]):
                    return False
            else:
                if not o[2](m):
                    # certain failure
                    return False
        return True

    def narrow(m, i, s, vec=None, ub=None):
        """constrain variable i to s; False when certainly failed"""
        v = m.vars[i]
        v.fd()
        if (vec or 1 in v.vec) and v.true and v.true[-1][1] > m.vm:
            v.lost = True
        v.true = inter(v.true, s)
        if vec:
            v.vec = {1}
        elif len(v.true) > 1:
            v.vec = {1}
        if v.multi and len(v.true) == 1:
            v.vec = {0, 1}
        v.off = ub is not None and ub <= m.vm
        if 1 in v.vec and v.true and v.true[-1][1] > m.vm:
            v.lost = True
        return any(v.shown(m.vm, x) for x in v.vec)

    def report(m, k):
        e = m.nxt()
        ok_fail = any(not v.free and any(not v.shown(m.vm, x) for x in v.vec) for v in m.vars)
        if e is None or e.name != 'rep' or e.args[0] != k:
            if ok_fail:
                return False
            raise Bad(f'report {k} missing, got {ts(e) if e is not None else None}; expected domains {[None if v.free else v.true[:9] for v in m.vars]}')
        m.i += 1
        for n, (v, d) in enumerate(zip(m.vars, unlist(e.args[1]))):
            m.stats[0] += 1
            m.ints[n] = d.name == 'int'
            m.one(f'report {k} variable {n}', v, d)
        return True

    def one(m, w, v, d):
        t = d.args[-1] if d.name != 'int' else d.args[1]
        if v.free:
            if d.name != 'free' or t.args != (0, 1, 1, 0):
                raise Bad(f'{w}: {ts(d)} for a plain variable')
            return
        if d.name == 'int':
            x = d.args[0]
            if not any(v.shown(m.vm, b) == [(x, x)] for b in v.vec):
                raise Bad(f'{w}: bound to {x}, expected domain {v.true[:9]} vec {v.vec}')
            if tuple(d.args[2:5]) != (x, x, 1) or unlist(d.args[5]) != [x] or t.args != (0, 1, 0, 1):
                raise Bad(f'{w}: {ts(d)}')
            v.true = [(x, x)]
            v.vec = {0, 1}
            return
        if d.name != 'fd':
            raise Bad(f'{w}: {ts(d)}, expected domain {v.true[:9]}')
        mi, ma, sz, D, vec, ex, txt, _ = d.args
        if vec not in v.vec:
            raise Bad(f'{w}: fd_has_vector {vec}, expected {v.vec}; domain {v.true[:9]}')
        v.vec = {vec} if not v.multi or len(v.true) > 1 else {0, 1}
        m.stats[1] += vec
        m.stats[2] += ex
        s = v.shown(m.vm, vec)
        if not s or size(s) == 1:
            raise Bad(f'{w}: still a variable {ts(txt)} with expected domain {s}')
        if (mi, ma, sz) != (s[0][0], s[-1][1], size(s)):
            raise Bad(f'{w}: min, max, size {mi}, {ma}, {sz}; expected domain {s[:9]}')
        if sz <= 400 and unlist(D) != [x for l, h in s for x in range(l, h + 1)]:
            raise Bad(f'{w}: fd_dom {ts(D)}; expected {s[:9]}')
        if t.args != (1, 0, 1, 0):
            raise Bad(f'{w}: type tests {ts(t)}')
        g = re.fullmatch(r'_#\d+\(([0-9.:]+)(@?)\)', txt.name)
        if not g:
            raise Bad(f'{w}: printed {txt.name}')
        p = [tuple(map(int, (x.split('..') * 2)[:2])) for x in g.group(1).split(':')]
        if p != s:
            raise Bad(f'{w}: printed {txt.name}; expected {s[:9]}')
        if (g.group(2) == '@') != (ex == 1):
            raise Bad(f'{w}: printed {txt.name}, fd_has_extra_cstr {ex}')
        real = vec and v.true[-1][1] > m.vm
        if real and not ex:
            raise Bad(f'{w}: values {v.true[-1]} lost but fd_has_extra_cstr fails')
        if ex and (not v.lost or v.off and not v.multi):
            raise Bad(f'{w}: fd_has_extra_cstr succeeds; expected domain {v.true[:9]} nothing lost, printed {txt.name}')


class Gen:
    def __init__(g, r):
        g.r = r
        g.vm = r.choice([127, 127, 127, 63, 191, 255, 319, 1023])
        g.set = r.choice([g.vm, g.vm - r.randrange(63)])
        g.n = r.choice([1, 2, 2, 3])
        g.k = 0
        g.pts = [r.randint(0, g.vm + 3) for _ in range(3)] + [0, 1, 2, 63, 64, 65, 127, 128, g.vm - 1, g.vm, g.vm + 1, g.vm + 40]

    def val(g, wild=.12):
        r = g.r
        if r.random() < wild:
            return r.choice([-1, -5, MAX, MAX - 1, 100000, MAX + 1])
        return r.choice(g.pts) if r.random() < .7 else r.randint(0, g.vm + 5)

    def post(g):
        r = g.r
        i = r.randrange(g.n)
        x = 'ABC'[i]
        k = r.random()
        if k < .2:
            lo = g.val(.05)
            hi = r.choice([lo + r.randrange(0, 30), lo + r.randrange(0, 200), g.val(.05), lo - 1])
            if max(lo, hi) > MAX or min(lo, hi) < -MAX:
                lo, hi = 0, MAX
            if g.n > 1 and r.random() < .2:
                j = (i + 1) % g.n
                return f'fd_domain([{x},{"ABC"[j]}],{lo},{hi})', lambda m: m.narrow(i, [(max(lo, 0), hi)] if hi >= lo else [], None, hi) and m.narrow(j, [(max(lo, 0), hi)] if hi >= lo else [], None, hi)
            return f'fd_domain({x},{lo},{hi})', lambda m: m.narrow(i, [(max(lo, 0), hi)] if hi >= lo else [], None, hi)
        if k < .33:
            n = r.choice([1, 2, 3, 5, 9, 40])
            l = [max(g.val(0) if r.random() < .5 else r.randint(0, g.vm), 0) for _ in range(n)]
            if r.random() < .8:
                l = [min(z, g.vm) for z in l]
            def f(m):
                if max(l) > m.vm:
                    m.vars[i].fd()
                    m.vars[i].lost = True
                return m.narrow(i, norm([(z, z) for z in l]), True)
            return f'fd_domain({x},{l})', f
        if k < .5:
            c = g.val()
            if c > MAX:
                c = 7
            op = r.choice(['#\\=', '#\\=#'])
            t = f'{x} {op} {c}' if r.random() < .7 else f'{c} {op} {x}'

            def f(m):
                v = m.vars[i]
                v.fd()
                if v.vec == {0} and c >= 0:
                    v.vec = {0, 1}
                s = minus(v.true, c)
                return m.narrow(i, s)
            return t, f
        if k < .72:
            c = g.val(.06)
            if c > MAX - 1:
                c = MAX - 1
            op = r.choice(['#<', '#=<', '#>', '#>='])
            full = r.random() < .3
            d = r.choice([0, 0, 0, 3])
            cc = c - d if c - d >= 0 else c
            dd = c - cc
            s = {'#<': [(0, cc - 1)], '#=<': [(0, cc)], '#>': [(max(cc + 1, 0), MAX)], '#>=': [(max(cc, 0), MAX)]}[op]
            ub = {'#<': cc - 1, '#=<': cc}.get(op)
            xt = f'{x} + {dd}' if dd else x
            o = op + '#' if full else op
            t = f'{xt} {o} {c}' if r.random() < .6 else '%s %s %s' % (c, {'#<': '#>', '#=<': '#>=', '#>': '#<', '#>=': '#=<'}[op] + ('#' if full else ''), xt)
            def f(m):
                v = m.vars[i]
                v.fd()
                if full or dd:
                    v.vec = v.vec | {1} if v.vec == {0} else v.vec
                return m.narrow(i, norm(s), None, ub)
            if dd and c > 100000:
                return g.post()
            return t, f
        if k < .8:
            c = g.val(.05)
            if not 0 <= c <= MAX:
                c = 3
            t = r.choice([f'{x} = {c}', f'{x} #= {c}', f'{c} = {x}', f'{c} #= {x}', f'{x} #=# {c}'])

            def f(m):
                v = m.vars[i]
                if v.free and '#' not in t:
                    v.fd()
                return m.narrow(i, [(c, c)], None, c)
            return t, f
        if k < .84:
            p = r.random() < .5

            def f(m):
                s = norm([(z, z) for z in range(m.vm + 1) if isprime(z) == p])
                v = m.vars[i]
                v.fd()
                v.lost = True if not p or v.true[-1][1] > m.vm else v.lost
                b = m.narrow(i, s, True)
                return b
            return f'fd_{"" if p else "not_"}prime({x})', f
        if k < .88:
            def f(m):
                v = m.vars[i]
                if v.free or size(v.true) == 1:
                    return True
                return m.narrow(i, v.true, True)
            return f'( fd_var({x}) -> fd_use_vector({x}) ; true )', f
        if k < .96 and g.n > 1:
            j = r.choice([z for z in range(g.n) if z != i])
            y = 'ABC'[j]

            def f(m):
                a, b = m.vars[i], m.vars[j]
                if a is b:
                    return True
                if a.free or b.free:
                    c = b if a.free else a
                    m.vars = [c if v is a or v is b else v for v in m.vars]
                    return True
                c = V()
                c.free = False
                c.true = inter(a.true, b.true)
                # which values were visible
                va = set()
                for p in a.vec:
                    for q in b.vec:
                        va |= {0, 1} if p or q else {0}
                if len(c.true) > 1:
                    va = {1}
                c.vec = va
                c.multi = True      # two linked variables, each with its own representation
                c.lost = a.lost or b.lost or (1 in va and bool(c.true) and c.true[-1][1] > m.vm)
                m.vars = [c if v is a or v is b else v for v in m.vars]
                sa = [(p, q) for p in a.vec for q in b.vec]
                return any(inter(a.shown(m.vm, p), b.shown(m.vm, q)) for p, q in sa)
            return f'{x} = {y}', f
        c = r.choice(['_', 'a', 'f(_)', '1.0', '[]'])

        def f(m):
            return c == '_' or m.vars[i].free and False
        if c != '_':
            # only makes sense on an fd variable: keep plain variables untouched
            return f'( non_fd_var({x}) -> true ; {x} = {c} )', lambda m: m.vars[i].free or m.isint(i)
        return f'{x} = _', lambda m: True

    def rep(g):
        g.k += 1
        return ('rep', g.k)

    def body(g, d, n):
        ops = []
        for _ in range(n):
            if d and g.r.random() < .25:
                ops.append(('alt', [g.body(d - 1, g.r.choice([1, 2, 3])) for _ in range(g.r.choice([1, 2, 2]))]))
                ops.append(g.rep())
            else:
                t, f = g.post()
                ops.append(('post', t, f))
                ops.append(g.rep())
        return ops


def isint(m, i):
    """as last reported: a report follows every step"""
    return m.ints[i]


Model.isint = isint


def txt(ops, vs):
    out = []
    for o in ops:
        if o[0] == 'post':
            out.append(o[1])
        elif o[0] == 'rep':
            out.append(f'rep({o[1]}, {vs})')
        else:
            out.append('( ' + ' ; '.join(txt(b, vs) + ', fail' for b in o[1]) + ' ; true )')
    return ', '.join(out)


STATS = [0, 0, 0]


def case(r):
    g = Gen(r)
    ops = g.body(2, r.choice([3, 5, 7]))
    vs = '[' + ','.join('ABC'[:g.n]) + ']'

    def f(o):
        m = Model(g.vm, [e for e in o.extra if type(e) is Cmp and e.name == 'out'], g.n)
        if o.state == 'exc':
            return f'exception {ts(o.exc)}'
        if not o.sols or o.sols[0] is not Atom('ok') and not (type(o.sols[0]) is Cmp):
            return f'no answer {o!r}'
        vmx = o.sols[0].args[0]
        if vmx != g.vm:
            return f'fd_vector_max {vmx}, expected {g.vm}'
        try:
            m.run(ops)
            if m.i != len(m.evs):
                raise Bad(f'unexpected report {ts(m.evs[m.i])}')
        except Bad as e:
            return str(e)
        for i in range(3):
            STATS[i] += m.stats[i]
        return None
    return Case(f'fd_set_vector_max({g.set}), fd_vector_max(M), ( {txt(ops, vs)}, fail ; true )', 'ok(M)', f, max=3)


def work(part, arg):
    mode, i, n, seed = arg
    if mode == 'env':
        return envs(part, seed)
    r = random.Random(f'c26/{seed}/{mode}/{i}')
    STATS[:] = [0, 0, 0]
    run_batch(part, SAN if mode == 'san' else SYS, [case(r) for _ in range(n)], 'meta' if mode == 'san' else mode, PRE, name='dom-' + mode,
              keyf=lambda c: f'{mode}:{c.goal[:110]}')
    for k, v in zip(('reports', 'sparse reports', 'extra-constrained reports'), STATS):
        part.count(k, v)


def envs(part, seed):
    r = random.Random(f'c26/env/{seed}')
    for n in (1, 63, 64, 200, 511, 512, r.randrange(2, 3000)):
        w = -(-(n + 1) // 64) * 64 - 1

        def f(o, w=w, n=n):
            if len(o.sols) != 1:
                return f'no answer with VECTORMAX={n}: {o!r}'
            a = list(o.sols[0].args)
            if a != [w, MAX, w]:
                return f'VECTORMAX={n}: fd_vector_max, fd_max_integer, fd_max after a hole: {a}, expected {[w, MAX, w]}'
        run_batch(part, SYS, [Case('fd_vector_max(V), fd_max_integer(I), X #\\= %d, fd_max(X, M)' % max(1, min(5, n)), 'r(V,I,M)', f)], 'meta', PRE, name='env%d' % n, env={'VECTORMAX': str(n)})
    big = [Case('fd_set_vector_max(60100), alt(1,L), fd_domain(X,L), write_to_atom(A,X), atom_length(A,N), fd_size(X,S)', 'r(N,S)',
                lambda o: None if o.sols and o.sols[0].args[1] == 30000 and o.sols[0].args[0] >= sum(len(str(z)) + 1 for z in range(1, 60001, 2)) else f'printing a domain of 30000 intervals: {o!r}')]
    run_batch(part, SYS, big, 'meta', PRE + 'alt(60001,[]) :- !.\nalt(I,[I|L]) :- J is I+2, alt(J,L).\n', name='bigprint', keyf=lambda c: 'bigprint')


def body():
    global SYS, SAN
    ck = Check('C26', rule='random sequences of unary constraints, domain declarations, unifications and undone alternatives over 1-3 variables for several vector sizes; after every step the reported '
               'min/max/size/domain/sparse/extra flags, the printed form and the type tests are compared with an exact set model')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('env', 0, 0, ck.seed)] + [('meta', i, 120, ck.seed) for i in range(ck.n(160, 3000))] + [('native', i, 40, ck.seed) for i in range(ck.n(16, 160))]
    if SAN:
        jobs += [('san', i, 60, ck.seed) for i in range(60)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
