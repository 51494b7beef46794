"""Random finite-domain problems with brute-force semantics."""
import itertools
from .terms import *

LIM = 1 << 20


class Undef(Exception):
    pass


class TooBig(Exception):
    """outside the documented range of the solver: intermediate result negative or huge"""


def nn(v):
    if v < 0:
        raise TooBig
    return v


def ev(e, a):
    """value of expression e under the assignment a"""
    if type(e) is int:
        return e
    if type(e) is str:
        return a[e]
    f, xs = e[0], [ev(x, a) for x in e[1:]]
    if f == '+':
        v = xs[0] if len(xs) == 1 else xs[0] + xs[1]
    elif f == '-':
        v = -xs[0] if len(xs) == 1 else xs[0] - xs[1]
    elif f == '*':
        v = xs[0] * xs[1]
    else:
        xs = [nn(x) for x in xs]
        if f == 'min':
            v = min(xs)
        elif f == 'max':
            v = max(xs)
        elif f == 'dist':
            v = abs(xs[0] - xs[1])
        elif f == '**':
            if xs[1] > 64:
                raise TooBig
            v = xs[0] ** xs[1]
        elif xs[1] == 0:
            raise Undef
        elif f == '//':
            v = xs[0] // xs[1]
        elif f == 'rem':
            v = xs[0] % xs[1]
        elif f == 'quot_rem':
            if xs[0] % xs[1] != xs[2]:
                raise Undef
            v = xs[0] // xs[1]
        elif f == '/':
            if xs[0] % xs[1]:
                raise Undef
            v = xs[0] // xs[1]
        else:
            raise ValueError(f)
    if abs(v) > LIM:
        raise TooBig
    return v


def bound(e, ds):
    """no auxiliary value of e can be larger"""
    if type(e) is int:
        return abs(e)
    if type(e) is str:
        return max(ds[e][1])
    xs = [bound(x, ds) for x in e[1:]]
    f = e[0]
    if f in '+-':
        return sum(xs)
    if f == '*':
        return max(xs[0], 1) * max(xs[1], 1)
    if f == '**':
        return max(xs[0], 1) ** min(max(xs[1], 1), 64)
    return max(xs)


def aux_sum(e):
    """(constant, {variable: coefficient}, sum of |coefficient| of the non-linear terms), as the solver normalises.
    Non-linear terms are auxiliary variables posted with the domain 0..2^28-1 first: a sum of them
    with large coefficients overflows (known finding), TooBig then."""
    if type(e) is int:
        return e, {}, []
    if type(e) is str:
        return 0, {e: 1}, []
    f = e[0]
    if f in '+-' and len(e) in (2, 3):
        cs = [aux_sum(x) for x in e[1:]]
        sg = [1, -1 if f == '-' else 1] if len(e) == 3 else [-1 if f == '-' else 1]
        c, vs, nl = 0, {}, []
        for s_, (a, b, n) in zip(sg, cs):
            c += s_ * a
            for v, k in b.items():
                vs[v] = vs.get(v, 0) + s_ * k
            nl += [s_ * k for k in n]
        return c, vs, nl
    if f == '*':
        (a, b, n), (c, d, m) = aux_sum(e[1]), aux_sum(e[2])
        vs = {}
        for v, k in b.items():
            vs[v] = vs.get(v, 0) + k * c
        for v, k in d.items():
            vs[v] = vs.get(v, 0) + k * a
        l1, l2 = list(b.values()) + n, list(d.values()) + m
        return a * c, vs, [k * c for k in n] + [k * a for k in m] + [x * y for x in l1 for y in l2]
    for x in e[1:]:
        if sum(map(abs, aux_sum(x)[2])) > 6:
            raise TooBig
    return 0, {}, [1]


def etext(e):
    if type(e) is int:
        return str(e) if e >= 0 else '(%d)' % e
    if type(e) is str:
        return e
    if e[0] in ('min', 'max', 'dist', 'quot_rem'):
        return e[0] + '(' + ','.join(etext(x) for x in e[1:]) + ')'
    if len(e) == 2:
        return f'{e[0]}({etext(e[1])})'
    return f'({etext(e[1])} {e[0]} {etext(e[2])})'


REL = {'#=': lambda x, y: x == y, '#\\=': lambda x, y: x != y, '#<': lambda x, y: x < y, '#=<': lambda x, y: x <= y, '#>': lambda x, y: x > y, '#>=': lambda x, y: x >= y}
FULL = {'#=#': '#=', '#\\=#': '#\\=', '#<#': '#<', '#=<#': '#=<', '#>#': '#>', '#>=#': '#>='}
for _k, _v in FULL.items():
    REL[_k] = REL[_v]


def vars_of(e):
    if type(e) is str:
        return {e}
    if type(e) is tuple:
        return set().union(*[vars_of(x) for x in e[1:]]) if len(e) > 1 else set()
    if type(e) is list:
        return set().union(*[vars_of(x) for x in e]) if e else set()
    return set()


def expr(r, vs, d=2, lin=False, full=True):
    """random expression; full: all functions"""
    k = r.random()
    if d == 0 or k < .3:
        return r.choice(vs) if r.random() < .75 else r.choice([0, 1, 2, 3, 5, 7, 12])
    if lin or k < .62:
        w = r.random()
        if w < .4:
            return ('+', expr(r, vs, d - 1, lin, full), expr(r, vs, d - 1, lin, full))
        if w < .65:
            return ('-', expr(r, vs, d - 1, lin, full), expr(r, vs, d - 1, lin, full))
        if w < .95:
            c = r.choice([2, 3, 4, -1, -2, -3, 5, 0, 1, 10])
            x = expr(r, vs, d - 1, lin, full)
            return ('*', c, x) if r.random() < .6 else ('*', x, c)
        return (r.choice('-+'), expr(r, vs, d - 1, lin, full))
    if k < .72:
        return ('*', expr(r, vs, d - 1, lin, full), expr(r, vs, d - 1, lin, full))
    fs = ['min', 'max', 'dist']
    if full:
        fs += ['//', 'rem', '**', '**', '/', 'quot_rem']
    f = r.choice(fs)
    if f == '**':
        if r.random() < .6:
            return ('**', expr(r, vs, d - 1, lin, full), r.choice([0, 1, 2, 2, 3]))
        return ('**', r.choice([0, 1, 2, 3]), r.choice(vs))
    x, y = expr(r, vs, d - 1, lin, full), expr(r, vs, d - 1, lin, full)
    if f == 'quot_rem':
        return (f, x, y, r.choice(vs))
    return (f, x, y)


def domains(r, n, limit=3000, holes=.35, big=.2):
    """{name: (post text, set)} and total size"""
    names = ['X%d' % i for i in range(n)]
    while True:
        ds = {}
        tot = 1
        for v in names:
            k = r.random()
            if k < holes:
                base = r.choice([0, 0, 0, 5, 60, 118])
                s = sorted(set(base + r.randrange(0, 10) for _ in range(r.choice([1, 2, 3, 4, 6]))))
                l = list(s)
                if r.random() < .4:
                    r.shuffle(l)
                if r.random() < .2:
                    l.append(r.choice(l))
                ds[v] = ('fd_domain(%s,[%s])' % (v, ','.join(map(str, l))), set(s))
            else:
                lo = r.choice([0, 0, 0, 0, 1, 2, 3, 7, 62, 120, 126]) if r.random() > big else r.choice([128, 200, 1000, 99990])
                hi = lo + r.choice([0, 1, 2, 3, 4, 5, 6, 9, 12])
                ds[v] = ('fd_domain(%s,%d,%d)' % (v, lo, hi), set(range(lo, hi + 1)))
                if hi <= 127 and r.random() < .2 and hi - lo > 1:
                    x = r.randint(lo, hi)
                    ds[v] = (ds[v][0] + ', %s #\\= %d' % (v, x), ds[v][1] - {x})
                    if not ds[v][1]:
                        continue
            tot *= len(ds[v][1])
        if 0 < tot <= limit:
            return ds


def assignments(ds):
    names = list(ds)
    for t in itertools.product(*[sorted(ds[v][1]) for v in names]):
        yield dict(zip(names, t))


# ---- constraints: (text, predicate over an assignment; may raise TooBig)

def arith(r, vs, ds, full=True):
    sub = r.sample(vs, min(len(vs), r.choice([1, 2, 2, 3, 3, 4])))
    lin = r.random() < .45
    x = expr(r, sub, r.choice([1, 2, 2, 3]), lin, full)
    y = expr(r, sub, r.choice([0, 1, 2]), lin or r.random() < .5, full)
    op = r.choice(list(REL))
    if r.random() < .5 and op in ('#=', '#=#'):
        # make some assignment satisfy it
        a = {v: r.choice(sorted(ds[v][1])) for v in vs}
        try:
            y = ev(('-', x, y), a) if r.random() < .4 else ('+', y, ev(('-', x, y), a))
        except Undef:
            pass
    elif r.random() < .3:
        a = {v: r.choice(sorted(ds[v][1])) for v in vs}
        try:
            y = ev(x, a) + r.choice([-1, 0, 0, 1])
        except Undef:
            pass
    if r.random() < .2:
        x, y = y, x
    return op, x, y


def holds(c, a):
    op, x, y = c
    try:
        return REL[op](ev(x, a), ev(y, a))
    except Undef:
        return False


def ctext(c):
    return f'{etext(c[1])} {c[0]} {etext(c[2])}'


def sols_expect(vs, ds, sols):
    def f(o):
        if len(o.sols) != 1:
            return f'not one answer: {o!r}'
        t = o.sols[0]
        if t is Atom('no'):
            return f'no instead of {sols[:3]}' if sols else None
        D, L = t.args
        got = [tuple(unlist(x)) for x in unlist(L)]
        if got != sols:
            miss = [s for s in sols if s not in got][:3]
            extra = [s for s in got if s not in sols][:3]
            return f'solutions differ (variables {vs}): {len(got)} found, {len(sols)} expected; missing {miss} wrong {extra}' + ('' if miss or extra else ' (order or repetition)')
        if D is Atom('none'):
            return None
        for i, d in enumerate(unlist(D)):
            d = unlist(d)
            keep = set(s[i] for s in sols)
            if keep - set(d):
                return f'{vs[i]}: values {sorted(keep - set(d))[:3]} of solutions removed from the domain'
            if set(d) - ds[vs[i]][1]:
                return f'{vs[i]}: values {sorted(set(d) - ds[vs[i]][1])[:3]} not in the initial domain'
        return None
    return f
