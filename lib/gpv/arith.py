"""Reference model of arithmetic evaluation (documented GNU Prolog rules, ISO Cor.2/3).

evaluate(term) -> ('v', value) or ('e', [acceptable formal error terms])."""
import ctypes, math, struct
from .terms import *

BITS = 61
IMAX = (1 << 60) - 1
IMIN = -(1 << 60)
_m = ctypes.CDLL('libm.so.6')


def _f1(n):
    f = getattr(_m, n)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double]
    return f


def _f2(n):
    f = getattr(_m, n)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double, ctypes.c_double]
    return f


F1 = {n: _f1(n) for n in 'sqrt tan atan cos acos sin asin tanh atanh cosh acosh sinh asinh exp log log10 floor ceil trunc'.split()}
_pow, _atan2 = _f2('pow'), _f2('atan2')
INF = float('inf')


class Err(Exception):
    def __init__(self, *forms):
        self.forms = list(forms)


def ev_err(k):
    return Err(Cmp('evaluation_error', (Atom(k),)))


def ty_err(k, c):
    return Err(Cmp('type_error', (Atom(k), c)))


def ck(v):
    if v < IMIN or v > IMAX:
        raise ev_err('int_overflow')
    return v


def cf(d):
    if d != d:
        raise ev_err('undefined')
    if d in (INF, -INF):
        raise ev_err('float_overflow')
    return d


def need_int(*xs):
    errs = [Cmp('type_error', (Atom('integer'), x)) for x in xs if type(x) is float]
    if errs:
        raise Err(*errs)


def tdiv(x, y):
    if y == 0:
        raise ev_err('zero_divisor')
    q = abs(x) // abs(y)
    return ck(q if (x < 0) == (y < 0) else -q)


def shl(x, y):
    if y < 0:
        return shr(x, -y)
    if x == 0:
        return 0
    if y > 200:
        raise ev_err('int_overflow')
    return ck(x << y)


def shr(x, y):
    if y < 0:
        return shl(x, -y)
    return x >> min(y, 200)


def ipow(x, y):
    if x == 1:
        return 1
    if x == -1:
        return -1 if y & 1 else 1
    if x == 0:
        if y >= 0:
            return 1 if y == 0 else 0
        raise ev_err('undefined')
    if y < 0:
        raise Err(Cmp('type_error', (Atom('float'), x)))
    if y > 64:
        raise ev_err('int_overflow')
    return ck(x ** y)


def fpow(x, y):
    x, y = float(x), float(y)
    if x == 0.0 and y < 0.0:
        raise ev_err('undefined')
    if x == 1.0:
        return 1.0
    return cf(_pow(x, y))


def dneg(x):
    return -x


def fdiv(x, y):
    x, y = float(x), float(y)
    if y == 0.0:
        raise ev_err('zero_divisor')
    try:
        return cf(x / y)
    except OverflowError:
        raise ev_err('float_overflow')


def nonneg(x):
    need_int(x)
    if x < 0:
        raise Err(Cmp('domain_error', (Atom('not_less_than_zero'), x)))
    return x


def cmp_exact(x, y):
    from fractions import Fraction
    a, b = Fraction(x), Fraction(y)
    return (a > b) - (a < b)


def minmax(sel):
    def f(x, y):
        c = cmp_exact(x, y) * sel
        if c < 0:
            return x
        if c > 0:
            return y
        # equal: one of the arguments; which one is not specified when types differ (GNU Prolog: the float)
        if type(x) is type(y):
            return x
        return x if type(x) is float else y
    return f


def fsign(x):
    return -1.0 if x < 0 else 1.0 if x > 0 else 0.0


def rnd(fn):
    def f(x, strict=True):
        if type(x) is int:
            if strict:
                raise ty_err('float', x)
            return x
        return ck(int(fn(x)))
    return f


def both(fi, ff):
    def f(x, y):
        if type(x) is int and type(y) is int:
            return ck(fi(x, y))
        return cf(ff(float(x), float(y)))
    return f


def intf(fi):
    def f(*a):
        need_int(*a)
        return ck(fi(*a))
    return f


def only_float(fn):
    def f(x):
        if type(x) is int:
            raise ty_err('float', x)
        return cf(fn(x))
    return f


def logc(fn):
    def f(x):
        if x <= 0:
            raise ev_err('undefined')
        return cf(fn(float(x)))
    return f


def log_radix(b, x):
    if float(b) <= 0 or float(x) <= 0:
        raise ev_err('undefined')
    n, d = F1['log'](float(x)), F1['log'](float(b))
    if d == 0.0:
        raise Err(*[Cmp('evaluation_error', (Atom(k),)) for k in (('undefined',) if n == 0 else ('float_overflow', 'zero_divisor', 'undefined'))])
    return cf(n / d)


def atan2(y, x):
    if float(x) == 0.0 and float(y) == 0.0:
        raise ev_err('undefined')
    return cf(_atan2(float(y), float(x)))


def gcd(x, y):
    return math.gcd(x, y)


def imod(x, y):
    if y == 0:
        raise ev_err('zero_divisor')
    return x % y


def irem(x, y):
    if y == 0:
        raise ev_err('zero_divisor')
    return x - y * (abs(x) // abs(y) if (x < 0) == (y < 0) else -(abs(x) // abs(y)))


def idiv(x, y):
    if y == 0:
        raise ev_err('zero_divisor')
    return x // y


def dinteg(x):
    return F1['floor'](x) if x > 0 else F1['ceil'](x)


def unf(n):
    fn = F1[n]
    return lambda x: cf(fn(float(x)))


def atanh(x):
    if float(x) <= -1.0 or float(x) >= 1.0:
        raise ev_err('undefined')
    return cf(F1['atanh'](float(x)))


def muld(a, b):
    return a * b


CONST = {'pi': math.pi, 'e': math.e, 'epsilon': 2.220446049250313e-16}
UN = {
    '+': lambda x: x,
    '-': lambda x: ck(-x) if type(x) is int else -x,
    'inc': lambda x: ck(x + 1) if type(x) is int else cf(x + 1),
    'dec': lambda x: ck(x - 1) if type(x) is int else cf(x - 1),
    '\\': intf(lambda x: ~x),
    'lsb': lambda x: -1 if nonneg(x) == 0 else (x & -x).bit_length() - 1,
    'msb': lambda x: -1 if nonneg(x) == 0 else x.bit_length() - 1,
    'popcount': lambda x: bin(nonneg(x)).count('1'),
    'abs': lambda x: ck(abs(x)) if type(x) is int else abs(x),
    'sign': lambda x: (x > 0) - (x < 0) if type(x) is int else fsign(x),
    'float': lambda x: float(x),
    'ceiling': rnd(math.ceil), 'floor': rnd(math.floor), 'truncate': rnd(math.trunc),
    'round': rnd(lambda x: math.floor(x + 0.5)),
    'float_fractional_part': only_float(lambda x: x - dinteg(x)),
    'float_integer_part': only_float(dinteg),
    'log': logc(F1['log']), 'log10': logc(F1['log10']), 'atanh': atanh,
}
for _n in 'sqrt tan atan cos acos sin asin tanh cosh acosh sinh asinh exp'.split():
    UN[_n] = unf(_n)
BI = {
    '+': both(lambda x, y: x + y, lambda x, y: x + y),
    '-': both(lambda x, y: x - y, lambda x, y: x - y),
    '*': both(lambda x, y: x * y, muld),
    '/': fdiv,
    '//': intf(tdiv), 'div': intf(idiv), 'rem': intf(irem), 'mod': intf(imod),
    '/\\': intf(lambda x, y: x & y), '\\/': intf(lambda x, y: x | y), 'xor': intf(lambda x, y: x ^ y),
    '<<': intf(shl), '>>': intf(shr), 'gcd': intf(gcd),
    'min': minmax(1), 'max': minmax(-1),
    '^': lambda x, y: ipow(x, y) if type(x) is int and type(y) is int else fpow(x, y),
    '**': fpow, 'atan2': atan2, 'log': log_radix,
}
INT_UN = ['+', '-', 'inc', 'dec', '\\', 'lsb', 'msb', 'popcount', 'abs', 'sign']
INT_BI = ['+', '-', '*', '//', 'div', 'rem', 'mod', '/\\', '\\/', 'xor', '<<', '>>', 'gcd', 'min', 'max', '^']
ROUND = ['ceiling', 'floor', 'truncate', 'round']
APPROX = set('tan atan cos acos sin asin tanh atanh cosh acosh sinh asinh exp log log10 ** ^ atan2'.split())


def _eval(t, env, strict):
    ty = type(t)
    if ty is int or ty is float:
        return t
    if ty is Var:
        if t.id in env:
            return _eval(env[t.id], env, strict)
        raise Err(Atom('instantiation_error'))
    if ty is Atom:
        if t.name in CONST:
            return CONST[t.name]
        raise ty_err('evaluable', Cmp('/', (t, 0)))
    n = len(t.args)
    if t.name == '.' and n == 2:
        d = t.args[1]
        while type(d) is Var and d.id in env:
            d = env[d.id]
        if d is not NIL:
            raise ty_err('evaluable', Cmp('/', (Atom('.'), 2)))
        x = t.args[0]
        while type(x) is Var and x.id in env:
            x = env[x.id]
        if type(x) is int:
            return x
        if type(x) is Var:
            raise Err(Atom('instantiation_error'))
        raise ty_err('integer', resolve(x, env))
    fn = UN.get(t.name) if n == 1 else BI.get(t.name) if n == 2 else None
    vals, forms = [], []
    for a in t.args if fn else ():
        try:
            vals.append(_eval(a, env, strict))
        except Err as e:
            forms += e.forms
    if fn is None:
        raise ty_err('evaluable', Cmp('/', (Atom(t.name), n)))
    if forms:
        raise Err(*forms)
    if t.name in ROUND and n == 1:
        return fn(vals[0], strict)
    return fn(*vals)


def resolve(t, env):
    return subst(t, env)


def evaluate(t, env=None, strict=True):
    try:
        return 'v', _eval(t, env or {}, strict)
    except Err as e:
        return 'e', e.forms
    except OverflowError:
        return 'e', [Cmp('evaluation_error', (Atom('float_overflow'),)), Cmp('evaluation_error', (Atom('int_overflow'),))]


def compare_nums(op, x, y):
    if type(x) is int and type(y) is int:
        pass
    else:
        x, y = float(x), float(y)
    return {'=:=': x == y, '=\\=': x != y, '<': x < y, '=<': x <= y, '>': x > y, '>=': x >= y}[op]


def ulps(a, b):
    def k(d):
        i = struct.unpack('>q', struct.pack('>d', d))[0]
        return i if i >= 0 else -(i & 0x7fffffffffffffff)
    return abs(k(a) - k(b))


def uses_approx(t):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is Cmp:
            if x.name in APPROX:
                return True
            st.extend(x.args)
    return False


def value_matches(got, want, tol=0):
    if type(got) is not type(want):
        return False
    if type(want) is int:
        return got == want
    return struct.pack('>d', got) == struct.pack('>d', want) or (tol and ulps(got, want) <= tol)
