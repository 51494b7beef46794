"""Random term generation."""
from .terms import *

ATOMS = ['a', 'b', 'c', 'foo', 'bar', '[]', '{}', 'hello world', "it's", '+', '-', '*', ',', '|', ';', '!', 'A', '_x', '\\', 'é'.encode('latin-1').decode('latin-1'),
         '', ' ', 'f', 'g', '.', '[]x', 'end_of_file', '\n', 'is', 'a1', '\a\b\x0b\x0c\x7f\x01', 'aVeryLongAtomNameWithManyCharactersToCrossAnyFixedBufferSizeInTheSystem_0123456789']
SIMPLE = ['a', 'b', 'c', 'foo', '[]', 'f', 'g', 'x y']
INTS = [0, 1, -1, 2, 3, 42, 255, 256, -128, (1 << 31) - 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 53) + 1, (1 << 60) - 1, -(1 << 60), (1 << 59)]
FLTS = [0.0, 1.0, -1.0, 1.5, 3.14, 1e10, -2.5e-7, 1e300, 5e-324]
FUNS = [('f', 1), ('f', 2), ('g', 1), ('g', 2), ('h', 3), ('.', 2), ('.', 2), ('+', 2), ('-', 1), ('k', 5), ('foo', 1), ('{}', 1)]


def const(r, atoms=SIMPLE):
    k = r.random()
    if k < .5:
        return Atom(r.choice(atoms))
    if k < .85:
        return r.choice(INTS) if r.random() < .6 else r.randint(-5, 5)
    return r.choice(FLTS)


IMIN, IMAX = -(1 << 60), (1 << 60) - 1
PFX = ['a' * 15, 'a' * 31, 'a' * 32, 'abcdefgh' * 8, 'x' * 255]


def near_name(r, n):
    """an atom text close to n: same prefix, same length, other case, longer, shorter, swapped"""
    k = r.randrange(9)
    if len(n) > 300:
        k = r.randrange(1, 6)
    if k == 0 or not n:
        return n + r.choice('a1_\xff A')
    if k == 1:
        return n[:-1]
    if k == 2:
        return n[:-1] + chr((ord(n[-1]) ^ 1) or 1)
    if k == 3:
        return ''.join(c.swapcase() if c < '\x80' else c for c in n)
    if k == 4:
        return n[::-1]
    if k == 5:
        i = r.randrange(len(n))
        return n[:i] + r.choice('abz\xe9') + n[i + 1:]
    if k == 6:
        return n + n
    if k == 7:
        return r.choice(PFX) + n
    return r.choice(PFX) + near_name(r, n)


def near_int(r, v):
    k = r.randrange(8)
    if k < 2:
        w = v + r.choice([1, -1])
    elif k < 4:
        w = v ^ (1 << r.choice([31, 32, 33, 58, 59, 15, 16, 7, 8, r.randrange(60)]))
    elif k == 4:
        w = -v
    elif k == 5:
        w = v + r.choice([1, -1]) * (1 << r.choice([31, 32, 53, 59]))
    else:
        return float(v)
    return min(max(w, IMIN), IMAX)


def near_float(r, v):
    import math
    if v != v or abs(v) == float('inf'):
        return 0.0
    k = r.randrange(8)
    if k < 2:
        w = math.nextafter(v, r.choice([float('inf'), float('-inf')]))
    elif k < 4:
        w = v * (1 + r.choice([1e-9, -1e-9, 1e-12, 1e-15, 1e-7]))
    elif k == 4:
        w = -v
    elif k == 5:
        import struct
        try:
            w = struct.unpack('f', struct.pack('f', v))[0]
        except OverflowError:
            w = 0.0
    elif k == 6 and abs(v) < 1e18:
        return min(max(int(v) + r.choice([0, 0, 1, -1]), IMIN), IMAX)
    else:
        w = v + 1
    if w == 0:
        return 0.0         # 0.0 and -0.0 unify: which of them is seen is not specified
    return w if abs(w) != float('inf') else 1.7976931348623157e308


def near_const(r, t):
    if type(t) is int:
        return near_int(r, t)
    if type(t) is float:
        return near_float(r, t)
    if type(t) is Atom:
        return Atom(near_name(r, t.name))
    return t


def near_miss(r, t, p=.03):
    """t with some constants or functors replaced by close ones"""
    if type(t) is Cmp:
        n, a = t.name, [near_miss(r, x, p) for x in t.args]
        if r.random() < p and n != '.':
            return Cmp(near_name(r, n), a)
        return Cmp(n, a)
    return near_const(r, t) if r.random() < p else t


def prefixed(r, t, p=.5):
    """t with its atoms and functors given a common long prefix"""
    pre = r.choice(PFX)

    def go(t):
        if type(t) is Cmp:
            return Cmp(pre + t.name if t.name != '.' and r.random() < p else t.name, [go(x) for x in t.args])
        if type(t) is Atom and r.random() < p and t.name != '[]':
            return Atom(pre + t.name)
        return t
    return go(t)


def term(r, depth, vars_, pv=.3, atoms=SIMPLE, funs=FUNS, big=0.02):
    """vars_: list of Var to choose from (may be empty)"""
    k = r.random()
    if depth <= 0 or k < .15:
        if vars_ and r.random() < pv:
            return r.choice(vars_)
        return const(r, atoms)
    if vars_ and k < .15 + pv * .4:
        return r.choice(vars_)
    if k < .35:
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        tail = NIL if not vars_ or r.random() < .7 else r.choice(vars_)
        return mklist([term(r, depth - 1, vars_, pv, atoms, funs, big) for _ in range(n)], tail)
    if r.random() < big:
        n = r.choice([8, 16, 17, 32, 64, 100])
        return Cmp(r.choice(atoms) if atoms else 'w', [term(r, 1 if r.random() < .2 else 0, vars_, pv, atoms, funs, 0) for _ in range(n)])
    f, n = r.choice(funs)
    return Cmp(f, [term(r, depth - 1, vars_, pv, atoms, funs, big) for _ in range(n)])


def mutate(r, t, vars_, p=.15, kill=.02):
    """replace random subterms by variables, sometimes by other terms"""
    k = r.random()
    if k < p and vars_:
        return r.choice(vars_)
    if k < p + kill:
        return term(r, 1, vars_)
    if type(t) is Cmp:
        return Cmp(t.name, [mutate(r, a, vars_, p, kill) for a in t.args])
    return t
