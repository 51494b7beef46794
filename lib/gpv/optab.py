"""Operator tables: defaults of the system and random changes."""
from .preader import DEFOPS as _D

OPN = ['a', 'b', 'foo', 'is', 'mod', 'e', 'x', 'E1', '+', '-', '*', '/', '\\', '=', ':-', '?-', '-->', '->', ';', '|', ':', '.', '..', '<', '^', '**', '\\+', '#', '$', '&', '@', '!', 'A', 'A b', '',
       '_', '\xe9', '//', '--', '+-', '*/', '.(', ' ', '/*', '%', "it's", '0', '1', 'dynamic', 'true', 'end_of_file', '0x', 'e10', 'inf', '`', '"', '[', ']', '(', ')', '{', '}', '\n', '\\\n']
SPEC = ['fx', 'fy', 'xf', 'yf', 'xfx', 'xfy', 'yfx']
# the documented table of predefined operators
DEF = {}
for _k in ('infix', 'prefix'):
    for _n, _o in _D[_k].items():
        DEF[(_n, _k)] = _o
DEF[(':', 'infix')] = (600, 'xfy')
for _n in ('#=', '#\\=', '#<', '#=<', '#>', '#>=', '#=#', '#\\=#', '#<#', '#=<#', '#>#', '#>=#'):
    DEF[(_n, 'infix')] = (700, 'xfx')
for _n, _p in (('#<=>', 750), ('#\\<=>', 750)):
    DEF[(_n, 'infix')] = (_p, 'xfy')
for _n, _o in {'#/\\': (720, 'yfx'), '#\\/\\': (720, 'yfx'), '##': (730, 'xfy'), '#\\/': (730, 'yfx'), '#\\\\/': (730, 'yfx'), '#==>': (740, 'xfy'), '#\\==>': (740, 'xfy')}.items():
    DEF[(_n, 'infix')] = _o
DEF[('#\\', 'prefix')] = (710, 'fy')


def cls(t):
    return 'prefix' if t in ('fx', 'fy') else 'postfix' if t in ('xf', 'yf') else 'infix'


def mkops(r, DEFOPS=_D, n=None, names=OPN):
    """(ops (p, type, name) to apply, list undoing them, names changed)"""
    if n is None:
        n = r.choice([0, 0, 1, 2, 3, 5, 8])
    ops, cur = [], {}
    for _ in range(n):
        nm = r.choice(names)
        t = r.choice(SPEC)
        p = r.choice([0, 1, 1, 100, 200, 200, 400, 500, 699, 700, 701, 900, 998, 999, 1000, 1001, 1100, 1150, 1199, 1200, r.randint(1, 1200)])
        if nm in (',', '[]', '{}'):
            continue
        if nm == '|' and (cls(t) != 'infix' or 0 < p <= 1000):
            continue
        c = cls(t)
        other = {'infix': 'postfix', 'postfix': 'infix'}.get(c)
        if other and (nm, other) in cur or other and DEFOPS[other].get(nm) and (nm, other) not in cur:
            continue
        ops.append((p, t, nm))
        cur[(nm, c)] = (p, t)
    undo = []
    for (nm, c), (p, t) in cur.items():
        undo.append((0, t, nm))
    for (nm, c) in cur:
        d = DEFOPS[c].get(nm)
        if d:
            undo.append((d[0], d[1], nm))
    return ops, undo, [nm for (nm, c) in cur]


def table(ops, base=None):
    """{(name, kind): (p, type)} in force after ops"""
    t = dict(DEF if base is None else base)
    for p, ty, n in ops:
        if p:
            t[(n, cls(ty))] = (p, ty)
        else:
            t.pop((n, cls(ty)), None)
    return t
