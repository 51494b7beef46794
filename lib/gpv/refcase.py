"""Cases whose expected outcome is computed on Python terms: a goal over variables, the terms
they are first bound to, and the outcome: fail, a set of acceptable errors, or substitutions."""
from .batch import *
from . import gen as G

INST = Atom('instantiation_error')


def terr(k, c):
    return Cmp('type_error', (Atom(k), c))


def derr(k, c):
    return Cmp('domain_error', (Atom(k), c))


def rerr(k):
    return Cmp('representation_error', (Atom(k),))


class Err(Exception):
    def __init__(self, *forms):
        self.forms = forms


FAILS = []


def outcome(f, *a):
    """('e', forms) or ('s', list of substitutions)"""
    try:
        r = f(*a)
    except Err as e:
        return ('e', e.forms)
    if r is None or r is False:
        return ('s', [])
    if r is True:
        return ('s', [{}])
    if type(r) is str:
        return ('s', [r])
    if type(r) is dict:
        return ('s', [r])
    return ('s', list(r))


def uni(*pairs):
    """simultaneous unification of pairs (a,b): dict, None, or 'cyclic'"""
    s = {}
    for a, b in pairs:
        s = unify(a, b, s)
        if s is None or s == 'cyclic':
            return s
    return s


def case(goal_terms, vs, out, style=0, lit=False, extra=None):
    """goal_terms: list of goal terms executed in order (conjunction). vs: variables to report.
    style: 0 arguments in place, 1 arguments bound before by =/2"""
    tmpl = Cmp('v', list(vs) + list(extra or [])) if (vs or extra) else Atom('v')
    g = []
    k = 0
    for t in goal_terms:
        if style and type(t) is Cmp and t is goal_terms[-1] or (style == 2 and type(t) is Cmp):
            args = []
            for a in t.args:
                v = 'A%d_' % k
                k += 1
                g.append(f'=({v}, {text(a)})')
                args.append(v)
            g.append((atext(t.name) if t.name not in ('[]', '{}', '!') else qatom(t.name)) + '(' + ', '.join(args) + ')')
        else:
            g.append(text(t))
    goal = ', '.join(g)
    if out[0] == 'e':
        exp = formal_is(*out[1]) if callable(formal_is) else None
    else:
        sols = [subst(tmpl, s) for s in out[1]]
        exp = sols_are(sols)
    return Case(goal, text(tmpl), exp)
