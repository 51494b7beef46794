#!/usr/bin/env python3
"""C09: term construction, inspection and copying are faithful."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.refcase import *
from gpv.run import Sys
import random

MAXAR = 255
_nv = [0]


def fresh():
    _nv[0] += 1
    return Var('N%d_' % _nv[0])


def ltail(l):
    n = []
    while is_list_cell(l):
        n.append(l.args[0])
        l = l.args[1]
    return n, l


def r_functor(t, n, a):
    if type(t) is Var:
        E = []
        if type(n) is Var or type(a) is Var:
            E.append(INST)
        if type(n) is Cmp:
            E.append(terr('atomic', n))
        if type(a) not in (Var, int):
            E.append(terr('integer', a))
        if type(a) is int:
            if a > MAXAR:
                E.append(rerr('max_arity'))
            if a < 0:
                E.append(derr('not_less_than_zero', a))
            if a > 0 and type(n) in (int, float):
                E += [terr('atom', n), terr('callable', n)]
        if E:
            raise Err(*E)
        if a == 0:
            return uni((t, n))
        return uni((t, Cmp(n.name, [fresh() for _ in range(a)])))
    E = []
    if type(n) not in (Var, Atom):
        E += [terr('atomic', n), terr('atom', n)]
    if type(a) not in (Var, int):
        E.append(terr('integer', a))
    if type(n) is Var and (type(a) is Var and n.id == a.id or type(a) is Cmp and n.id in {v.id for v in term_vars(a)}):
        raise Alt('any')
    if type(t) is Cmp:
        s = uni((n, Atom(t.name)), (a, len(t.args)))
    else:
        s = uni((n, t), (a, 0))
    return alt(E, s)


class Alt(Exception):
    pass


def alt(E, s):
    """undocumented for a bound first argument: an error of E, or the plain outcome"""
    if E and s is None:
        raise Alt(E)
    return s


def r_arg(n, t, a):
    E = []
    if type(n) is Var or type(t) is Var:
        E.append(INST)
    if type(n) not in (Var, int):
        E.append(terr('integer', n))
    if type(t) not in (Var, Cmp):
        E.append(terr('compound', t))
    if type(n) is int and n < 0:
        E.append(derr('not_less_than_zero', n))
    if E:
        raise Err(*E)
    if 1 <= n <= len(t.args):
        return uni((a, t.args[n - 1]))


def r_univ(t, l):
    its, tl = ltail(l)
    E = []
    if tl is not NIL and type(tl) is not Var:
        E.append(terr('list', l))
    if type(t) is Var:
        if type(tl) is Var:
            E.append(INST)
        if its and type(its[0]) is Var:
            E.append(INST)
        if tl is NIL and not its:
            E.append(derr('non_empty_list', NIL))
        if tl is NIL and len(its) - 1 > MAXAR:
            E.append(rerr('max_arity'))
    if its and (tl is not NIL or len(its) > 1) and type(its[0]) not in (Atom, Var):
        E += [terr('atom', its[0]), terr('atomic', its[0]), terr('callable', its[0])]
    if its and len(its) == 1 and tl is NIL and type(its[0]) is Cmp:
        E.append(terr('atomic', its[0]))
    if type(t) is Var and E:
        raise Err(*E)
    if type(t) is Var:
        return uni((t, Cmp(its[0].name, its[1:]) if len(its) > 1 else its[0]))
    if type(t) is Cmp:
        s = uni((l, mklist([Atom(t.name)] + list(t.args))))
    else:
        s = uni((l, mklist([t])))
    if its and type(its[0]) not in (Atom, Var):
        E += [terr('atom', its[0]), terr('atomic', its[0])]
    return alt(E, s)


def rename(t):
    m = {}
    return subst(t, {v.id: fresh() for v in term_vars(t)})


def r_copy(t, u):
    return uni((u, rename(t)))


def r_tv(t, l):
    its, tl = ltail(l)
    if tl is not NIL and type(tl) is not Var:
        raise Err(terr('list', l))
    return uni((l, mklist(term_vars(t))))


def r_tv3(t, l, tail):
    return uni((l, mklist(term_vars(t), tail)))


def match(g, s):
    """one-sided: binds variables of g only (g and s may share variables)"""
    m = {}
    st = [(g, s)]
    while st:
        x, y = st.pop()
        if type(x) is Var:
            if x.id in m:
                if not same_exact(m[x.id], y):
                    return False
            else:
                m[x.id] = y
        elif type(x) is not type(y):
            return False
        elif type(x) is Cmp:
            if x.name != y.name or len(x.args) != len(y.args):
                return False
            st.extend(zip(x.args, y.args))
        elif x != y:
            return False
    sv = {v.id for v in term_vars(s)}
    # a variable of the specific term must not be bound by it
    return all(not (k in sv) or (type(v) is Var and v.id == k) for k, v in m.items())


def same_exact(a, b):
    return compare(a, b, lambda p, q: 0 if p.id == q.id else 1) == 0


def r_subsumes(g, s):
    return match(g, s)


def is_l(t):
    return ltail(t)[1] is NIL


def is_pl(t):
    return type(ltail(t)[1]) is Var


TT = {'var': lambda t: type(t) is Var, 'nonvar': lambda t: type(t) is not Var, 'atom': lambda t: type(t) is Atom,
      'integer': lambda t: type(t) is int, 'float': lambda t: type(t) is float, 'number': lambda t: type(t) in (int, float),
      'atomic': lambda t: type(t) in (int, float, Atom), 'compound': lambda t: type(t) is Cmp,
      'callable': lambda t: type(t) in (Atom, Cmp), 'ground': lambda t: not term_vars(t), 'is_list': is_l, 'list': is_l,
      'partial_list': is_pl, 'list_or_partial_list': lambda t: is_l(t) or is_pl(t), 'acyclic_term': lambda t: True}


def vname(n):
    return chr(65 + n % 26) + (str(n // 26) if n >= 26 else '')


def numbering(t, frm, named=False, excl=()):
    s = {}
    n = frm
    for v in term_vars(t):
        while n in excl:
            n += 1
        s[v.id] = Cmp('$VARNAME', [Atom(vname(n))]) if named else Cmp('$VAR', [n])
        n += 1
    return s, n


def num_of_name(s):
    if s and 'A' <= s[0] <= 'Z' and (s[1:] == '' or (s[1:].isdigit() and s[1] != '0')):
        return (int(s[1:]) if s[1:] else 0) * 26 + ord(s[0]) - 65


def r_numbervars(t, f, n):
    E = []
    if type(f) is Var:
        E.append(INST)
    elif type(f) is not int:
        E.append(terr('integer', f))
    if type(n) not in (Var, int):
        E.append(terr('integer', n))
    if type(f) is int and f < 0:
        E.append(derr('not_less_than_zero', f))
    if E:
        raise Err(*E)
    s, nx = numbering(t, f)
    return post(s, (n, nx))


def post(s, *pairs):
    """substitution s then unifications"""
    for a, b in pairs:
        s = unify(subst(a, s), subst(b, s), s)
        if s is None or s == 'cyclic':
            return s
    return s


def counts(t):
    c = {}
    st = [t]
    while st:
        x = st.pop()
        if type(x) is Var:
            c[x.id] = c.get(x.id, 0) + 1
        elif type(x) is Cmp:
            st.extend(x.args)
    return c


def r_singleton(t):
    return {k: Cmp('$VARNAME', [Atom('_')]) for k, n in counts(t).items() if n == 1}


def r_queryvars(l, rest):
    its, tl = ltail(l)
    E = []
    if type(tl) is Var:
        E.append(INST)
    elif tl is not NIL:
        E.append(terr('list', l))
    rt = ltail(rest)[1]
    if rt is not NIL and type(rt) is not Var:
        E.append(terr('list', rest))
        if term_vars(rest):
            raise Alt('any')
    if E and not (type(rest) is Var and rest.id == 'X'):
        raise Alt('any')
    if E:
        raise Err(*E)
    s, out = {}, []
    for e in its:
        e1 = subst(e, s)
        if type(e1) is Cmp and e1.name == '=' and len(e1.args) == 2 and type(e1.args[0]) is Atom and type(e1.args[1]) is Var:
            s[e1.args[1].id] = Cmp('$VARNAME', [e1.args[0]])
        else:
            out.append(e)
    return post(s, (rest, mklist(out)))


def leaf(r, vs):
    k = r.random()
    if vs and k < .35:
        return r.choice(vs)
    return G.const(r, G.ATOMS)


def T(r, vs, d=None):
    k = r.random()
    if k < .12:
        return leaf(r, vs)
    if k < .16:
        n = r.choice([1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255])
        return Cmp(r.choice(['f', 'g', '.', '[]', '{}', ',', '']), [leaf(r, vs) for _ in range(n)])
    if k < .19:
        n = r.choice([5, 17, 60, 200])
        t = leaf(r, vs)
        for _ in range(n):
            t = Cmp('s', [t]) if r.random() < .5 else Cmp('.', [leaf(r, vs), t])
        return t
    return G.term(r, d or r.choice([1, 2, 3, 3, 4]), vs, r.choice([.2, .4, .6]), G.ATOMS if r.random() < .4 else G.SIMPLE)


def anyarg(r, vs):
    return r.choice([lambda: leaf(r, vs), lambda: T(r, vs, 1), lambda: r.choice(vs), lambda: r.randint(-2, 4)])()


def gen(r):
    vs = [Var('V%d' % i) for i in range(r.choice([1, 2, 3, 5]))]
    X = Var('X')
    k = r.random()
    if k < .15:
        t = X if r.random() < .4 else T(r, vs)
        if type(t) is Var:
            n = r.choice([Atom(r.choice(G.ATOMS)), r.choice(G.INTS), 1.5, anyarg(r, vs)]) if r.random() < .9 else r.choice(vs)
            a = r.choice([0, 0, 1, 2, 3, 5, 16, 64, 255, 256, 257, 1000, 254, 255, 256, 4096, 1 << 31, (1 << 32) + 2, 1 << 59, -1, -(1 << 32)])
            if r.random() < .15:
                a = anyarg(r, vs)
        else:
            nm = Atom(t.name) if type(t) is Cmp else t
            ar = len(t.args) if type(t) is Cmp else 0
            n = r.choice([nm, r.choice(vs), G.near_const(r, nm), anyarg(r, vs)])
            a = r.choice([ar, r.choice(vs), ar + 1, ar + (1 << 32), ar ^ 1, anyarg(r, vs)])
            if type(t) is Cmp and t.name == '.' and r.random() < .3:
                n, a = Atom('.'), 2
        return 'functor', [t, n, a], r_functor, vs + [X]
    if k < .27:
        t = T(r, vs) if r.random() < .9 else anyarg(r, vs)
        ar = len(t.args) if type(t) is Cmp else 2
        n = r.choice([r.randint(1, max(1, ar)), r.randint(1, max(1, ar)), 1, ar, ar, 0, ar + 1, -1, 1 << 32, (1 << 32) + 1, 1 << 59, anyarg(r, vs)])
        a = X
        if type(t) is Cmp and type(n) is int and 1 <= n <= ar and r.random() < .5:
            a = G.mutate(r, t.args[n - 1], vs) if r.random() < .7 else G.near_miss(r, t.args[n - 1], .3)
        return 'arg', [n, t, a], r_arg, vs + [X]
    if k < .41:
        t = X if r.random() < .5 else T(r, vs)
        if type(t) is Var or r.random() < .2:
            h = Atom(r.choice(G.ATOMS)) if r.random() < .8 else anyarg(r, vs)
            n = r.choice([0, 0, 1, 1, 2, 3, 5, 30, 100, 256, 254, 255, 257, 1000])
            l = mklist([h] + [leaf(r, vs) for _ in range(n)], NIL if r.random() < .9 else anyarg(r, vs))
            if r.random() < .04:
                l = r.choice([NIL, anyarg(r, vs)])
        else:
            its = [Atom(t.name)] + list(t.args) if type(t) is Cmp else [t]
            its = [G.mutate(r, x, vs, .1, .01) if r.random() < .5 else x for x in its]
            if r.random() < .2:
                its = its[:-1] or its
            if r.random() < .2:
                its = its + [r.choice(vs)]
            if r.random() < .1:
                its[0] = G.near_const(r, its[0])
            l = mklist(its)
            if r.random() < .3:
                l = mklist(its[:r.randint(0, len(its))], r.choice(vs))
            if r.random() < .3:
                l = r.choice(vs)
        return '=..', [t, l], r_univ, vs + [X]
    if k < .53:
        t = T(r, vs)
        u = r.choice([X, X, G.mutate(r, t, vs, .2), G.mutate(r, rename(t) if 0 else t, [Var('W%d' % i) for i in range(3)], .2), G.near_miss(r, t, .1), anyarg(r, vs)])
        return 'copy_term', [t, u], r_copy, vs + [X] + [Var('W%d' % i) for i in range(3)]
    if k < .62:
        t = T(r, vs)
        if r.random() < .5:
            n = len(term_vars(t))
            L = [Var('L%d' % i) for i in range(n)]
            l = r.choice([X, mklist(L), mklist(L[:-1]), mklist(L[:1], X), mklist(L + [X]), mklist([leaf(r, vs) for _ in range(n)]), anyarg(r, vs), mklist(L, Atom('foo'))])
            return 'term_variables', [t, l], r_tv, vs + [X] + L
        return 'term_variables', [t, r.choice([X, mklist([Var('L0')], X), anyarg(r, vs)]), r.choice([Var('Tl'), NIL, anyarg(r, vs)])], r_tv3, vs + [X, Var('L0'), Var('Tl')]
    if k < .71:
        s = T(r, vs)
        ws = [Var('W%d' % i) for i in range(3)]
        g = G.mutate(r, s, r.choice([ws, ws, ws + vs]), r.choice([.1, .3, .5]), .01)
        if r.random() < .3:
            g = subst(g, {v.id: r.choice(ws) for v in term_vars(g) if v in vs})
        if r.random() < .15:
            g, s = s, g
        return 'subsumes_term', [g, s], r_subsumes, vs + ws
    if k < .83:
        t = r.choice([T, lambda r, v: mklist([leaf(r, v) for _ in range(r.randint(0, 4))], r.choice([NIL, NIL, leaf(r, v)])), anyarg])(r, vs)
        n = r.choice(list(TT))
        return n, [t], lambda t, n=n: TT[n](t), vs
    if k < .90:
        t = T(r, vs)
        k2 = r.random()
        if k2 < .3:
            return 'numbervars', [t], lambda t: r_numbervars(t, 0, fresh()), vs
        if k2 < .6:
            n0 = r.choice([0, 0, 1, 25, 26, 7, 700, 1 << 31, anyarg(r, vs)])
            m = len(term_vars(t))
            nx = r.choice([X, X, X, n0 + m if type(n0) is int else X, n0 + m + 1 if type(n0) is int else X, anyarg(r, [X])])
            return 'numbervars', [t, n0, nx], r_numbervars, vs + [X]
        frm = r.choice([None, 0, 3, 25, 26])
        named = r.choice([None, 'numbervars', 'namevars', 'namevars'])
        ex = None
        opts = []
        if frm is not None:
            opts.append(Cmp('from', [frm]))
        if named:
            if r.random() < .2:
                opts.append(Atom('namevars' if named == 'numbervars' else 'numbervars'))
            opts.append(Atom(named))
        opts.append(Cmp('next', [X]))
        excl = set()
        if r.random() < .5:
            ex = []
            for _ in range(r.randint(1, 4)):
                n = (frm or 0) + r.randint(0, 4)
                excl.add(n)
                ex.append(r.choice([Cmp('$VAR', [n]), Cmp('$VARNAME', [Atom(vname(n))]), Cmp('=', [Atom(vname(n)), Atom('x')]), Cmp('f', [Cmp('$VAR', [n]), Atom('a')])]))
            if r.random() < .3:
                ex.append(Cmp('=', [Atom('Foo'), Atom('x')]))
            opts.append(Cmp('exclude', [mklist(ex)]))
        # the last of numbervars/namevars applies
        kinds = [o.name for o in opts if type(o) is Atom]
        nm = bool(kinds) and kinds[-1] == 'namevars'

        def f(t, o, nm=nm, frm=frm or 0, excl=frozenset(excl)):
            s, nx = numbering(t, frm, nm, excl)
            if not term_vars(t) and excl:
                raise Alt('any')
            # next: (last integer used)+1
            return post(s, (X, nx))
        return 'bind_variables', [t, mklist(opts)], f, vs + [X]
    if k < .94:
        if r.random() < .5:
            return 'name_singleton_vars', [T(r, vs)], r_singleton, vs
        its = [r.choice([lambda: Cmp('=', [Atom(r.choice('AXZ')), r.choice(vs)]), lambda: Cmp('=', [Atom('Y'), T(r, vs, 1)]), lambda: T(r, vs, 1), lambda: Cmp('=', [leaf(r, vs), r.choice(vs)])])() for _ in range(r.randint(0, 5))]
        return 'name_query_vars', [mklist(its, NIL if r.random() < .95 else Var('PT')), r.choice([X, X, NIL, anyarg(r, vs)])], r_queryvars, vs + [X]
    # setarg sequence
    return None


def setarg_case(r):
    vs = [Var('V%d' % i) for i in range(3)]
    n = r.choice([1, 2, 3, 5, 20])
    t = Cmp(r.choice(['f', 'g']), [leaf(r, vs) for _ in range(n)]) if r.random() < .8 else mklist([leaf(r, vs) for _ in range(2)])
    n = len(t.args)
    cur = list(t.args)
    other = list(t.args)
    goals = []
    for _ in range(r.randint(1, 5)):
        i = r.choice([r.randint(1, n), r.randint(1, n), n, 1])
        k = r.random()
        if k < .3:
            v = T(r, vs, 1)
            goals.append(f'setarg({i}, S, {text(v)})' if r.random() < .5 else f'setarg({i}, S, {text(v)}, true)')
            cur[i - 1] = v
        elif k < .55:
            v = r.choice([Atom('new'), 7, -(1 << 60), Atom('')])
            goals.append(r.choice([f'nb_setarg({i}, S, {text(v)})', f'setarg({i}, S, {text(v)}, false)', f'( nb_setarg({i}, S, {text(v)}), fail ; true )']))
            cur[i - 1] = v
        elif k < .75:
            goals.append(f'( setarg({i}, S, {text(T(r, vs, 1))}), fail ; true )')
        elif k < .85:
            goals.append(f'\\+ setarg({r.choice([0, n + 1, (1 << 32) + 1, 1 << 40])}, S, x)')
        elif k < .93:
            e, g = r.choice([(derr('not_less_than_zero', -1), 'setarg(-1, S, x)'), (INST, 'setarg(_, S, x)'), (INST, 'setarg(1, _, x)'),
                             (terr('compound', Atom('a')), 'setarg(1, a, x)'), (terr('integer', Atom('a')), 'setarg(a, S, x)'),
                             (terr('atomic', Cmp('h', [1])), 'setarg(1, S, h(1), false)'), (terr('boolean', 3), 'setarg(1, S, x, 3)'), (INST, 'setarg(1, S, x, _)')])
            goals.append(f'catch(({g}, fail), error(E, _), E == {text(e)})' if e is not INST else f'catch(({g}, fail), error(E, _), E == instantiation_error)')
            goals[-1] = goals[-1].replace('E', 'E%d' % len(goals)).replace('type_err', 'type_err')
        else:
            goals.append(f'( copy_term(S, C), setarg({i}, C, zzz), C \\== S ; true )'.replace('C', 'C%d' % len(goals)) + ', !' if False else f'\\+ \\+ setarg({i}, S, zzz)')
    # undoing everything restores what the backtrackable assignments replaced
    tm = Cmp('v', [Var('S'), Var('Q')] + vs)
    return Case(f'=(S, {text(t)}), Q = k(S), ' + ', '.join(goals), text(tm), setarg_exp(t, cur, vs))


def setarg_exp(t, cur, vs):
    u = Cmp(t.name, cur)
    return sols_are([Cmp('v', [u, Cmp('k', [u])] + vs)])


def hash_case(r):
    k = r.random()
    t = T(r, [], r.choice([1, 2, 3, 4]))
    if k < .25:
        # equal terms built differently
        g = f"=(A, {text(t)}), term_hash(A, H1), '$rebuild'(A, B), term_hash(B, H2), copy_term(A, C), term_hash(C, -1, 0, H3), integer(H1), H1 >= 0, H1 < 268435456"

        def f(o):
            x = o.sols[0].args if len(o.sols) == 1 else None
            if o.state != 'end' or x is None or not (x[0] == x[1] == x[2] and type(x[0]) is int):
                return 'equal terms must have equal hashes in range'
        return Case(g, 'h(H1,H2,H3)', f)
    if k < .45:
        # depth: below the limit nothing matters
        d = r.choice([0, 1, 2, 3])

        def chop(t, d):
            if d == 0:
                return r.choice([1, Atom('zz'), 2.5])
            return Cmp(t.name, [chop(x, d - 1) for x in t.args]) if type(t) is Cmp else t
        u = chop(t, d)
        rg = r.choice([0, 1, 2, 10, 1000, 1 << 20])

        def f(o):
            x = o.sols[0].args if len(o.sols) == 1 else None
            if o.state != 'end' or x is None or type(x[0]) is not int or x[0] != x[1] or x[0] < 0 or (rg and x[0] >= rg) or x[0] >= 268435456:
                return f'hash at depth {d} range {rg} must not depend on deeper subterms and be in range'
        return Case(f'term_hash({text(t)}, {d}, {rg}, H), term_hash({text(u)}, {d}, {rg}, H2)', 'h(H,H2)', f)
    if k < .6:
        v = G.mutate(r, t, [Var('V')], .3, 0)
        if not term_vars(v):
            v = Cmp('f', [t, Var('V')])
        return Case(f'term_hash({text(v)}, H)', 'h(H,V)', sols_are([Cmp('h', [Var('H'), Var('V')])]))
    if k < .75:
        # the full term is considered: variants differing in one leaf do not all collide
        def put(t, x, path):
            if not path:
                return x
            a = list(t.args)
            a[path[0]] = put(a[path[0]], x, path[1:])
            return Cmp(t.name, a)
        path, u = [], t
        while type(u) is Cmp:
            i = r.randrange(len(u.args))
            path.append(i)
            u = u.args[i]
        kind = r.choice(['i', 'a', 'f'])
        xs = [{'i': i * 7 + 1, 'a': Atom('q%d' % i), 'f': i + .5}[kind] for i in range(10)]

        def f(o):
            if len(o.sols) != 1 or o.state != 'end':
                return 'expected one solution'
            hs = unlist(o.sols[0])
            if len(set(hs)) < 2:
                return 'hashes of ten terms differing in one leaf are all equal'
        return Case(', '.join(f'term_hash({text(put(t, x, path))}, H{i})' for i, x in enumerate(xs)), '[' + ','.join('H%d' % i for i in range(10)) + ']', f)
    if k < .85:
        e, g = r.choice([(INST, 'term_hash(a, _, 0, _)'), (INST, 'term_hash(a, 1, _, _)'), (terr('integer', Atom('x')), 'term_hash(a, x, 0, _)'),
                         (terr('integer', Atom('y')), 'term_hash(a, 1, y, _)'), (derr('not_less_than_zero', -3), 'term_hash(a, 1, -3, _)'), (terr('integer', Atom('h')), 'term_hash(a, h)')])
        return Case(g, 'x', formal_is(e))
    # references
    return Case(f'=(A, {text(t)}), term_ref(A, R), integer(R), R >= 0, term_ref(B, R), A == B, term_ref(A, R)', 'h(A,B)', sols_are([Cmp('h', [t, t])]))


CYC = [('X = f(X)', 'X'), ('X = f(a,g(X),b)', 'X'), ('X = [a|X]', 'X'), ('X = [a,b,X]', 'X'), ('X = f(Y), Y = g(X)', 'h(a,Y)'), ('X = f(Y,Y), Y = g(z,X)', '[1,2,X]'),
       ('X = [Y], Y = k([X|_])', 'p(Y)')]


def cyc_case(r):
    mk, t = r.choice(CYC)
    if r.random() < .5:
        w = Cmp('w', [T(r, [Var('Z')]), Var('PH'), T(r, [Var('Z')])])
        tt = text(w).replace('PH', t)
    else:
        tt = t
    return Case(f'\\+ \\+ ( {mk}, \\+ acyclic_term({tt}) ), W = done', 'W', sols_are([Atom('done')]))


def big_case(r):
    n = r.choice([1000, 20000, 100000])
    k = r.randrange(3)
    if k == 0:
        return Case(f"length(L, {n}), copy_term(L-L, A-B), A == B, A \\== L, length(A, {n}), term_variables(A, Vs), Vs == A, numbervars(L, 0, E), last(L, Z), term_variables(L, VL)", 'r(E,Z,VL)',
                    sols_are([Cmp('r', [n, Cmp('$VAR', [n - 1]), NIL])]))
    if k == 1:
        m = r.choice([3, 100, 255])
        return Case(f"functor(T, foo, {m}), arg({m}, T, zz), arg(1, T, aa), T =.. [F|L], length(L, N), last(L, Z), U =.. [F|L], U == T, term_variables(T, V), length(V, VN), copy_term(T, C), functor(C, CN, CA)", 'r(F,N,Z,VN,CN,CA)',
                    sols_are([Cmp('r', [Atom('foo'), m, Atom('zz'), m - 2, Atom('foo'), m])]))
    return Case(f"'$deep'({n}, X, T), copy_term(T, C), subsumes_term(T, C), subsumes_term(C, T), \\+ ground(T), term_variables(T, [Y]), acyclic_term(T), Y == X, X = 1, ground(T), term_hash(T, H), '$deep'({n}, 1, T2), term_hash(T2, H2), (H == H2 -> E = 1 ; E = 0)",
                'E', sols_are([1]))


PRE = """'$deep'(0, X, X) :- !.
'$deep'(N, X, f(a,T)) :- N1 is N-1, '$deep'(N1, X, T).
'$rebuild'(A, B) :- compound(A), !, A =.. [F|L], '$rebuildl'(L, M), B =.. [F|M].
'$rebuild'(A, B) :- atom(A), !, atom_codes(A, L), atom_codes(B, L).
'$rebuild'(A, B) :- B is A + 0.
'$rebuildl'([], []).
'$rebuildl'([X|L], [Y|M]) :- '$rebuild'(X, Y), '$rebuildl'(L, M).
"""


def make(r, n):
    out = []
    while len(out) < n:
        k = r.random()
        if k < .05:
            out.append(setarg_case(r))
            continue
        if k < .11:
            out.append(hash_case(r))
            continue
        if k < .125:
            out.append(cyc_case(r))
            continue
        if k < .13:
            out.append(big_case(r))
            continue
        g = gen(r)
        if not g:
            out.append(setarg_case(r))
            continue
        name, args, f, vs = g
        E = None
        try:
            o = outcome(f, *args)
        except Alt as a:
            if a.args[0] == 'any':
                continue
            o = ('s', [])
            E = a.args[0]
        if any(s == 'cyclic' for s in o[1]) if o[0] == 's' else False:
            continue
        c = case([Cmp(name, args)], vs, o, style=r.choice([0, 0, 1]))
        if len(c.goal) > 20000 and r.random() < .8:
            continue
        if E:
            ok1, ok2 = c.expect, formal_is(*E)
            c.expect = lambda o, a=ok1, b=ok2: None if a(o) is None or b(o) is None else a(o)
        c.key = f'{name}/{len(args)}'
        c.note = name
        out.append(c)
    return out


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c09/{seed}/{mode}/{i}')
    cases = make(r, n)
    m = 'native' if mode == 'san' else mode
    run_batch(part, SAN if mode == 'san' else SYS, cases, m, PRE, name='term-' + mode, env={'GLOBALSZ': '400000', 'LOCALSZ': '100000', 'MAX_ATOM': '400000'},
              keyf=lambda c: f'{mode}:{c.key or c.goal[:60]}')
    for c in cases:
        part.count('op ' + (c.note or 'other'))


def body():
    global SYS, SAN
    ck = Check('C09', rule='calls of the term-processing built-ins with arguments in every instantiation mode (all types, arities to 4096, long and deep terms, shared variables), native with inline '
               'instructions, byte-code and meta-called; every solution, all other variables and the errors compared with a reference model of the documentation; distinct by goal and mode')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 500, ck.seed) for i in range(ck.n(24, 240)) for m in ('native', 'byte', 'meta')]
    if SAN:
        jobs += [('san', i, 300, ck.seed) for i in range(20)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
