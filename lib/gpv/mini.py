"""Reference Prolog engine (pure Python): depth-first left-to-right resolution with ISO control.

Bindings are kept in a dict with a trail; the continuation is a linked list of frames
(goal, cut_height, next).  Active catches are found on the continuation."""
from .terms import *
from . import arith as A


class Throw(Exception):
    def __init__(self, ball):
        self.ball = ball


class Skip(Exception):
    """outside what the model decides (ambiguous error, cyclic term, too long)"""


class Halt(Exception):
    pass


T = Atom
TRUE, FAIL = Atom('true'), Atom('fail')


def err(formal):
    return Throw(Cmp('error', (formal, Var('ctx'))))


def typ(k, c):
    return err(Cmp('type_error', (Atom(k), c)))


CONTROL = {',', ';', '->', '*->', '!', 'call'}


class Frame:
    __slots__ = ('goal', 'cut', 'next')

    def __init__(self, goal, cut, next):
        self.goal, self.cut, self.next = goal, cut, next


class CP:
    __slots__ = ('trail', 'resume', 'dead')

    def __init__(self, trail, resume):
        self.trail, self.resume, self.dead = trail, resume, False


class Engine:
    def __init__(self, steps=4000):
        self.b = {}
        self.trail = []
        self.db = {}            # (name, arity) -> list of clause objects [head, body, alive]
        self.events = []
        self.steps = 0
        self.work = 0
        self.limit = steps
        self.nv = 0
        self.g = {}
        self.depth = 0
        self.dynamic = set()
        self.track = None       # optional coverage set
        self.strict_lists = False
        self.ext = {}           # (name, arity) -> function giving the goal to call instead

    # -- terms
    def fresh(self):
        self.nv += 1
        return Var('_%d' % self.nv)

    def walk(self, t):
        b = self.b
        while type(t) is Var:
            n = b.get(t.id)
            if n is None:
                return t
            t = n
        return t

    def res(self, t):
        t = self.walk(t)
        if type(t) is not Cmp:
            return t
        if is_list_cell(t):
            items = []
            while is_list_cell(t):
                items.append(self.res(t.args[0]))
                t = self.walk(t.args[1])
            return mklist(items, self.res(t))
        return Cmp(t.name, [self.res(a) for a in t.args])

    def bind(self, v, t):
        self.b[v.id] = t
        self.trail.append(v.id)

    def undo(self, n):
        tr = self.trail
        while len(tr) > n:
            e = tr.pop()
            if type(e) is tuple:
                e[0](e[1])
            else:
                del self.b[e]

    def unify(self, a, b):
        # after a clash the other pairs are still looked at: a real unification in another order
        # may meet a cycle first
        st = [(a, b)]
        ok = True
        while st:
            x, y = st.pop()
            x, y = self.walk(x), self.walk(y)
            if x is y:
                continue
            if type(x) is Var:
                if type(y) is Var:
                    if x.id == y.id:
                        continue
                elif type(y) is Cmp and self.occurs(x, y):
                    raise Skip('cyclic')
                self.bind(x, y)
            elif type(y) is Var:
                if type(x) is Cmp and self.occurs(y, x):
                    raise Skip('cyclic')
                self.bind(y, x)
            elif type(x) is not type(y):
                ok = False
            elif type(x) is Cmp:
                if x.name != y.name or len(x.args) != len(y.args):
                    ok = False
                    continue
                st.extend(zip(reversed(x.args), reversed(y.args)))
            elif type(x) is Atom:
                if x is not y:
                    ok = False
            elif x != y:
                ok = False
        return ok

    def occurs(self, v, t):
        st = [t]
        n = 0
        while st:
            x = self.walk(st.pop())
            if type(x) is Var:
                if x.id == v.id:
                    return True
            elif type(x) is Cmp:
                n += 1
                if n > 3000:
                    raise Skip('big')
                st.extend(x.args)
        self.work += n
        if self.work > 40000:
            raise Skip('work')
        return False

    def rename(self, *ts):
        m = {}

        def go(x):
            if type(x) is Var:
                v = m.get(x.id)
                if v is None:
                    v = m[x.id] = self.fresh()
                return v
            if type(x) is Cmp:
                if is_list_cell(x):
                    items = []
                    while is_list_cell(x):
                        items.append(go(x.args[0]))
                        x = x.args[1]
                    return mklist(items, go(x))
                return Cmp(x.name, [go(a) for a in x.args])
            return x
        return [go(t) for t in ts]

    def copy(self, t):
        return self.rename(self.res(t))[0]

    # -- database
    def add(self, head, body=TRUE, front=False):
        k = (head.name, len(head.args)) if type(head) is Cmp else (head.name, 0)
        l = self.db.setdefault(k, [])
        c = [head, self.conv(body), True]
        if front:
            l.insert(0, c)
        else:
            l.append(c)
        return c

    # -- goals
    def check_body(self, g, whole=None):
        """ISO: converting a term to a goal: every part must be callable or a variable"""
        g = self.walk(g)
        whole = g if whole is None else whole
        st = [g]
        while st:
            x = self.walk(st.pop())
            if type(x) in (int, float):
                raise typ('callable', self.res(whole))
            if type(x) is Cmp and x.name in (',', ';', '->', '*->') and len(x.args) == 2:
                st += [x.args[1], x.args[0]]

    def conv(self, g):
        """variables in goal positions become call(Var) (body conversion)"""
        g = self.walk(g)
        if type(g) is Var:
            return Cmp('call', (g,))
        if type(g) is Cmp and g.name in (',', ';', '->', '*->') and len(g.args) == 2:
            return Cmp(g.name, (self.conv(g.args[0]), self.conv(g.args[1])))
        return g

    def solve_iter(self, goal, depth=0):
        """yields once per solution (bindings current in self)"""
        if depth > 60:
            raise Skip('nesting')
        cps = []
        trail0 = len(self.trail)
        cont = Frame(goal, 0, None)
        while True:
            try:
                r = self.run(cont, cps, depth)
            except Throw as t:
                raise t
            if not r:
                self.undo(trail0)
                return
            yield True
            # backtrack
            if not cps:
                self.undo(trail0)
                return
            cont = FAILF

    def once(self, goal, depth):
        """first solution, choice points dropped, bindings kept"""
        for _ in self.solve_iter(goal, depth):
            return True
        return False

    def backtrack(self, cps):
        while cps:
            cp = cps[-1]
            if cp.dead:
                cps.pop()
                continue
            self.undo(cp.trail)
            k = cp.resume
            if type(k) is list:          # clause alternatives [goal, clauses, idx, next]
                return k
            cps.pop()
            if k is None:                # barrier of catch
                continue
            return k
        return None

    def run(self, cont, cps, depth):
        st = [None]
        while True:
            try:
                r = self.run0(cont, cps, depth, st)
                return r
            except Throw as t:
                ball = self.copy(t.ball)
                # innermost active catch on the continuation at the time of the throw
                f = st[0]
                while f is not None:
                    if type(f.goal) is tuple and f.goal[0] == 'catch_exit':
                        _, h, trl, catcher, recov, cut2, nxt = f.goal
                        del cps[h:]
                        self.undo(trl)
                        mark = len(self.trail)
                        if self.unify(catcher, ball):
                            cont = Frame(('callg', recov), 0, nxt)
                            break
                        self.undo(mark)
                    f = f.next
                else:
                    raise Throw(ball)

    def run0(self, cont, cps, depth, st_):
        while True:
            st_[0] = cont
            if cont is None:
                return True
            if cont is FAILF:
                k = self.backtrack(cps)
                if k is None:
                    return False
                if type(k) is list:
                    cont = self.try_clauses(k, cps)
                else:
                    cont = k
                continue
            self.steps += 1
            if self.steps > self.limit:
                raise Skip('steps')
            goal, cut, nxt = cont.goal, cont.cut, cont.next
            if type(goal) is tuple:
                op = goal[0]
                if op == 'cutto':
                    del cps[goal[1]:]
                    cont = nxt
                elif op == 'softcut':
                    goal[1].dead = True
                    cont = nxt
                elif op == 'catch_exit':
                    if len(cps) == goal[1] + 1:
                        cps.pop()
                    cont = nxt
                elif op == 'callg':
                    cont = Frame(self.goal_check(goal[1]), len(cps), nxt)
                elif op == 'bagnext':
                    cont = self.bag_next(goal, cps, nxt)
                elif op == 'alts':
                    cont = self.alts(goal, cps, nxt)
                elif op == 'nth':
                    goal[1][0] += 1
                    if type(goal[2]) is int:
                        if goal[1][0] == goal[2]:
                            del cps[goal[3]:]
                            cont = nxt
                        else:
                            cont = FAILF
                    else:
                        cont = nxt if self.unify(goal[2], goal[1][0]) else FAILF
                continue
            goal = self.walk(goal)
            tg = type(goal)
            if tg is Var:
                cont = Frame(('callg', goal), 0, nxt)
                continue
            if tg in (int, float):
                raise typ('callable', goal)
            name = goal.name
            args = goal.args if tg is Cmp else ()
            n = len(args)
            if n == 0:
                if name == 'true':
                    cont = nxt
                    continue
                if name in ('fail', 'false'):
                    cont = FAILF
                    continue
                if name == '!':
                    del cps[cut:]
                    cont = nxt
                    continue
            elif n == 2:
                if name == ',':
                    cont = Frame(args[0], cut, Frame(args[1], cut, nxt))
                    continue
                if name == ';':
                    l = self.walk(args[0])
                    h = len(cps)
                    if type(l) is Cmp and len(l.args) == 2 and l.name in ('->', '*->'):
                        cp = CP(len(self.trail), Frame(args[1], cut, nxt))
                        cps.append(cp)
                        then = Frame(l.args[1], cut, nxt)
                        if l.name == '->':
                            cont = Frame(l.args[0], h + 1, Frame(('cutto', h), 0, then))
                        else:
                            cont = Frame(l.args[0], h + 1, Frame(('softcut', cp), 0, then))
                        continue
                    cps.append(CP(len(self.trail), Frame(args[1], cut, nxt)))
                    cont = Frame(l, cut, nxt)
                    continue
                if name == '->':
                    h = len(cps)
                    cps.append(CP(len(self.trail), None))
                    cont = Frame(args[0], h + 1, Frame(('cutto', h), 0, Frame(args[1], cut, nxt)))
                    continue
                if name == '*->':
                    cont = Frame(args[0], len(cps), Frame(args[1], cut, nxt))
                    continue
            if name == 'call' and n >= 1:
                g = self.walk(args[0])
                if n > 1:
                    g = self.addargs(g, args[1:])
                cont = Frame(self.goal_check(g), len(cps), nxt)
                continue
            if (name, n) in self.ext:
                cont = Frame(self.goal_check(self.ext[name, n](self, *args)), len(cps), nxt)
                continue
            if name == '\\+' and n == 1:
                g = self.goal_check(args[0])
                m = len(self.trail)
                ok = self.once(g, depth + 1)
                self.undo(m)
                cont = FAILF if ok else nxt
                continue
            if name == 'once' and n == 1:
                g = self.goal_check(args[0])
                h = len(cps)
                cps.append(CP(len(self.trail), None))
                cont = Frame(g, h + 1, Frame(('cutto', h), 0, nxt))
                continue
            if name == 'ignore' and n == 1:
                self.goal_check(args[0])
                h = len(cps)
                cps.append(CP(len(self.trail), nxt if nxt is not None else TRUEF))
                cont = Frame(args[0], h + 1, Frame(('cutto', h), 0, nxt))
                continue
            if name == 'catch' and n == 3:
                h = len(cps)
                cps.append(CP(len(self.trail), None))
                ce = ('catch_exit', h, len(self.trail), args[1], args[2], cut, nxt)
                f = Frame(ce, 0, nxt)
                cont = Frame(('callg', args[0]), 0, f)
                continue
            if name == 'throw' and n == 1:
                if type(self.walk(args[0])) is Var:
                    raise err(Atom('instantiation_error'))
                raise Throw(self.res(args[0]))
            if name == 'findall' and n in (3, 4):
                g = self.goal_check(args[1])
                for a in args[2:]:
                    if not list_ok(self, a):
                        if not self.strict_lists:
                            raise Skip('findall checks')
                        raise typ('list', self.res(a))
                out = []
                m = len(self.trail)
                for _ in self.solve_iter(g, depth + 1):
                    out.append(self.copy(args[0]))
                self.undo(m)
                ok = self.unify(args[2], mklist(out, NIL if n == 3 else args[3]))
                cont = nxt if ok else FAILF
                continue
            if name == 'forall' and n == 2:
                m = len(self.trail)
                self.goal_check(args[0])
                self.goal_check(args[1])
                ok = not self.once(Cmp(',', (Cmp('call', (args[0],)), Cmp('\\+', (args[1],)))), depth + 1)
                self.undo(m)
                cont = nxt if ok else FAILF
                continue
            if name == 'countall' and n == 2:
                m = len(self.trail)
                g = self.goal_check(args[0])
                if type(self.walk(args[1])) not in (Var, int) or type(self.walk(args[1])) is int and self.walk(args[1]) < 0:
                    raise Skip('countall checks')
                c = sum(1 for _ in self.solve_iter(g, depth + 1))
                self.undo(m)
                cont = nxt if self.unify(args[1], c) else FAILF
                continue
            if name == 'call_nth' and n == 2:
                k = self.walk(args[1])
                if type(k) not in (Var, int):
                    raise typ('integer', self.res(k))
                if type(k) is int and k < 0:
                    raise err(Cmp('domain_error', (Atom('not_less_than_zero'), k)))
                if k == 0 and type(k) is int:
                    cont = FAILF
                    continue
                h = len(cps)
                cps.append(CP(len(self.trail), None))
                cont = Frame(('callg', args[0]), 0, Frame(('nth', [0], k, h), 0, nxt))
                continue
            if name == 'repeat' and n == 0:
                cps.append(CP(len(self.trail), cont))
                cont = nxt if nxt is not None else TRUEF
                continue
            if name in ('bagof', 'setof') and n == 3:
                cont = self.bagof(name, args, cps, nxt, depth)
                continue
            k = (name, n)
            cl = self.db.get(k)
            if cl is not None:
                snap = [c for c in cl if c[2]] if k in self.dynamic else cl
                cont = self.try_clauses([goal, snap, 0, nxt], cps, True)
                continue
            f = BIP.get(k)
            if f is not None:
                r = f(self, *args)
                if r is True:
                    cont = nxt
                elif r is False:
                    cont = FAILF
                else:                   # list of alternatives: each a list of (term, term) pairs to unify
                    cont = self.alts(('alts', r, 0), cps, nxt)
                continue
            if k in self.dynamic:
                cont = FAILF
                continue
            raise err(Cmp('existence_error', (Atom('procedure'), Cmp('/', (Atom(name), n)))))

    def goal_check(self, g):
        g = self.walk(g)
        if type(g) is Var:
            raise err(Atom('instantiation_error'))
        self.check_body(g)
        return self.conv(g)

    def addargs(self, g, extra):
        if type(g) is Var:
            raise err(Atom('instantiation_error'))
        if type(g) is Atom:
            return Cmp(g.name, extra)
        if type(g) is Cmp:
            return Cmp(g.name, g.args + tuple(extra))
        raise typ('callable', self.res(Cmp('call', (g,) + tuple(extra))) if False else g)

    def try_clauses(self, k, cps, new=False):
        goal, cls, i, nxt = k
        n = len(cls)
        isdyn = (goal.name, len(goal.args) if type(goal) is Cmp else 0) in self.dynamic
        cutb = len(cps) - (0 if new else 1)
        m = len(self.trail)
        gargs = goal.args if type(goal) is Cmp else ()
        while i < n:
            head, body, alive = cls[i]
            i += 1
            h, bd = self.rename(head, body)
            ok = True
            if gargs:
                for a, b in zip(gargs, h.args):
                    if not self.unify(a, b):
                        ok = False
                        break
            if ok:
                if self.track is not None:
                    self.track.add((goal.name, i))
                if i < n:
                    if new:
                        cps.append(CP(m, [goal, cls, i, nxt]))
                    else:
                        cps[-1].resume[2] = i
                elif not new:
                    cps.pop()
                return Frame(bd, cutb, nxt)
            self.undo(m)
        if not new:
            cps.pop()
        return FAILF

    def alts(self, st, cps, nxt):
        _, alts, i = st
        m = len(self.trail)
        while i < len(alts):
            a = alts[i]
            i += 1
            if all(self.unify(x, y) for x, y in a):
                if i < len(alts):
                    cps.append(CP(m, Frame(('alts', alts, i), 0, nxt)))
                return nxt if nxt is not None else TRUEF
            self.undo(m)
        return FAILF

    # -- bagof / setof
    def bagof(self, kind, args, cps, nxt, depth):
        templ, goal, inst = args
        if self.strict_lists and not list_ok(self, inst):
            raise typ('list', self.res(inst))
        g = self.walk(goal)
        bound = list(term_vars(self.res(templ)))
        while type(g) is Cmp and g.name == '^' and len(g.args) == 2:
            bound += term_vars(self.res(g.args[0]))
            g = self.walk(g.args[1])
        g0 = g
        g = self.goal_check(g)
        bids = {v.id for v in bound}
        free = [v for v in term_vars(self.res(g0)) if v.id not in bids]
        w = Cmp('$w', free) if free else Atom('$w')
        out = []
        m = len(self.trail)
        for _ in self.solve_iter(g, depth + 1):
            out.append(self.copy(Cmp('-', (w, templ))).args)
        self.undo(m)
        if not out:
            return FAILF
        if not free:
            l = [o[1] for o in out]
            if kind == 'setof':
                l = self.sortu(l)
            return nxt_or(nxt, self.unify(inst, mklist(l)))
        # standard order of the witness; witnesses with variables make the order implementation dependent
        for o in out:
            if term_vars(o[0]):
                raise Skip('bagof with non-ground witness')
        groups = []
        for wt, t in sorted(out, key=lambda o: KeyT(o[0])):
            if groups and compare(groups[-1][0], wt) == 0:
                groups[-1][1].append(t)
            else:
                groups.append((wt, [t]))
        alts = []
        for wt, l in groups:
            if kind == 'setof':
                l = self.sortu(l)
            alts.append([(w, wt), (inst, mklist(l))])
        return self.alts(('alts', alts, 0), cps, nxt)

    def sortu(self, l):
        for x in l:
            if term_vars(x):
                raise Skip('ordering of variables')
        out = []
        for x in sorted(l, key=KeyT):
            if not out or compare(out[-1], x) != 0:
                out.append(x)
        return out

    # -- entry: same protocol as vcase
    def case(self, goal, templ, max_=None):
        """events as vcase logs them"""
        ev = self.events
        n = 0
        try:
            for _ in self.solve_iter(Cmp('call', (goal,))):
                ev.append(Cmp('sol', (self.res(templ),)))
                n += 1
                if max_ and n >= max_:
                    ev.append(Atom('cut'))
                    break
        except Throw as t:
            ev.append(Cmp('exc', (t.ball,)))
        ev.append(Atom('end'))
        return ev


def nxt_or(nxt, ok):
    return (nxt if nxt is not None else TRUEF) if ok else FAILF


class KeyT:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __lt__(self, o):
        return compare(self.t, o.t) < 0


FAILF = Frame('FAIL', 0, None)
TRUEF = Frame(TRUE, 0, None)


# ---- built-ins -----------------------------------------------------------

def arith(e, t):
    r = A.evaluate(e.res(t))
    if r[0] == 'e':
        if len({text(f) for f in r[1]}) > 1:
            raise Skip('ambiguous evaluation error')
        raise err(r[1][0])
    return r[1]


def b_is(e, x, y):
    return e.unify(x, arith(e, y))


def b_cmp(op):
    def f(e, x, y):
        a = b = None
        ra, rb = A.evaluate(e.res(x)), A.evaluate(e.res(y))
        errs = {text(z): z for r in (ra, rb) if r[0] == 'e' for z in r[1]}
        if len(errs) > 1:
            raise Skip('ambiguous evaluation error')
        if errs:
            raise err(list(errs.values())[0])
        return A.compare_nums(op, ra[1], rb[1])
    return f


def b_ty(pred):
    return lambda e, x: pred(e.walk(x))


def b_std(test):
    def f(e, x, y):
        a, b = e.res(x), e.res(y)

        def vc(p, q):
            if p.id == q.id:
                return 0
            raise Skip('order of variables')
        if test in ('==', '\\=='):
            r = compare(a, b, lambda p, q: 0 if p.id == q.id else 1)
            # the sign is irrelevant here
            return (r == 0) == (test == '==')
        r = compare(a, b, vc)
        return {'@<': r < 0, '@>': r > 0, '@=<': r <= 0, '@>=': r >= 0}[test]
    return f


def b_compare(e, o, x, y):
    ow = e.walk(o)
    if type(ow) is not Var and not (type(ow) is Atom and ow.name in ('<', '=', '>')):
        raise Skip('compare checks')
    a, b = e.res(x), e.res(y)

    def vc(p, q):
        if p.id == q.id:
            return 0
        raise Skip('order of variables')
    return e.unify(o, Atom('<=>'[compare(a, b, vc) + 1]))


def b_functor(e, t, n, a):
    t = e.walk(t)
    if type(t) is Var:
        n, a = e.walk(n), e.walk(a)
        if type(n) is Cmp or type(a) not in (Var, int):
            raise Skip('functor checks')
        if type(a) is int and a > 60:
            raise Skip('functor arity')
        if type(n) is Var or type(a) is Var:
            raise err(Atom('instantiation_error'))
        if type(a) is not int:
            raise typ('integer', a)
        if a == 0:
            if type(n) is Cmp:
                raise typ('atomic', e.res(n))
            return e.unify(t, n)
        if a < 0:
            raise err(Cmp('domain_error', (Atom('not_less_than_zero'), a)))
        if type(n) is Cmp:
            raise typ('atomic', e.res(n))
        if type(n) is not Atom:
            raise typ('callable', n) if False else Skip('functor name')
        return e.unify(t, Cmp(n.name, [e.fresh() for _ in range(a)]))
    if type(e.walk(n)) is Cmp or type(e.walk(a)) not in (Var, int) or (type(t) is Cmp and type(e.walk(n)) in (int, float)):
        raise Skip('functor checks')
    if type(e.walk(n)) is Var and e.walk(n) is e.walk(a):
        raise Skip('functor alias')
    if type(t) is Cmp:
        return e.unify(n, Atom(t.name)) and e.unify(a, len(t.args))
    return e.unify(n, t) and e.unify(a, 0)


def b_arg(e, n, t, a):
    n, t = e.walk(n), e.walk(t)
    if type(t) is Var:
        raise err(Atom('instantiation_error'))
    if type(t) is not Cmp:
        raise typ('compound', t)
    if type(n) is Var:
        raise err(Atom('instantiation_error'))
    if type(n) is not int:
        raise typ('integer', e.res(n))
    if n < 0:
        raise err(Cmp('domain_error', (Atom('not_less_than_zero'), n)))
    return 1 <= n <= len(t.args) and e.unify(a, t.args[n - 1])


def list_ok(e, l):
    l = e.walk(l)
    while is_list_cell(l):
        l = e.walk(l.args[1])
    return l is NIL or type(l) is Var


def b_univ(e, t, l):
    t = e.walk(t)
    if not list_ok(e, l):
        raise Skip('univ checks')
    if type(t) is not Var and is_list_cell(e.walk(l)):
        h = e.walk(e.walk(l).args[0])
        if type(h) is Cmp or (type(t) is Cmp and type(h) in (int, float)):
            raise Skip('univ checks')
    if type(t) is Var:
        items = []
        l0 = l
        l = e.walk(l)
        while is_list_cell(l):
            items.append(l.args[0])
            l = e.walk(l.args[1])
        if type(l) is Var:
            if items and type(e.walk(items[0])) in (Cmp, int, float):
                raise Skip('univ checks')
            raise err(Atom('instantiation_error'))
        if l is not NIL or not items:
            raise Skip('univ')
        h = e.walk(items[0])
        if type(h) is Cmp:
            raise Skip('univ checks')
        if len(items) == 1:
            if type(h) is Var:
                raise err(Atom('instantiation_error'))
            if type(h) is Cmp:
                raise typ('atomic', e.res(h))
            return e.unify(t, h)
        if type(h) is Var:
            raise err(Atom('instantiation_error'))
        if type(h) is not Atom:
            raise Skip('univ')
        return e.unify(t, Cmp(h.name, items[1:]))
    if type(t) is Cmp:
        return e.unify(l, mklist([Atom(t.name)] + list(t.args)))
    return e.unify(l, mklist([t]))


def b_out(e, x):
    e.events.append(Cmp('out', (e.res(x),)))
    return True


def b_gassign(e, k, v):
    e.g[e.walk(k).name] = e.copy(v)
    return True


def b_gread(e, k, v):
    return e.unify(v, e.copy(e.g.get(e.walk(k).name, 0)))


def b_between(e, l, h, x):
    l, h, x = e.walk(l), e.walk(h), e.walk(x)
    if type(l) is not int or type(h) is not int:
        raise Skip('between')
    if type(x) is int:
        return l <= x <= h
    if type(x) is not Var or h - l > 200:
        raise Skip('between')
    return [[(x, i)] for i in range(l, h + 1)]


def b_length(e, l, n):
    items = 0
    l = e.walk(l)
    while is_list_cell(l):
        items += 1
        l = e.walk(l.args[1])
    if l is NIL:
        return e.unify(n, items)
    n = e.walk(n)
    if type(l) is Var and type(n) is int and n >= items:
        return e.unify(l, mklist([e.fresh() for _ in range(n - items)]))
    if type(l) is Var and type(n) is int and 0 <= n < items:
        return False
    raise Skip('length')


def b_tv(e, t, l):
    return e.unify(l, mklist(term_vars(e.res(t))))


def b_assert(front):
    def f(e, c):
        c = e.copy(c)
        if type(c) is Cmp and c.name == ':-' and len(c.args) == 2:
            h, b = c.args
        else:
            h, b = c, TRUE
        k = (h.name, len(h.args) if type(h) is Cmp else 0)
        e.dynamic.add(k)
        e.add(h, b, front)
        return True
    return f


def b_retract(e, c):
    c = e.walk(c)
    if type(c) is Cmp and c.name == ':-' and len(c.args) == 2:
        h, b = e.walk(c.args[0]), c.args[1]
    else:
        h, b = c, TRUE
    k = (h.name, len(h.args) if type(h) is Cmp else 0)
    raise Skip('retract')


def is_callable(t):
    return type(t) in (Atom, Cmp)


def ground(e, t):
    return not term_vars(e.res(t))


def plist(e, t):
    t = e.walk(t)
    while is_list_cell(t):
        t = e.walk(t.args[1])
    return t is NIL


BIP = {
    ('=', 2): lambda e, x, y: e.unify(x, y),
    ('is', 2): b_is,
    ('var', 1): b_ty(lambda t: type(t) is Var), ('nonvar', 1): b_ty(lambda t: type(t) is not Var),
    ('atom', 1): b_ty(lambda t: type(t) is Atom), ('integer', 1): b_ty(lambda t: type(t) is int),
    ('float', 1): b_ty(lambda t: type(t) is float), ('number', 1): b_ty(lambda t: type(t) in (int, float)),
    ('atomic', 1): b_ty(lambda t: type(t) in (int, float, Atom)), ('compound', 1): b_ty(lambda t: type(t) is Cmp),
    ('callable', 1): b_ty(is_callable), ('ground', 1): ground, ('is_list', 1): plist, ('list', 1): plist,
    ('functor', 3): b_functor, ('arg', 3): b_arg, ('=..', 2): b_univ, ('compare', 3): b_compare,
    ('copy_term', 2): lambda e, x, y: e.unify(y, e.copy(x)),
    ('out', 1): b_out, ('g_assign', 2): b_gassign, ('g_read', 2): b_gread,
    ('between', 3): b_between, ('length', 2): b_length, ('term_variables', 2): b_tv,
    ('assertz', 1): b_assert(False), ('asserta', 1): b_assert(True),
}


def b_neq(e, x, y):
    m = len(e.trail)
    r = e.unify(x, y)
    e.undo(m)
    return not r


BIP[('\\=', 2)] = b_neq
for _o in ('=:=', '=\\=', '<', '=<', '>', '>='):
    BIP[(_o, 2)] = b_cmp(_o)
for _o in ('==', '\\==', '@<', '@>', '@=<', '@>='):
    BIP[(_o, 2)] = b_std(_o)
