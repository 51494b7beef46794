"""Prolog terms in Python: representation, event-log reader, reference unification,
standard order, canonical text."""
import struct


class Atom:
    __slots__ = ('name',)
    _t = {}

    def __new__(cls, name):
        a = cls._t.get(name)
        if a is None:
            a = object.__new__(cls)
            a.name = name
            cls._t[name] = a
        return a

    def __repr__(self):
        return 'A(%r)' % self.name

    def __reduce__(self):
        return (Atom, (self.name,))


class Var:
    __slots__ = ('id', 'fd')

    def __init__(self, id, fd=False):
        self.id = id
        self.fd = fd

    def __repr__(self):
        return '_%s' % self.id


class Cmp:
    __slots__ = ('name', 'args')

    def __init__(self, name, args):
        self.name = name
        self.args = tuple(args)

    def __repr__(self):
        return text(self)

    def __reduce__(self):
        return (Cmp, (self.name, self.args))

    def __deepcopy__(self, memo):
        return self


NIL = Atom('[]')


def mklist(items, tail=NIL):
    t = tail
    for x in reversed(items):
        t = Cmp('.', (x, t))
    return t


def is_list_cell(t):
    return type(t) is Cmp and t.name == '.' and len(t.args) == 2


def unlist(t):
    r = []
    while is_list_cell(t):
        r.append(t.args[0])
        t = t.args[1]
    if t is not NIL:
        raise ValueError('not a proper list')
    return r


# ---- event log ----------------------------------------------------------

class LogError(Exception):
    pass


def parse_log_term(s, pos=0):
    """s: str (latin-1) in the format of vlog_c.c"""
    stack = []          # [name, arity, args]
    vars_ = {}
    n = len(s)
    while True:
        if pos >= n:
            raise LogError('truncated')
        c = s[pos]
        if c == 'i':
            e = s.index(';', pos)
            v = int(s[pos + 1:e])
            pos = e + 1
        elif c == 'd':
            v = struct.unpack('>d', bytes.fromhex(s[pos + 1:pos + 17]))[0]
            pos += 17
        elif c in 'vf':
            e = s.index(';', pos)
            k = int(s[pos + 1:e])
            v = vars_.get(k)
            if v is None:
                v = vars_[k] = Var(k, c == 'f')
            pos = e + 1
        elif c == 'a':
            e = s.index(':', pos)
            cnt = int(s[pos + 1:e])
            v, pos = _raw(s, e + 1, cnt)
            v = Atom(v)
        elif c == '[':
            stack.append(['.', 2, []])
            pos += 1
            continue
        elif c == 's':
            e = s.index(':', pos)
            ar, cnt = s[pos + 1:e].split(',')
            nm, pos = _raw(s, e + 1, int(cnt))
            stack.append([nm, int(ar), []])
            continue
        else:
            raise LogError('bad char %r at %d in %r' % (c, pos, s[:80]))
        while stack:
            top = stack[-1]
            top[2].append(v)
            if len(top[2]) < top[1]:
                break
            v = Cmp(top[0], top[2])
            stack.pop()
        else:
            return v, pos


def _raw(s, pos, cnt):
    out = []
    seg = s[pos:pos + cnt]
    if '\\' not in seg:
        return seg, pos + cnt
    while cnt:
        c = s[pos]
        if c == '\\':
            out.append(chr(int(s[pos + 1:pos + 3], 16)))
            pos += 3
        else:
            out.append(c)
            pos += 1
        cnt -= 1
    return ''.join(out), pos


def read_events(path):
    """[(key, event)]: event None for a mark, else a term"""
    out = []
    try:
        with open(path, encoding='latin-1', newline='\n') as f:
            for line in f:
                if not line.endswith('\n'):
                    break
                k, _, rest = line[:-1].partition('\t')
                if rest == '>':
                    out.append((int(k), None))
                else:
                    try:
                        out.append((int(k), parse_log_term(rest)[0]))
                    except (LogError, ValueError):
                        out.append((int(k), Atom('$unreadable_event')))
    except FileNotFoundError:
        pass
    return out


# ---- text ---------------------------------------------------------------

def qatom(name):
    o = ["'"]
    for ch in name:
        c = ord(ch)
        if ch == "'":
            o.append("''")
        elif ch == '\\':
            o.append('\\\\')
        elif c < 32 or c >= 127:
            o.append('\\x%x\\' % c)
        else:
            o.append(ch)
    o.append("'")
    return ''.join(o)


_SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


def atext(name):
    if name and name[0].islower() and name[0] in _SAFE and all(c in _SAFE for c in name):
        return name
    if name in ('[]', '!', '{}'):
        return name
    return qatom(name)


def ftext(d):
    if d != d or d in (float('inf'), float('-inf')):
        raise ValueError
    s = repr(d)
    m, e, x = s.partition('e')
    if '.' not in m:
        m += '.0'
    return m + ('e' + x if e else '')


def text(t, vname=None):
    """canonical text, functional notation, everything quoted; variables _G<id> or vname(v)"""
    out = []
    st = [t]
    while st:
        x = st.pop()
        ty = type(x)
        if ty is str:
            out.append(x)
        elif ty is Cmp:
            if x.name == '.' and len(x.args) == 2:
                seq = ['[', x.args[0]]
                y = x.args[1]
                while is_list_cell(y):
                    seq += [',', y.args[0]]
                    y = y.args[1]
                if y is not NIL:
                    seq += ['|', y]
                seq.append(']')
                st.extend(reversed(seq))
            else:
                # '[]'(..) and '{}'(..) as functors need the quoted form
                seq = [(qatom(x.name) if x.name in ('[]', '!', '{}') else atext(x.name)) + '(']
                for i, a in enumerate(x.args):
                    if i:
                        seq.append(',')
                    seq.append(a)
                seq.append(')')
                st.extend(reversed(seq))
        elif ty is Atom:
            out.append(atext(x.name))
        elif ty is bool:
            raise TypeError
        elif ty is int:
            out.append(str(x) if x >= 0 else '(' + str(x) + ')' if False else str(x))
        elif ty is float:
            out.append(ftext(x))
        elif ty is Var:
            out.append(vname(x) if vname else ('_G%s' % x.id if isinstance(x.id, int) else str(x.id)))
        else:
            raise TypeError(type(x))
    return ''.join(out)


# ---- structural comparison ----------------------------------------------

def same(a, b, bij=True):
    """identical up to renaming of variables (variant); floats by bits"""
    m1, m2 = {}, {}
    st = [(a, b)]
    while st:
        x, y = st.pop()
        tx, ty = type(x), type(y)
        if tx is not ty:
            return False
        if tx is Var:
            if m1.setdefault(id(x) if False else x.id, y.id) != y.id or m2.setdefault(y.id, x.id) != x.id:
                return False
        elif tx is Cmp:
            if x.name != y.name or len(x.args) != len(y.args):
                return False
            st.extend(zip(x.args, y.args))
        elif tx is float:
            if struct.pack('>d', x) != struct.pack('>d', y):
                return False
        elif tx is Atom:
            if x is not y:
                return False
        elif x != y:
            return False
    return True


def cmp_float(x, y):
    return (x > y) - (x < y)


def key_class(t):
    ty = type(t)
    return {Var: 0, float: 1, int: 2, Atom: 3, Cmp: 4}[ty]


def bname(s):
    return s.encode('latin-1')


def compare(a, b, varcmp=None):
    """standard order of GNU Prolog (Var < Float < Integer < Atom < Compound):
    -1/0/1"""
    st = [(a, b)]
    while st:
        x, y = st.pop()
        cx, cy = key_class(x), key_class(y)
        if cx != cy:
            return -1 if cx < cy else 1
        if cx == 0:
            r = varcmp(x, y) if varcmp else (x.id > y.id) - (x.id < y.id)
        elif cx == 1:
            r = cmp_float(x, y)
        elif cx == 2:
            r = (x > y) - (x < y)
        elif cx == 3:
            r = (bname(x.name) > bname(y.name)) - (bname(x.name) < bname(y.name))
        else:
            if len(x.args) != len(y.args):
                return -1 if len(x.args) < len(y.args) else 1
            r = (bname(x.name) > bname(y.name)) - (bname(x.name) < bname(y.name))
            if r == 0:
                st.extend(reversed(list(zip(x.args, y.args))))
        if r:
            return r
    return 0


def term_vars(t):
    """variables in depth-first left-to-right order"""
    out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is Var:
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
        elif type(x) is Cmp:
            st.extend(reversed(x.args))
    return out


def size(t):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        n += 1
        if type(x) is Cmp:
            st.extend(x.args)
    return n


# ---- reference unification ----------------------------------------------

def walk(t, s):
    while type(t) is Var and t.id in s:
        t = s[t.id]
    return t


def occurs(v, t, s):
    st = [t]
    seen = set()
    while st:
        x = walk(st.pop(), s)
        if type(x) is Var:
            if x.id == v.id:
                return True
        elif type(x) is Cmp:
            if id(x) in seen:
                continue
            seen.add(id(x))
            st.extend(x.args)
    return False


def unify(a, b, s, oc=True):
    """substitution (dict id->term) extended, or None. With oc, a failed occurs check gives 'cyclic'
    (also when another pair of subterms clashes: the order of the real unification may meet the cycle first)."""
    s = dict(s)
    st = [(a, b)]
    ok = True
    while st:
        x, y = st.pop()
        x, y = walk(x, s), walk(y, s)
        if x is y:
            continue
        if type(x) is Var:
            if type(y) is Var and x.id == y.id:
                continue
            if type(y) is Cmp and occurs(x, y, s):
                return 'cyclic'
            s[x.id] = y
        elif type(y) is Var:
            if type(x) is Cmp and occurs(y, x, s):
                return 'cyclic'
            s[y.id] = x
        elif type(x) is not type(y):
            ok = False
        elif type(x) is Cmp:
            if x.name != y.name or len(x.args) != len(y.args):
                ok = False
            st.extend(zip(x.args, y.args))
        elif type(x) is float:
            if x != y:
                ok = False
        elif type(x) is Atom:
            if x is not y:
                ok = False
        elif x != y:
            ok = False
    return s if ok else None


def subst(t, s):
    """apply s deeply (acyclic)"""
    t = walk(t, s)
    if type(t) is not Cmp:
        return t
    if is_list_cell(t):
        items = []
        while is_list_cell(t):
            items.append(subst(t.args[0], s))
            t = walk(t.args[1], s)
        return mklist(items, subst(t, s))
    return Cmp(t.name, [subst(a, s) for a in t.args])
