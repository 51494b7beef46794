"""Renders a term as one of the many texts that denote it under a given operator table."""
from .terms import *
from .terms import _SAFE

SYM = set('+-*/\\^<>=~:.?@#&$')
LAYCH = ' \t\n\r\x0b\x0c'
PUN = '()[]{},|'


class Opt:
    def __init__(self, ops, dq='codes', bq='atom', simple=False, comments=True):
        self.ops, self.dq, self.bq, self.simple, self.comments = ops, dq, bq, simple, comments
        self.names = {n for (n, k) in ops}


def plain_atom(n):
    if not n:
        return False
    if 'a' <= n[0] <= 'z' and all(c in _SAFE for c in n):
        return True
    if n in ('[]', '{}', '!', ';'):
        return True
    return all(c in SYM for c in n) and n != '.' and not n.startswith('/*')


NAMED = {'\a': 'a', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't', '\v': 'v'}


def quoted(r, s, q, o, noesc=False):
    out = [q]
    if noesc:
        return q + s.replace(q, q + q) + q
    for c in s:
        k = r.random()
        if not o.simple and r.random() < .03:
            out.append('\\\n')
        if c == q:
            out.append(q + q if k < .5 else '\\' + q)
        elif c == '\\':
            out.append('\\\\')
        elif c in '\'"`' and k < .2:
            out.append('\\' + c)
        elif c in NAMED and k < .7:
            out.append('\\' + NAMED[c])
        elif c < ' ' or c == '\x7f':
            out.append('\\x%x\\' % ord(c) if k < .8 else '\\%o\\' % ord(c))
        elif not o.simple and k < .06:
            out.append(r.choice(['\\x%x\\', '\\x0%X\\', '\\%o\\', '\\00%o\\']) % ord(c))
        else:
            out.append(c)
    out.append(q)
    return ''.join(out)


def atom_tok(r, n, o):
    """(kind, text)"""
    if n in ('[]', '{}') and not o.simple and r.random() < .3:
        return ('pair', n)
    if plain_atom(n) and r.random() < .85:
        return ('name', n)
    if n == '[]':
        return ('name', n)          # '[]' quoted is the same atom too, but keep the common one
    return ('q', quoted(r, n, "'", o))


def num_tok(r, v, o):
    if type(v) is float:
        s = ftext(v)
        if not o.simple:
            m, e, x = s.partition('e')
            k = r.random()
            if k < .2:
                m = m.replace('.', '.', 1) + '0' * r.randint(1, 3)
            if k > .8 and not e:
                e, x = r.choice('eE'), r.choice(['0', '+0', '-00', '00'])
            if e and r.random() < .5:
                e = 'E'
            if x and x[0] not in '+-' and r.random() < .4:
                x = '+' + x
            s = m + e + x
            if k < .1:
                s = ('-0' + s[1:]) if s[0] == '-' else '0' + s
        return ('num', s)
    sg, a = ('-', -v) if v < 0 else ('', v)
    if o.simple or r.random() < .5:
        return ('num', sg + str(a))
    k = r.randrange(8)
    if k == 0:
        return ('num', sg + hex(a) if r.random() < .5 else sg + '0x%X' % a)
    if k == 1:
        return ('num', sg + '0o%o' % a)
    if k == 2:
        return ('num', sg + '0b' + bin(a)[2:])
    if k == 3:
        return ('num', sg + '00' + str(a))
    if 0 < a < 256 and k < 7:
        c = chr(a)
        if c == "'":
            return ('num', sg + r.choice(["0'''", "0'\\'"]))
        if c == '\\':
            return ('num', sg + "0'\\\\")
        if c in NAMED and r.random() < .6:
            return ('num', sg + "0'\\" + NAMED[c])
        if c < ' ' or c == '\x7f' or r.random() < .2:
            return ('num', sg + "0'" + r.choice(['\\x%x\\', '\\%o\\']) % a)
        return ('num', sg + "0'" + c)
    return ('num', sg + str(a))


class Render:
    def __init__(self, r, o, vname):
        self.r, self.o, self.vname = r, o, vname
        self.t = []         # tokens (kind, text); kind 'glue' forbids layout, 'lay' requires it

    def emit(self, *toks):
        self.t.extend(toks)

    def paren(self, t):
        self.emit(('p', '('))
        self.term(t, 1200)
        self.emit(('p', ')'))

    def isop(self, n):
        return n in self.o.names

    def atom(self, n, ctx):
        """ctx: 'arg' inside an argument list or list, 'op' as an operand, 'top'"""
        if self.isop(n) and (ctx == 'op' or ctx == 'arg' and (self.r.random() < .7 or n in ('|', ',')) or n in ('|',)):
            self.emit(('p', '('), atom_tok(self.r, n, self.o), ('p', ')'))
        else:
            self.emit(atom_tok(self.r, n, self.o))

    def pri(self, t):
        """[(kind, priority)] of the ways t can be written with operators"""
        if type(t) is not Cmp:
            return None
        if len(t.args) == 2:
            k = self.o.ops.get((t.name, 'infix'))
            return ('infix',) + k if k else None
        if len(t.args) == 1:
            l = [(kk,) + self.o.ops[(t.name, kk)] for kk in ('prefix', 'postfix') if (t.name, kk) in self.o.ops]
            return self.r.choice(l) if l else None
        return None

    def operand(self, t, mx, parent, side):
        """t below operator parent = (kind, p, type), side 'l' / 'r'"""
        r = self.r
        if r.random() < .06 and not self.o.simple:
            return self.paren(t)
        if type(t) is Atom:
            return self.atom(t.name, 'op')
        w = self.pri(t)
        if w and not (self.special(t) and r.random() < .7):
            kind, p, ty = w
            if p > mx:
                return self.paren(t)
            if p == parent[1]:
                ok = kind == parent[0] and ty == parent[2] and ty in ('yfx', 'xfy', 'fy', 'yf')
                if not ok:
                    return self.paren(t)
            return self.opform(t, w)
        self.term(t, mx, 'op', noop=True)

    def special(self, t):
        return is_list_cell(t) or t.name == '{}' and len(t.args) == 1

    def opform(self, t, w):
        r = self.r
        kind, p, ty = w
        if kind == 'infix':
            self.operand(t.args[0], p - (ty[0] == 'x'), w, 'l')
            self.emit(('punct', ',') if t.name == ',' else ('punct', '|') if t.name == '|' else atom_tok(r, t.name, self.o))
            if not (self.o.ops.get((t.name, 'prefix'))) or t.name in ('+', '-'):
                self.emit(('free', ''))
            self.operand(t.args[1], p - (ty[2] == 'x'), w, 'r')
        elif kind == 'postfix':
            self.operand(t.args[0], p - (ty[0] == 'x'), w, 'l')
            self.emit(atom_tok(r, t.name, self.o))
        else:
            self.emit(atom_tok(r, t.name, self.o))
            i = len(self.t)
            self.operand(t.args[0], p - (ty[1] == 'x'), w, 'r')
            first = self.t[i]
            if first[0] == 'num' and t.name in ('-', '+'):
                # would be a signed number
                self.t.insert(i, ('p', '('))
                self.emit(('p', ')'))
                first = self.t[i]
            if first[1] == '(':
                self.t.insert(i, ('lay', ''))

    def term(self, t, mx, ctx='top', noop=False):
        r = self.r
        ty = type(t)
        if ty is Var:
            return self.emit(('var', self.vname(t)))
        if ty is int or ty is float:
            return self.emit(num_tok(r, t, self.o))
        if not self.o.simple and r.random() < .03:
            return self.paren(t)
        if ty is Atom:
            q = self.strtok_atom(t.name)
            if q:
                return self.emit(q)
            return self.atom(t.name, ctx)
        if is_list_cell(t) and r.random() < .9:
            q = self.strtok(t)
            if q:
                return self.emit(q)
            return self.list(t)
        if t.name == '{}' and len(t.args) == 1 and r.random() < .8:
            self.emit(('p', '{'))
            self.term(t.args[0], 1200)
            return self.emit(('p', '}'))
        if not noop:
            w = self.pri(t)
            if w and w[1] <= mx and r.random() < .9:
                return self.opform(t, w)
        self.emit(('name', t.name) if t.name in ('[]', '{}') else atom_tok(r, t.name, self.o) if t.name != '.' else ('q', "'.'"), ('glue', ''), ('p', '('))
        for i, a in enumerate(t.args):
            if i:
                self.emit(('punct', ','))
            self.term(a, 999, 'arg')
        self.emit(('p', ')'))

    def list(self, t):
        r = self.r
        self.emit(('p', '['))
        first = True
        while is_list_cell(t):
            if not first:
                if r.random() < .05:
                    break
                self.emit(('punct', ','))
            first = False
            self.term(t.args[0], 999, 'arg')
            t = t.args[1]
        if t is not NIL or r.random() < .05:
            self.emit(('punct', '|'))
            self.term(t, 999, 'arg')
        self.emit(('p', ']'))

    def strtok(self, t):
        """list as a double or back quoted token"""
        r = self.r
        if r.random() < .3:
            return None
        try:
            l = unlist(t)
        except ValueError:
            return None
        for f, q in ((self.o.dq, '"'), (self.o.bq, '`')):
            ne = f.endswith('_no_escape')
            f = f.split('_')[0]
            if ne and any(x in (9, 10) or x in (Atom('\t'), Atom('\n')) for x in l if type(x) is int or type(x) is Atom):
                continue
            if f == 'codes' and all(type(x) is int and 0 < x < 256 for x in l):
                return ('q' + q, quoted(r, ''.join(map(chr, l)), q, self.o, ne))
            if f == 'chars' and all(type(x) is Atom and len(x.name) == 1 for x in l):
                return ('q' + q, quoted(r, ''.join(x.name for x in l), q, self.o, ne))
        return None

    def strtok_atom(self, n):
        r = self.r
        for f, q in ((self.o.dq, '"'), (self.o.bq, '`')):
            ne = f.endswith('_no_escape')
            f = f.split('_')[0]
            if ne and ('\n' in n or '\t' in n):
                continue
            if f == 'atom' and r.random() < .3 and not self.isop(n):
                return ('q' + q, quoted(r, n, q, self.o, ne))
        return None

    # ---- text

    def layout(self, need=False, nocomment=False, noslash=False):
        r, o = self.r, self.o
        if o.simple:
            return ' ' if need else ''
        out = ''
        k = r.random()
        n = 1 if need else 0
        if k < .25:
            n = max(n, r.choice([1, 1, 2, 3]))
        for i in range(n):
            j = r.random()
            if j < .75 or not o.comments:
                out += r.choice('   \n\t\r\x0b\x0c' if j < .6 else '\n')
            elif j < .87:
                out += '%' + self.junk('\n') + '\n'
            else:
                c = '/*' + self.junk('*/') + '*/'
                out += (' ' if not out and noslash else '') + c
        return out

    def junk(self, ban):
        r = self.r
        s = ''.join(r.choice("ab'\"`\\.,()[]{}|% /*0\n-X_\x80\xff\t") for _ in range(r.choice([0, 1, 3, 8])))
        if ban == '\n':
            s = s.replace('\n', ' ')
        else:
            while '*/' in s:
                s = s.replace('*/', '')
            if s.endswith('*') and False:
                s += ' '
        return s

    def join(self):
        """text, with the offset of the first token; ends with a full stop"""
        r = self.r
        out = [self.layout()]
        start = len(out[0])
        prev = None
        force = glue = free = False
        for tok in self.t:
            k, s = tok
            if k == 'lay':
                force = True
                continue
            if k == 'glue':
                glue = True
                continue
            if k == 'free':
                free = True
                continue
            if k == 'pair':
                seq = [s[0], self.layout(), s[1]]
                s = ''.join(seq)
            if prev is not None and not glue:
                need = force or needs(prev, s) and not (free and s[0] == '(')
                sym = prev[-1] in SYM
                l = self.layout(need, noslash=sym)
                if not l and sp_name(prev) and s[0] == '(':
                    l = ''
                out.append(l)
            out.append(s)
            prev = s
            force = glue = free = False
        l = self.layout(prev[-1] in SYM, noslash=prev[-1] in SYM)
        if not l and prev[-1] in '0123456789' and False:
            l = ' '
        out.append(l)
        out.append('.')
        self.dot = sum(map(len, out))
        e = r.random()
        out.append('\n' if self.o.simple or e < .6 else ' ' if e < .8 else '%' + self.junk('\n') + '\n' if self.o.comments else '\t')
        return ''.join(out), start, self.dot


def sp_name(s):
    return s[-1] in _SAFE or s[-1] in SYM or s[-1] == "'"


def needs(a, b):
    """must layout separate two consecutive tokens?"""
    x, y = a[-1], b[0]
    if x in _SAFE and (y in _SAFE or y in "'"):
        return True
    if a.startswith("0'") or a.startswith("-0'"):
        return True
    if x in _SAFE and y == '.':
        return True
    if x in SYM and y in SYM:
        return True
    if x in '\'"`' and y == x:
        return True
    if x in SYM and y in '0123456789' and a in ('-', '+'):
        return False
    if a == '|' and b[0] == '|':
        return True
    if y == '(' and (x in _SAFE or x in SYM or x in '\'"`!;]}' ):
        return True
    return False


def render(r, t, ops, dq='codes', bq='atom', simple=False, comments=True, vname=None):
    """(text ending with a full stop, offset of its first token, offset after the full stop)"""
    o = Opt(ops, dq, bq, simple, comments)
    R = Render(r, o, vname or (lambda v: '_G%s' % v.id))
    if type(t) is Cmp and o.ops:
        R.term(t, 1200)
    else:
        R.term(t, 1200)
    return R.join()
