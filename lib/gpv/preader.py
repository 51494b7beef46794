"""A Prolog reader in Python (ISO syntax, default operators, GNU flags): text -> terms."""
from .terms import *

DEFOPS = {
    'prefix': {':-': (1200, 'fx'), '?-': (1200, 'fx'), '\\+': (900, 'fy'), '-': (200, 'fy'), '+': (200, 'fy'), '\\': (200, 'fy'),
               'dynamic': None, },
    'infix': {':-': (1200, 'xfx'), '-->': (1200, 'xfx'), '|': (1105, 'xfy'), ';': (1100, 'xfy'), '->': (1050, 'xfy'), '*->': (1050, 'xfy'), ',': (1000, 'xfy'),
              '=': (700, 'xfx'), '\\=': (700, 'xfx'), '==': (700, 'xfx'), '\\==': (700, 'xfx'), '@<': (700, 'xfx'), '@>': (700, 'xfx'), '@=<': (700, 'xfx'), '@>=': (700, 'xfx'),
              'is': (700, 'xfx'), '=:=': (700, 'xfx'), '=\\=': (700, 'xfx'), '<': (700, 'xfx'), '>': (700, 'xfx'), '=<': (700, 'xfx'), '>=': (700, 'xfx'), '=..': (700, 'xfx'),
              ':': (600, 'xfy'), '+': (500, 'yfx'), '-': (500, 'yfx'), '/\\': (500, 'yfx'), '\\/': (500, 'yfx'), '*': (400, 'yfx'), '/': (400, 'yfx'), '//': (400, 'yfx'),
              'rem': (400, 'yfx'), 'mod': (400, 'yfx'), 'div': (400, 'yfx'), '<<': (400, 'yfx'), '>>': (400, 'yfx'), '**': (200, 'xfx'), '^': (200, 'xfy')},
    'postfix': {},
}
del DEFOPS['prefix']['dynamic']
SYM = set('+-*/\\^<>=~:.?@#&$')
ALNUM = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


class PSyntax(Exception):
    pass


def toks(s):
    i, n = 0, len(s)
    out = []
    while True:
        lay = False
        while i < n:
            if s[i].isspace():
                i += 1
                lay = True
            elif s[i] == '%':
                while i < n and s[i] != '\n':
                    i += 1
                lay = True
            elif s.startswith('/*', i):
                e = s.find('*/', i + 2)
                if e < 0:
                    raise PSyntax('comment')
                i = e + 2
                lay = True
            else:
                break
        if i >= n:
            out.append(('eof', None, lay))
            return out
        c = s[i]
        st = i
        if c in '0123456789':
            if c == '0' and i + 1 < n and s[i + 1] == "'":
                j = i + 2
                if s[j] == '\\':
                    v, j = esc(s, j)
                    out.append(('int', ord(v), lay))
                    i = j
                    continue
                if s[j] == "'" and s[j + 1:j + 2] == "'":
                    out.append(('int', 39, lay))
                    i = j + 2
                    continue
                out.append(('int', ord(s[j]), lay))
                i = j + 1
                continue
            if c == '0' and s[i + 1:i + 2] in ('x', 'o', 'b'):
                b = {'x': 16, 'o': 8, 'b': 2}[s[i + 1]]
                j = i + 2
                while j < n and s[j].lower() in '0123456789abcdef'[:b]:
                    j += 1
                if j > i + 2:
                    out.append(('int', int(s[i + 2:j], b), lay))
                    i = j
                    continue
            j = i
            while j < n and s[j] in '0123456789':
                j += 1
            if j + 1 < n and s[j] == '.' and s[j + 1] in '0123456789':
                j += 1
                while j < n and s[j] in '0123456789':
                    j += 1
                if j < n and s[j] in 'eE':
                    k = j + 1
                    if k < n and s[k] in '+-':
                        k += 1
                    if k < n and s[k] in '0123456789':
                        while k < n and s[k] in '0123456789':
                            k += 1
                        j = k
                out.append(('flt', float(s[i:j]), lay))
            else:
                out.append(('int', int(s[i:j]), lay))
            i = j
        elif c == '_' or (c.isupper() and c < '\x80'):
            j = i
            while j < n and s[j] in ALNUM:
                j += 1
            out.append(('var', s[i:j], lay))
            i = j
        elif c in ALNUM:
            j = i
            while j < n and s[j] in ALNUM:
                j += 1
            out.append(('name', s[i:j], lay))
            i = j
        elif c in '\'"`':
            j = i + 1
            b = []
            while True:
                if j >= n:
                    raise PSyntax('quoted')
                if s[j] == c:
                    if s[j + 1:j + 2] == c:
                        b.append(c)
                        j += 2
                        continue
                    j += 1
                    break
                if s[j] == '\\':
                    v, j = esc(s, j)
                    b.append(v)
                    continue
                b.append(s[j])
                j += 1
            out.append(({'\'': 'qname', '"': 'str', '`': 'bq'}[c], ''.join(b), lay))
            i = j
        elif c in '()[]{},|':
            if c == '|' and s[i + 1:i + 2] == '|':
                raise PSyntax('||')
            out.append(('punct', c, lay))
            i += 1
        elif c in '!;':
            out.append(('name', c, lay))
            i += 1
        elif c in SYM:
            j = i
            while j < n and s[j] in SYM:
                j += 1
            t = s[i:j]
            if t == '.' and (j >= n or s[j].isspace() or s[j] == '%'):
                out.append(('end', None, lay))
                i = j
                continue
            out.append(('name', t, lay))
            i = j
        else:
            raise PSyntax('char %r' % c)


ESC = {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v', '0': None, '\\': '\\', "'": "'", '"': '"', '`': '`', 'e': '\x1b', 's': ' ', 'z': '\x7f'}


def esc(s, j):
    c = s[j + 1]
    if c == 'x':
        e = s.index('\\', j + 2)
        return chr(int(s[j + 2:e], 16)), e + 1
    if c in '01234567':
        e = s.index('\\', j + 2)
        return chr(int(s[j + 1:e], 8)), e + 1
    if c == '\n':
        return '', j + 2
    if ESC.get(c):
        return ESC[c], j + 2
    raise PSyntax('escape')


class Reader:
    def __init__(self, text, ops=None, dq='codes'):
        self.t = toks(text)
        self.p = 0
        self.ops = ops or DEFOPS
        self.dq = dq

    def peek(self):
        return self.t[self.p]

    def next(self):
        x = self.t[self.p]
        self.p += 1
        return x

    def read(self):
        """next clause term or None at end; var names in self.vars"""
        self.vars = {}
        if self.peek()[0] == 'eof':
            return None
        x = self.expr(1200)[0]
        if self.next()[0] != 'end':
            raise PSyntax('end expected at %r' % (self.t[self.p - 1],))
        return x

    def all(self):
        r = []
        while True:
            x = self.read()
            if x is None:
                return r
            r.append(x)

    def isop(self, kind, name):
        o = self.ops[kind].get(name)
        return o if o and o[0] > 0 else None

    def anyop(self, name):
        return any(self.isop(k, name) for k in self.ops)

    def termstart(self):
        """does the next token start a term (for prefix operators)"""
        k, v, lay = self.peek()
        if k in ('eof', 'end'):
            return False
        if k == 'punct':
            return v in '([{'
        return True

    def expr(self, mx):
        left, lp = self.primary(mx)
        return self.infix(left, lp, mx)

    def infix(self, left, lp, mx):
        while True:
            k, v, lay = self.peek()
            if k == 'punct' and v in ',|':
                name = v
            elif k in ('name', 'qname'):
                name = v
            else:
                break
            o = self.isop('infix', name)
            done = False
            if o:
                p, ty = o
                la = p - (0 if ty[0] == 'y' else 1)
                ra = p - (0 if ty[2] == 'y' else 1)
                if p <= mx and lp <= la:
                    save = self.p
                    self.next()
                    try:
                        right = self.expr(ra)[0]
                        nm = name if not (name == '|') else '|'
                        if name == '|' and p >= 1001:
                            nm = '|'
                        left, lp = Cmp(nm, (left, right)), p
                        done = True
                    except PSyntax:
                        if not self.isop('postfix', name):
                            raise
                        self.p = save
            if not done:
                o = self.isop('postfix', name)
                if o:
                    p, ty = o
                    la = p - (0 if ty[0] == 'y' else 1)
                    if p <= mx and lp <= la:
                        self.next()
                        left, lp = Cmp(name, (left,)), p
                        done = True
            if not done:
                break
        return left, lp

    def arglist(self):
        a = [self.expr(999)[0]]
        while self.peek()[:2] == ('punct', ','):
            self.next()
            a.append(self.expr(999)[0])
        return a

    def expect(self, v):
        k = self.next()
        if k[:2] != ('punct', v):
            raise PSyntax('expected %s got %r' % (v, k))

    def primary(self, mx):
        k, v, lay = self.next()
        if k in ('int', 'flt'):
            return v, 0
        if k == 'var':
            if v == '_':
                self.vars['_%d' % len(self.vars)] = x = Var('_a%d' % self.p)
                return x, 0
            return self.vars.setdefault(v, Var(v)), 0
        if k in ('str', 'bq'):
            m = self.dq if k == 'str' else 'atom'
            if m == 'codes':
                return mklist([ord(c) for c in v]), 0
            if m == 'chars':
                return mklist([Atom(c) for c in v]), 0
            return Atom(v), 0
        if k == 'punct':
            if v == '(':
                x = self.expr(1200)[0]
                self.expect(')')
                return x, 0
            if v == '[':
                if self.peek()[:2] == ('punct', ']'):
                    self.next()
                    return self.atom_or_compound('[]', mx, 'name')
                its = self.arglist()
                tail = NIL
                if self.peek()[:2] == ('punct', '|'):
                    self.next()
                    tail = self.expr(999)[0]
                self.expect(']')
                return mklist(its, tail), 0
            if v == '{':
                if self.peek()[:2] == ('punct', '}'):
                    self.next()
                    return self.atom_or_compound('{}', mx, 'name')
                x = self.expr(1200)[0]
                self.expect('}')
                return Cmp('{}', (x,)), 0
            raise PSyntax('unexpected ' + v)
        if k in ('name', 'qname'):
            return self.atom_or_compound(v, mx, k)
        raise PSyntax('unexpected %s' % k)

    def atom_or_compound(self, v, mx, k):
        nk, nv, nl = self.peek()
        if nk == 'punct' and nv == '(' and not nl:
            self.next()
            a = self.arglist()
            self.expect(')')
            return Cmp(v, a), 0
        if k == 'name' and v == '-' and nk in ('int', 'flt') and not nl:
            self.next()
            return -nv, 0
        o = self.isop('prefix', v)
        if o:
            p, ty = o
            ra = p - (0 if ty[1] == 'y' else 1)
            # as an operand?
            save = self.p
            if self.termstart() and not (nk in ('name', 'qname') and self.isop('infix', nv) and not self.isop('prefix', nv) and not self.operand_after()):
                if p > mx:
                    ra = min(ra, 999)
                    p = 999
                try:
                    x = self.expr(ra)[0]
                    return Cmp(v, (x,)), p
                except PSyntax:
                    self.p = save
        pri = 0
        if self.anyop(v):
            pri = max(self.isop(kk, v)[0] for kk in self.ops if self.isop(kk, v))
            if pri > mx:
                pri = 0
        return Atom(v), pri

    def operand_after(self):
        """the infix operator name next is itself followed by '('"""
        k, v, lay = self.t[self.p + 1]
        return k == 'punct' and v == '(' and not lay


def parse(text, ops=None, dq='codes'):
    return Reader(text, ops, dq).all()


def term(text, ops=None):
    return parse(text + ' .', ops)[0]


def clauses(text, prefix=''):
    """[(head, body)]"""
    out = []
    for c in parse(text):
        if type(c) is Cmp and c.name == ':-' and len(c.args) == 2:
            out.append((c.args[0], c.args[1]))
        else:
            out.append((c, Atom('true')))
    return out
