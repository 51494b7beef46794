#!/usr/bin/env python3
"""C16: format/2-3 writes exactly the documented text."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
import random

MAXI, MINI = (1 << 60) - 1, -(1 << 60)

PRE = r"""
fout(atom, _, F, A, r(C, -1)) :- format_to_atom(X, F, A), atom_codes(X, C).
fout(codes, _, F, A, r(C, -1)) :- format_to_codes(C, F, A).
fout(chars, _, F, A, r(C, -1)) :- format_to_chars(X, F, A), cc(X, C).
fout(file, P, F, A, r(C, L)) :- open('fmt.out', write, S), fout1(P, S, F, A, R), line_position(S, L), close(S), fend(R), rdf(C).
fout(alias, P, F, A, r(C, L)) :- open('fmt.out', write, S, [alias(fmo), buffering(none)]), fout1(P, fmo, F, A, R), line_position(S, L), close(S), fend(R), rdf(C).
fout(cur, P, F, A, r(C, L)) :- open('fmt.out', write, S), current_output(O), set_output(S), write(P), catch((format(F, A), R = ok), E, R = err(E)),
   set_output(O), line_position(S, L), close(S), fend(R), rdf(C).
fout(cst, P, F, A, r(C, L)) :- open_output_codes_stream(S), fout1(P, S, F, A, R), line_position(S, L), close_output_codes_stream(S, C), fend(R).
fout1(P, S, F, A, R) :- write(S, P), catch((format(S, F, A) -> R = ok ; R = failed), E, R = err(E)).
fend(ok).
fend(err(E)) :- throw(E).
rdf(C) :- open('fmt.out', read, S, [type(binary)]), rdb(S, C), close(S).
rdb(S, C) :- get_byte(S, B), ( B < 0 -> C = [] ; C = [B|C1], rdb(S, C1) ).
cc([], []).
cc([X|L], [C|M]) :- char_code(X, C), cc(L, M).
ck(atom, C, A) :- !, atom_codes(A, C).
ck(codes, C, C).
ck(chars, C, L) :- cc(L, C).
vf(K, FK, P, FC, A, R) :- ck(FK, FC, F), fout(K, P, F, A, R).
portray('$po'(X)) :- write(po), write(X).
"""


class Err(Exception):
    def __init__(self, *forms):
        self.forms = forms


dom = lambda d, x: Cmp('domain_error', [Atom(d), x])
tye = lambda d, x: Cmp('type_error', [Atom(d), x])
rep = lambda d: Cmp('representation_error', [Atom(d)])
INST = Atom('instantiation_error')


class M:
    """output model: columns, boundaries, pending paddings"""

    def __init__(self, pre):
        self.out = pre
        self.pads = []          # (position in out, fill)
        self.tab = 0

    def col(self):
        i = self.out.rfind('\n')
        return len(self.out) - 1 - i

    def put(self, s):
        for ch in s:
            self.out += ch
            if ch == '\n':
                self.pads = []
                self.tab = 0

    def boundary(self, pos):
        free = pos - self.col()
        if free > 0:
            n = len(self.pads)
            if n == 0:
                self.out += ' ' * free
            else:
                q, rem = divmod(free, n)
                for i in reversed(range(n)):
                    p, f = self.pads[i]
                    self.out = self.out[:p] + f * (q + (i >= n - rem)) + self.out[p:]
        self.pads = []
        self.tab = pos


# terms: (source text, ~w, ~q, ~k, ~p)
TERMS = [("'A b'", 'A b', "'A b'", "'A b'", 'A b'), ("f(x,'B',[1,2])", 'f(x,B,[1,2])', "f(x,'B',[1,2])", "f(x,'B','.'(1,'.'(2,[])))", 'f(x,B,[1,2])'),
         ('1+2*3', '1+2*3', '1+2*3', '+(1,*(2,3))', '1+2*3'), ("'$VAR'(3)", 'D', 'D', "'$VAR'(3)", 'D'), ('[]', '[]', '[]', '[]', '[]'),
         ("- 1", '-1', '-1', '-1', '-1'), ("-(1)", '- (1)', '- (1)', '-(1)', '- (1)'), ('-(-(a))', '- -a', '- -a', '-(-(a))', '- -a'),
         ("'\\n'", '\n', "'\\n'", "'\\n'", '\n'), ('1.5', '1.5', '1.5', '1.5', '1.5'), ("{a,b}", '{a,b}', '{a,b}', "{}(','(a,b))", '{a,b}'),
         ("'$po'(7)", '$po(7)', "'$po'(7)", "'$po'(7)", 'po7'), ("[a,'$po'(1)|t]", '[a,$po(1)|t]', "[a,'$po'(1)|t]", "'.'(a,'.'('$po'(1),t))", '[a,po1|t]'),
         ('foo', 'foo', 'foo', 'foo', 'foo'), ("(a:-b,c;d->e)", 'a:-b,c;d->e', 'a:-b,c;d->e', ":-(a,;(','(b,c),->(d,e)))", 'a:-b,c;d->e')]

OPTS = [('[]', 1), ('[quoted(true)]', 2), ('[quoted(true),ignore_ops(true),numbervars(false)]', 3)]
W2 = ["f('A b','$VAR'(1),1+2)"]
WOUT = {1: 'f(A b,$VAR(1),1+2)', 2: "f('A b','$VAR'(1),1+2)", 3: "f('A b','$VAR'(1),+(1,2))"}


def ints(r):
    k = r.random()
    if k < .6:
        return r.choice([0, 1, -1, 5, 10, 99, 100, -100, 999, 1000, 12345, -12345, 123456, 1234567, r.randint(-10 ** 9, 10 ** 9)])
    return r.choice([MAXI, MINI, MAXI - r.randint(0, 99), r.randint(MINI, MAXI)])


def iexpr(r, x):
    """source of an integer expression of value x"""
    k = r.random()
    if k < .7 or abs(x) > 10 ** 12:
        return str(x) if x >= 0 else f'({x})'
    a = r.randint(-99, 99)
    return f'({x - a}+({a}))' if k < .85 else f'(- ({-x}))'


def atom(r):
    return r.choice(['', 'a', 'abc', 'hello world', 'X', "it's", '~a', '%d', '\xe9t\xe9', '[]', 'a' * 30, 'b' * r.randint(1, 200), 'l1\nl2'])


def strarg(r, s):
    k = r.randrange(3)
    if k == 0:
        return '[' + ','.join(str(ord(c)) for c in s) + ']'
    if k == 1:
        return '[' + ','.join(qatom(c) for c in s) + ']'
    if s == '[]':
        return '[' + ','.join(str(ord(c)) for c in s) + ']'
    return qatom(s)


def grp(s):
    out = ''
    while len(s) > 3:
        out = ',' + s[-3:] + out
        s = s[:-3]
    return s + out


def radix(x, n, up):
    dg = '0123456789' + ('ABCDEFGHIJKLMNOPQRSTUVWXYZ' if up else 'abcdefghijklmnopqrstuvwxyz')
    s, y = '', abs(x)
    while True:
        s = dg[y % n] + s
        y //= n
        if not y:
            break
    return ('-' if x < 0 else '') + s


def control(r, m, args, big):
    """one control sequence: returns its text; effects on m and args"""
    k = r.random()

    def num(n):
        """N given as digits or *"""
        if r.random() < .2:
            args.append(iexpr(r, n))
            return '*'
        return str(n)

    def opt(lo, hi, p=.5):
        return r.randint(lo, hi) if r.random() < p else None
    c = r.choice('aaacdddDDeEfFgGrRssikqpwWnN~%%%' + '|||+++' + 'tttttt')
    if c == 'a':
        s, n = atom(r), opt(0, 25, .4)
        t = '' if n is None else num(n)
        args.append(qatom(s))
        m.put(s.ljust(n or 0))
        return f'~{t}a'
    if c == 'c':
        n = opt(0, 6)
        t = '' if n is None else num(n)
        x = r.choice([65, 126, 10, 255, 233, 32, 1, 49])
        args.append(iexpr(r, x))
        m.put(chr(x) * (1 if n is None else n))
        return f'~{t}c'
    if c in 'dD':
        n = opt(0, 22 if r.random() < .3 else 4)
        t = '' if n is None else num(n)
        x = ints(r)
        args.append(iexpr(r, x))
        s = str(abs(x))
        if n:
            s = s.zfill(n + 1)
            a, b = s[:-n], '.' + s[-n:]
        else:
            a, b = s, ''
        m.put(('-' if x < 0 else '') + (grp(a) if c == 'D' else a) + b)
        return f'~{t}{c}'
    if c in 'eEfFgG':
        n = opt(0, 20)
        t = '' if n is None else num(n)
        if r.random() < .3:
            x = r.randint(-10 ** 6, 10 ** 6)
            args.append(iexpr(r, x))
        else:
            x = r.choice([0.0, 1.0, -2.5, 3.14159265358979, 1e10, 1e-10, 1e100, 2.0 ** 53, 1 / 3, r.uniform(-1e6, 1e6), r.uniform(0, 1)])
            args.append('(' + ftext(x) + ')')
        m.put(('%' + ('' if n is None else f'.{n}') + c) % float(x))
        return f'~{t}{c}'
    if c in 'rR':
        n = opt(2, 36, .8)
        t = '' if n is None else num(n)
        x = ints(r)
        args.append(iexpr(r, x))
        m.put(radix(x, 8 if n is None else n, c == 'R'))
        return f'~{t}{c}'
    if c == 's':
        s, n = atom(r), opt(0, 25)
        t = '' if n is None else num(n)
        args.append(strarg(r, s))
        m.put(s if n is None else s[:n].ljust(n))
        return f'~{t}s'
    if c == 'i':
        args.append(r.choice(['_', 'a', 'f(_)', '1.5', '[]']))
        return '~i'
    if c in 'wqkp':
        t = r.choice(TERMS)
        args.append(t[0] if t[0] != '- 1' else '(-1)')
        m.put(t['_wqkp'.index(c)])
        return '~' + c
    if c == 'W':
        o, i = r.choice(OPTS)
        args.append(W2[0])
        args.append(o)
        m.put(WOUT[i])
        return '~W'
    if c == '~':
        m.put('~')
        return '~~'
    if c == 'n':
        n = opt(0, 3, .3)
        t = '' if n is None else num(n)
        m.put('\n' * (1 if n is None else n))
        return f'~{t}n'
    if c == 'N':
        if m.col() > 0:
            m.put('\n')
        return '~N'
    if c == '%':
        return printf(r, m, args)
    if c == '|':
        n = opt(0, 60, .8)
        t = '' if n is None else num(n)
        m.boundary(m.col() if n is None else n)
        return f'~{t}|'
    if c == '+':
        n = opt(0, 30, .8)
        t = '' if n is None else num(n)
        m.boundary(m.tab + (8 if n is None else n))
        return f'~{t}+'
    k = r.random()
    if k < .5:
        t, f = '', ' '
    elif k < .8:
        f = r.choice("*-.=0 '`~t\xe9")
        t = '`' + f
    else:
        f = r.choice('*#.')
        t = num(ord(f))
    m.pads.append((len(m.out), f))
    return f'~{t}t'


def ftext(x):
    s = repr(float(x))
    if 'e' in s:
        a, b = s.split('e')
        s = (a if '.' in a else a + '.0') + 'e' + b
    return s


def printf(r, m, args):
    c = r.choice('diuoxXcsseEfgG%')
    if c == '%':
        m.put('%')
        return '~%%'
    fl = ''
    if c in 'di':
        fl = r.choice(['', '', '-', '+', ' ', '0', '-+'])
    elif c in 'uoxX':
        fl = r.choice(['', '', '-', '0'])
    elif c in 'eEfgG':
        fl = r.choice(['', '', '-', '+', '0', ' ', '#'])
    else:
        fl = r.choice(['', '-'])
    w = r.choice(['', '', '1', '5', '12', '40', '*'])
    p = r.choice(['', '', '.0', '.3', '.10', '.*']) if c != 'c' and '0' not in fl else ''
    fmt, vals = '%' + fl, []
    for x in (w, p):
        if '*' in x:
            v = r.randint(0, 15)
            args.append(iexpr(r, v))
            x = x.replace('*', str(v))
        fmt += x
    if c in 'diuoxX':
        x = ints(r)
        args.append(iexpr(r, x))
        if c in 'uoxX' and x < 0:
            x += 1 << 64
        if p and x == 0:
            x = 7               # %.0d of 0 is empty in C
            args[-1] = '7'
        s = (fmt + ('d' if c in 'iu' else c)) % x
    elif c == 'c':
        x = r.choice([65, 97, 48, 126])
        args.append(iexpr(r, x))
        s = (fmt + 'c') % x
    elif c == 's':
        x = atom(r)
        args.append(strarg(r, x))
        s = (fmt + 's') % x
    else:
        x = r.choice([0.0, 1.0, -2.5, 3.14159, 1e10, 1e-5, 123456.789, r.uniform(-1e3, 1e3)])
        args.append('(' + ftext(x) + ')')
        s = (fmt + c) % x
    m.put(s)
    return '~%' + ('%s%s%s%s' % (fl, w, p, c))


TXT = ['abc', ' ', 'x', 'y: ', '[', ']', ' | ', '%', "'", '\\', 'hello, world', '\xe9', '.', '  ', '*']


def good(r, big=False):
    kind = r.choice(['atom', 'codes', 'chars', 'file', 'alias', 'cur', 'cst'])
    pre = r.choice(['', '', 'abc', 'xy\nz', 'q' * 20, 'end\n']) if kind in ('file', 'alias', 'cur', 'cst') else ''
    m = M(pre)
    args = []
    f = ''
    n = r.choice([1, 2, 4, 8, 16]) if not big else r.choice([60, 150, 300])
    for _ in range(n):
        k = r.random()
        if k < .3:
            t = r.choice(TXT)
            if big and k < .05:
                t = t * r.randint(1, 300 if n > 60 else 900)
            if k > .28:
                t = '\n'
            m.put(t)
            f += t
        else:
            f += control(r, m, args, big)
    return kind, pre, f, args, m


def table(r):
    """a table: columns with left, right or centre alignment between absolute or relative boundaries"""
    kind = r.choice(['file', 'cst', 'atom', 'cur'])
    m = M('')
    f, args = '', []
    ncol = r.randint(1, 6)
    rel = r.random() < .5
    ws = [r.randint(1, 25) for _ in range(ncol)]
    for _ in range(r.randint(1, 4)):
        pos = 0
        for w in ws:
            pos += w
            al = r.randrange(5)
            parts = {0: 't.', 1: '.t', 2: 't.t', 3: 't.t.t', 4: '.'}[al]
            fill = r.choice(['', '`*', '`-', ''])
            for c in parts:
                if c == 't':
                    m.pads.append((len(m.out), fill[1:] or ' '))
                    f += f'~{fill}t'
                else:
                    if r.random() < .5:
                        s = 'w' * r.choice([0, 1, 2, 5, 9, 30, 700, 1200] if r.random() < .1 else [0, 1, 2, 5])
                        args.append(qatom(s))
                        f += '~a'
                    else:
                        x = r.randint(-999, 99999)
                        s = str(x)
                        args.append(iexpr(r, x))
                        f += '~d'
                    m.put(s)
            f += f'~{w}+' if rel else f'~{pos}|'
            m.boundary(m.tab + w if rel else pos)
            if r.random() < .3:
                f += '|'
                m.put('|')
        f += '~n'
        m.put('\n')
    return kind, '', f, args, m


def bad(r):
    """(format, args source, acceptable formals)"""
    j = r.randrange(24)
    pre = r.choice(['', 'abc', '~a~d~~', '~t~a', '~ta~`-t', '~t~w~10|~t'])
    pa = {'~a~d~~': ['x', '1'], '~t~a': ['x'], '~t~w~10|~t': ['x']}.get(pre, [])
    fin = lambda f, a, *e: (pre + f, '[' + ','.join(pa + a) + ']', list(e))
    if j == 0:
        c = r.choice('zyxZABhmoOQ!$&()')
        return fin(f'~{r.choice(["", "3"])}{c}', ['a'], dom('format_control_sequence', Atom(c)))
    if j == 1:
        c = r.choice(['a', 'd', 'c', 'e', 'r', 's', 'w', 'q', 'k', 'p', 'i', '*c', 'W', '%d', '%s', '%*d', 'D', 'R'])
        return fin('~' + c, [], dom('non_empty_list', NIL))
    if j == 2:
        a = ['a', 'b'][:r.randint(1, 2)]
        return fin(r.choice(['', 'abc', '~n', '~~']), a, 'extra')
    if j == 3:
        x = r.choice([Cmp('f', [1]), 1, 1.5, Cmp('.', [Atom('a'), NIL])])
        return fin('~a', [text(x)], tye('atom', x))
    if j == 4:
        return fin('~' + r.choice(['a', 'd', 'c', 'e', 'r', 's', '%d', '%s', '*c', '%f']), ['_', 'a'][:1], INST)
    if j == 5:
        return fin('~' + r.choice('dDrRc'), ['1.5'], tye('integer', 1.5))
    if j == 6:
        return fin('~' + r.choice('dDrRcefg'), ['foo'], tye('evaluable', Cmp('/', [Atom('foo'), 0])))
    if j == 7:
        return fin('~' + r.choice('dDrRcefg'), ['1//0'], Cmp('evaluation_error', [Atom('zero_divisor')]))
    if j == 8:
        n = r.choice([0, 1, 37, 99, 1 << 32, (1 << 32) + 10])
        return fin(f'~{n}' + r.choice('rR'), ['10'], dom('radix', n), dom('format_control_sequence', n))
    if j == 9:
        x = r.choice([-1, 256, 1 << 32, (1 << 32) + 65, MAXI])
        return fin('~c', [str(x)], rep('character_code'))
    if j == 10:
        x = r.choice([1, Cmp('f', [1]), 1.5])
        return fin('~s', [text(x)], tye('list', x))
    if j == 11:
        return fin('~s', [r.choice(['[a|_]', '[_]', "[0'a|_]"])], INST)
    if j == 12:
        return fin('~' + r.choice(['', '12']), [], 'fcs')
    if j == 13:
        return fin('~%' + r.choice(['y', '5y', '-', '', '.3', 'n', 'lz', '*']), ['1', '2'], 'fcs')
    if j == 14:
        return ('_', '[]', [INST])
    if j == 15:
        x = r.choice([1, 1.5, Cmp('f', [1])])
        return (text(x), '[]', [tye('list', x)])
    if j == 16:
        return (r.choice(['[97|_]', '[97,_]', '[_|_]']), '[]', [INST])
    if j == 17:
        x = r.choice([-1, 256, 1 << 32, (1 << 32) + 97])
        return (f'[97,{x}]', '[]', [rep('character_code')])
    if j == 18:
        return fin('~w', [], 'partial')
    if j == 19:
        return fin('~w', [], 'notlist')
    if j == 20:
        return fin('~*' + r.choice('cdn'), [str(-r.randint(1, 99)), '1'], 'any')
    if j == 21:
        return fin('~W', ['f(x)', r.choice(['[foo]', '[quoted(maybe)]', '[1]'])], 'any')
    if j == 22:
        return fin('~W', ['f(x)', r.choice(['_', '[quoted(true)|_]', '[_]'])], INST)
    return fin('~' + r.choice(['%d', '%x']), ['1.5'], tye('integer', 1.5))


def gcase(r, big=False, tab=False):
    kind, pre, f, args, m = table(r) if tab else good(r, big)
    fk = r.choice(['atom', 'codes', 'chars'] if f not in ('[]', '') else ['codes', 'chars'])
    codes = '[' + ','.join(str(ord(c)) for c in f) + ']'
    want = [ord(c) for c in m.out]
    col = m.col()

    def ex(o):
        if o.state != 'end' or len(o.sols) != 1:
            return f'expected success; format {f!r} args {args}'
        c, l = o.sols[0].args
        if isinstance(c, Atom):
            c = [] if c is NIL else None
        else:
            c = unlist(c)
        if c != want:
            return f'format {f!r} args {args} prefix {pre!r} kind {kind}\n wrote {show(c)}\n expected {m.out!r}'
        if l not in (-1, col):
            return f'line position {l}, expected {col}; format {f!r}'
    return Case(f'vf({kind}, {fk}, {qatom(pre)}, {codes}, [{",".join(args)}], X)', 'X', ex)


def show(c):
    try:
        return repr(''.join(map(chr, c)))
    except Exception:
        return repr(c)


def bcase(r):
    f, a, es = bad(r)
    kind = r.choice(['atom', 'codes', 'file', 'cur', 'cst'])
    raw = f == '_' or f[:1] == '[' or f in ('1', '1.5', 'f(1)')
    if es == ['partial']:
        a = a[:-1] + ('|_]' if a != '[]' else '')
        a = a if a != '[' else '_'
        es = [INST]
    elif es == ['notlist']:
        a = (a[:-1] + '|x]') if a != '[]' else r.choice(['x', '3', 'f(x)'])
        es = ['type_list']
    if raw:
        goal = f'fout({kind}, x, {f}, {a}, _)'
    else:
        goal = f'vf({kind}, {r.choice(["atom", "codes", "chars"])}, x, [{",".join(str(ord(c)) for c in f)}], {a}, _)'

    def ex(o):
        if o.state != 'exc' or o.formal is None or o.sols:
            return f'format {f!r} args {a}: expected an error {[e if isinstance(e, str) else ts(e) for e in es]}'
        g = o.formal
        for e in es:
            if isinstance(e, str):
                if e == 'any':
                    return None
                if e == 'extra' and type(g) is Cmp and g.name == 'domain_error' and g.args[0] is Atom('number_of_arguments'):
                    return None
                if e == 'fcs' and type(g) is Cmp and g.name == 'domain_error' and g.args[0] is Atom('format_control_sequence'):
                    return None
                if e == 'type_list' and type(g) is Cmp and g.name == 'type_error' and g.args[0] is Atom('list'):
                    return None
            elif same(g, e):
                return None
        return f'format {f!r} args {a}: error {ts(g)}, expected {[e if isinstance(e, str) else ts(e) for e in es]}'
    return Case(goal, 'none', ex)


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c16/{seed}/{mode}/{i}')
    cases = []
    for _ in range(n):
        k = r.random()
        if k < .15:
            cases.append(bcase(r))
            part.count('error cases')
        elif k < .3:
            cases.append(gcase(r, tab=True))
            part.count('tables')
        else:
            cases.append(gcase(r, big=k > .97))
            part.count('texts')
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRE, name='fmt-' + mode,
              env={'GLOBALSZ': '200000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C16', rule='random format strings of all documented controls (N as digits, * and `c), column stops and paddings, tables, and ill-formed ones, to files, aliases, current output, '
               'constant streams and format_to_*; the text and the final column compared with an output model; distinct by call')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(('meta', 'byte', 'meta', 'meta')[i % 4], i, 150, ck.seed) for i in range(ck.n(240, 2400))]
    if SAN:
        jobs += [('san', i, 150, ck.seed) for i in range(24)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
