#!/usr/bin/env python3
"""C38: flags and the character conversion table are a consistent map that governs behaviour."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv import run as R
from gpv.run import Sys
from gpv.terms import *
import random

A, C = Atom, Cmp
V = Var(0)
IE = A('instantiation_error')
QV = ['codes', 'chars', 'atom', 'codes_no_escape', 'chars_no_escape', 'atom_no_escape']
EV = ['error', 'warning', 'fail']
W = {   # changeable flags
    'char_conversion': ['off', 'on'], 'singleton_warning': ['on', 'off'], 'suspicious_warning': ['on', 'off'], 'multifile_warning': ['on', 'off'], 'show_banner': ['on', 'off'],
    'show_information': ['normal', 'silent', 'informational'], 'strict_iso': ['on', 'off'], 'double_quotes': QV, 'back_quotes': ['atom_no_escape', 'codes', 'chars', 'atom', 'codes_no_escape', 'chars_no_escape'],
    'unknown': EV, 'syntax_error': EV, 'os_error': EV}
RO = {'bounded': ('tbl', ['true', 'false'], A('true')), 'max_integer': ('int', None, (1 << 60) - 1), 'min_integer': ('int', None, -(1 << 60)), 'integer_rounding_function': ('tbl', ['toward_zero', 'down'], A('toward_zero')), 'max_arity': ('int', None, 255),
      'max_atom': ('int', None, None), 'max_unget': ('int', None, None), 'prolog_name': ('atom', None, A('GNU Prolog')), 'prolog_version': ('atom', None, A('1.6.0')), 'dialect': ('atom', None, A('gprolog')), 'version': ('int', None, 10600),
      'version_data': ('ver', None, C('gprolog', (1, 6, 0, NIL))), 'unix': ('tbl', ['true', 'false'], A('true')), 'address_bits': ('int', None, 64), 'argv': ('list', None, None), 'home': ('atom', None, None), 'compiled_at': ('atom', None, None), 'host': ('atom', None, None)}
POOL = [A('on'), A('off'), A('error'), A('warning'), A('fail'), A('codes'), A('chars'), A('atom'), A('codes_no_escape'), A('true'), A('false'), A('normal'), A('silent'), A('toward_zero'), A('down'), A('xx'), A(''), NIL, 0, 1, -1, 256, 1.5, C('f', (A('x'),)), mklist([A('on')]), mklist([97]), C('gprolog', (1, 2, 3, 4)), C('gprolog', (1, 2)), A('ON'), A('double_quotes')]

PRE = r'''
:- dynamic(dyn_none/1). :- dynamic(abol/1).
dflt([char_conversion-off,singleton_warning-on,suspicious_warning-on,multifile_warning-on,show_banner-on,show_information-normal,strict_iso-on,double_quotes-codes,back_quotes-atom_no_escape,unknown-error,syntax_error-error,os_error-error]).
rst :- dflt(L), rst(L), findall(X, current_char_conversion(X, _), Cs), rcs(Cs).
rst([]).
rst([F-V|L]) :- set_prolog_flag(F, V), rst(L).
rcs([]).
rcs([X|L]) :- char_conversion(X, X), rcs(L).
hist(L, Rs) :- rst, runs(L, Rs), rst.
runs([], []).
runs([q(T,G)|L], [R|Rs]) :- catch(findall(T, call(G), R0), E, true), ( var(E) -> R = R0 ; R = exc(E) ), runs(L, Rs).
n_ceiling(X, Y) :- Y is ceiling(X).
n_floor(X, Y) :- Y is floor(X).
n_round(X, Y) :- Y is round(X).
n_truncate(X, Y) :- Y is truncate(X).
rd(atom, Cs, X) :- open_input_codes_stream(Cs, S), catch(( read_atom(S, X0) -> X = X0 ; X = '$no' ), E, (close_input_codes_stream(S), throw(E))), close_input_codes_stream(S).
rd(integer, Cs, X) :- open_input_codes_stream(Cs, S), catch(( read_integer(S, X0) -> X = X0 ; X = '$no' ), E, (close_input_codes_stream(S), throw(E))), close_input_codes_stream(S).
rd(token, Cs, X) :- open_input_codes_stream(Cs, S), catch(( read_token(S, X0) -> X = X0 ; X = '$no' ), E, (close_input_codes_stream(S), throw(E))), close_input_codes_stream(S).
rd(term, Cs, X) :- open_input_codes_stream(Cs, S), catch(( read_term(S, X0, []) -> X = X0 ; X = '$no' ), E, (close_input_codes_stream(S), throw(E))), close_input_codes_stream(S).
rd(getc, Cs, X) :- open_input_codes_stream(Cs, S), get_char(S, A0), peek_char(S, B0), get_code(S, _), get_char(S, C0), X = [A0,B0,C0], close_input_codes_stream(S).
rd(const, Cs, X) :- ( read_term_from_codes(Cs, X0, []) -> X = X0 ; X = '$no' ).
rd(opt(O), Cs, X) :- ( read_term_from_codes(Cs, X0, [syntax_error(O)]) -> X = X0 ; X = '$no' ).
rd(file, Cs, X) :- open(rdf, write, S), wcs(Cs, S), close(S), open(rdf, read, S1), catch(( read(S1, X0) -> X = X0 ; X = '$no' ), E, (close(S1), throw(E))), close(S1).
wcs([], _).
wcs([C|L], S) :- put_code(S, C), wcs(L, S).
n_undef(X) :- G = undef_pred(X), call(G).
cons(Cs, T, G, R) :- open('cf.pl', write, S), wcs(Cs, S), close(S), g_assign(seen, []), consult('cf.pl'), findall(T, G, R).
'''


def codes(s):
    return '[' + ','.join(str(ord(c)) for c in s) + ']'


def strv(v, content, raw):
    """term of a quoted item under flag value v; content = unescaped text, raw = as written"""
    s = raw if v.endswith('no_escape') else content
    k = v.split('_')[0]
    return A(s) if k == 'atom' else mklist([ord(c) for c in s]) if k == 'codes' else mklist([A(c) for c in s])


class St:
    def __init__(self):
        self.f = {k: v[0] for k, v in W.items()}
        self.c = {}


ESC = [('\\n', '\n'), ('\\\\', '\\'), ('\\x41\\', 'A'), ('\\101\\', 'A'), ('\\t', '\t'), ('\\"', '"'), ("\\'", "'"), ('\\`', '`'), ('\\a', '\a')]


def qcontent(r, q):
    """(raw text between the quotes, unescaped content, content under no_escape)"""
    raw, con, ne = '', '', ''
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        k = r.random()
        if k < .3:
            e, c = r.choice(ESC)
            if e == '\\' + q:
                e = '\\x%x\\' % ord(q)      # an escaped closing quote is not an escape under no_escape
            raw, con, ne = raw + e, con + c, ne + e
        elif k < .4:
            raw, con, ne = raw + q + q, con + q, ne + q
        else:
            c = r.choice('abcz XY_09+-.,%/*(){}[]|' + ("'" if q != "'" else '') + ('"' if q != '"' else ''))
            raw, con, ne = raw + c, con + c, ne + c
    return raw, con, ne


def undef(st, name, ar=1):
    u = st.f['unknown']
    return ('err', C('existence_error', (A('procedure'), C('/', (A(name), ar))))) if u == 'error' else ('sols', [])


def step(r, st):
    """(T, G text, oracle spec)"""
    k = r.random()
    if k < .28:
        flags = list(W)
        return setflag(r, st)
    if k < .36:
        f = r.choice(list(W) + list(W) + list(RO))
        if f in W:
            if r.random() < .3:
                v = r.choice(W[f])
                return 'y', f'current_prolog_flag({f},{v})', ('sols', [A('y')] if v == st.f[f] else [])
            return 'V', f'current_prolog_flag({f},V)', ('sols', [A(st.f[f])])
        v = RO[f][2]
        return 'V', f'current_prolog_flag({f},V)', ('sols', [v]) if v is not None else ('n', 1)
    if k < .39:
        mask = '[' + ','.join(W) + ']'
        return 'F-V', f'(current_prolog_flag(F,V), memberchk(F,{mask}))', ('set', [C('-', (A(a), A(b))) for a, b in st.f.items()])
    if k < .40:
        b = r.choice(['3', 'f(x)', '"ab"', 'nosuchflag', '1.5'])
        e = {'nosuchflag': C('domain_error', (A('prolog_flag'), A('nosuchflag')))}.get(b)
        if e is None:
            return 'V', f'current_prolog_flag({b},V)', ('fn', 'type_error')
        return 'V', f'current_prolog_flag({b},V)', ('err', e)
    if k < .52:     # double/back quotes
        q = r.choice('""`')
        raw, con, ne = qcontent(r, q)
        v = st.f['double_quotes' if q == '"' else 'back_quotes']
        if st.f['char_conversion'] == 'on' and any(c in st.c for c in raw):
            raw = con = ne = ''
        txt = f'f({q}{raw}{q}).' if r.random() < .5 else f'[{q}{raw}{q},b].'
        if st.f['char_conversion'] == 'on' and any(c in st.c for c in txt):
            return step(r, st)
        x = strv(v, con, ne)
        x = C('f', (x,)) if txt[0] == 'f' else mklist([x, A('b')])
        return 'X', f"rd({r.choice(['term','const','file'])},{codes(txt + ' ')},X)", ('sols', [x])
    if k < .60:     # unknown procedures
        n = r.choice(['undef_pred', 'undef_pred2', 'zz'])
        g = r.choice([f'{n}(1)', f'call({n},1)', f'({n}(X0) ; true)', f'\\+ {n}(1)', f'catch({n}(1),_,true)', f'findall(Z,{n}(Z),[])', 'n_undef(1)', 'dyn_none(1)', 'retract(dyn_none(1))'])
        if g == 'n_undef(1)':
            n = 'undef_pred'
        if 'dyn_none' in g:
            return 'y', g, ('sols', [])
        rr = undef(st, n)
        if rr[0] == 'sols':
            ok = not g.startswith((n, 'call', 'catch', 'n_undef'))
            return 'y', g, ('sols', [A('y')] if ok else [])
        if g.startswith('catch'):
            return 'y', g, ('sols', [A('y')])
        return 'y', g, rr
    if k < .70:     # syntax errors
        t = r.choice(['foo bar .', 'f(,) .', "'abc .", '[1|2,3] .', 'X Y .', '0\'\' .', '1 2 .', ')'])
        how = r.choice(['term', 'const', 'opt(error)', 'opt(fail)', 'opt(warning)', 'number'])
        if st.f['char_conversion'] == 'on' and any(c in st.c for c in t) or t.startswith("0'"):
            t = 'Foo bar .' if not any(c in st.c for c in 'Foo bar .') else '1 2 .'
            if any(c in st.c for c in t):
                return step(r, st)
        if how == 'number':
            how2 = r.choice(['number_codes(X,"3x")', "number_chars(X,['1',x])", "number_atom(X,'1 2')", "number_codes(X,\"a\")"])
            if "number_atom" in how2:
                return 'X', how2, ('synt', st.f['syntax_error'])
            return 'X', how2.replace('"3x"', '[51,120]').replace('"a"', '[97]'), ('synt', st.f['syntax_error'])
        act = st.f['syntax_error'] if not how.startswith('opt') else how[4:-1]
        return 'X', f'rd({how},{codes(t)},X)', ('synt2', act)
    if k < .76:     # operating system errors
        g = r.choice(["delete_file('/nonexistent_q/x')", "rename_file('/nonexistent_q/x','/nonexistent_q/y')", "make_directory('/nonexistent_q/x')", "delete_directory('/nonexistent_q/x')", "change_directory('/nonexistent_q/x')", "directory_files('/nonexistent_q/x',_)", "file_property('/nonexistent_q/x',size(_))"])
        o = st.f['os_error']
        return 'y', g, ('osx', o)
    if k < .86:     # strict_iso
        so = st.f['strict_iso'] == 'on'
        z = r.randrange(5)
        if z == 0:
            fn = r.choice(['ceiling', 'floor', 'round', 'truncate'])
            n = r.choice([0, 3, -7, (1 << 60) - 1])
            g = r.choice([f'n_{fn}({n},X)', f'X is {fn}({n})', f'call(is,X,{fn}({n}))'])
            return 'X', g, ('err', C('type_error', (A('float'), n))) if so else ('sols', [n])
        if z == 1:
            t, e = r.choice([('foo', A('foo')), ('[a|b]', mklist([A('a')], A('b'))), ('f(x)', C('f', (A('x'),))), ('3', 3)])
            return 'X', f'length({t},{r.choice(["X", "1", "0"])})', ('sols', []) if so else ('err', C('type_error', (A('list'), e)))
        if z == 2:
            return 'y', 'current_predicate(append/3)', ('sols', [] if so else [A('y')])
        if z == 3:
            t, x = r.choice([("'a\\sb'.", 'a b'), ("'\\e'.", '\x1b'), ("'\\s\\sz'.", '  z')])
            if st.f['char_conversion'] == 'on' and any(c in st.c for c in t):
                return step(r, st)
            return 'X', f'rd({r.choice(["term", "const"])},{codes(t + " ")},X)', ('synt2', st.f['syntax_error']) if so else ('sols', [A(x)])
        if any(c in "0'1f()" for c in st.c) and st.f['char_conversion'] == 'on':
            return step(r, st)
        if so:
            return 'X', f'''rd(const,{codes("f(0'''). ")},X)''', ('sols', [C('f', (39,))])
        return 'X', f'''rd(const,{codes("f(0''). ")},X)''', ('sols', [C('f', (39,))])
    if k < .93:     # conversion table
        z = r.random()
        if z < .5:
            a, b = r.choice('abcdxyz019'), r.choice('abcdxyz019')
            if a.isdigit() != b.isdigit():
                b = '5' if a.isdigit() else 'q'
            if r.random() < .3 and st.c:
                a = r.choice(sorted(st.c))
                b = a
            if a == b:
                st.c.pop(a, None)
            else:
                st.c[a] = b
            return 'y', f"char_conversion('{a}','{b}')", ('sols', [A('y')])
        if z < .7:
            return 'X-Y', 'current_char_conversion(X,Y)', ('sols', [C('-', (A(a), A(b))) for a, b in sorted(st.c.items())])
        if z < .8:
            a = r.choice('abcdxyz019q')
            return 'Y', f"current_char_conversion('{a}',Y)", ('sols', [A(st.c[a])] if a in st.c else [])
        if z < .9:
            b = r.choice('abcdxyz019q')
            return 'X', f"current_char_conversion(X,'{b}')", ('sols', [A(a) for a, y in sorted(st.c.items()) if b == y])
        a, b, e = r.choice([('_', "'a'", IE), ("'a'", '_', IE), ('1', "'a'", C('type_error', (A('character'), 1))), ('ab', "'a'", C('type_error', (A('character'), A('ab')))), ("'a'", 'f(x)', C('type_error', (A('character'), C('f', (A('x'),)))))])
        return 'y', f'char_conversion({a},{b})', ('err', e)
    # conversion when reading
    on = st.f['char_conversion'] == 'on'
    cv = (lambda s: ''.join(st.c.get(c, c) for c in s)) if on else (lambda s: s)
    w = ''.join(r.choice('abcdxyzq') for _ in range(r.choice([1, 2, 5])))
    d = ''.join(r.choice('12345') for _ in range(3)) if r.random() < .7 else '1010'
    how = r.choice(['term', 'const', 'file', 'atom', 'integer', 'token', 'getc'])
    if how == 'getc':
        t = (w + 'xyz')[:3]
        return 'X', f'rd(getc,{codes(t)},X)', ('sols', [mklist([A(c) for c in t])])
    if how == 'integer':
        return 'X', f'rd(integer,{codes(d + " ")},X)', ('sols', [int(cv(d))])
    if how in ('atom', 'token'):
        if r.random() < .4:
            return 'X', f'''rd(atom,{codes("'" + w + "' ")},X)''', ('sols', [A(w)])
        return 'X', f'rd({how},{codes(w + " ")},X)', ('sols', [A(cv(w))])
    t = f"f({w}, '{w}{d}', {d}, X{w}, g{w}(X{w}), 0'{w[0]}). "
    if on and '0' in st.c:       # the 0 of 0'c would be converted
        return step(r, st)
    if on and ('f' in st.c or 'g' in st.c):
        return step(r, st)
    # constructed expectation
    v = Var('X')
    x = C('f', (A(cv(w)), A(w + d), int(cv(d)), v, C('g' + cv(w), (v,)), ord(cv(w[0]))))
    return 'X', f'rd({how},{codes(t)},X)', ('sols', [x])


def setflag(r, st):
    k = r.random()
    if k < .6:
        f = r.choice(list(W) if r.random() < .4 else ['char_conversion', 'strict_iso', 'double_quotes', 'back_quotes', 'unknown', 'syntax_error', 'os_error'])
        v = r.choice(W[f])
        st.f[f] = v
        return 'y', f'set_prolog_flag({f},{v})', ('sols', [A('y')])
    if k < .8:
        f = r.choice(list(W))
        v = r.choice([x for x in POOL if not (type(x) is Atom and x.name in W[f])])
        return 'y', f'set_prolog_flag({f},{qtext(v)})', ('err', C('domain_error', (A('flag_value'), C('+', (A(f), v)))))
    if k < .93:
        f = r.choice(list(RO))
        ty, tb, _ = RO[f]
        v = r.choice(POOL + [A(tb[0])] * 8 if tb else POOL + [5] * 8 if ty == 'int' else POOL + [C('gprolog', (1, 6, 0, NIL))] * 3)
        ok = {'tbl': lambda: type(v) is Atom and v.name in tb, 'int': lambda: type(v) is int, 'atom': lambda: type(v) is Atom, 'ver': lambda: type(v) is Cmp and v.name == 'gprolog' and len(v.args) == 4, 'list': lambda: v is NIL or type(v) is Cmp and v.name == '.'}[ty]()
        if ok:
            return 'y', f'set_prolog_flag({f},{qtext(v)})', ('err', C('permission_error', (A('modify'), A('flag'), A(f))))
        return 'y', f'set_prolog_flag({f},{qtext(v)})', ('err', C('domain_error', (A('flag_value'), C('+', (A(f), v)))))
    f, v, e = r.choice([('_', 'on', [IE]), ('unknown', '_', [IE]), ('nosuch', 'on', [C('domain_error', (A('prolog_flag'), A('nosuch')))]), ('f(x)', 'on', [C('type_error', (A('atom'), C('f', (A('x'),))))]), ('1', 'on', [C('type_error', (A('atom'), 1))]),
                        ('nosuch', '_', [IE, C('domain_error', (A('prolog_flag'), A('nosuch')))]), ('max_arity', '_', [IE])])
    return 'y', f'set_prolog_flag({f},{v})', ('errs', e)


def qtext(v):
    from gpv.terms import text
    return text(v, quoted=True) if 'quoted' in text.__code__.co_varnames else text(v)


def judge(spec, x):
    k, a = spec
    if k == 'osx' or k.startswith('synt'):
        isx = type(x) is Cmp and x.name == 'exc'
        if a == 'error':
            n = 'system_error' if k == 'osx' else 'syntax_error'
            ok = isx and type(x.args[0]) is Cmp and x.args[0].name == 'error' and type(x.args[0].args[0]) is Cmp and x.args[0].args[0].name in ((n, 'existence_error') if k == 'osx' else (n,))
            return None if ok else f'expected {n}'
        want = [] if k != 'synt2' else [A('$no')]
        return None if same(x, mklist(want)) else f'expected {ts(mklist(want))} ({k} {a})'
    if k == 'sols':
        return None if same(x, mklist(a)) else 'expected ' + ts(mklist(a))
    if k == 'set':
        els, t = unl(x)
        return None if els is not None and len(els) == len(a) and all(any(same(p, q) for q in a) for p in els) else 'expected the set ' + ts(mklist(a), 700)
    if k == 'n':
        els, t = unl(x)
        return None if els is not None and len(els) == a else f'expected {a} solutions'
    fm = x.args[0].args[0] if type(x) is Cmp and x.name == 'exc' and type(x.args[0]) is Cmp and x.args[0].name == 'error' else None
    if k == 'err':
        return None if fm is not None and same(fm, a) else 'expected error ' + ts(a)
    if k == 'errs':
        return None if fm is not None and any(same(fm, e) for e in a) else 'expected error ' + ' or '.join(map(ts, a))
    if k == 'fn':
        return None if type(fm) is Cmp and fm.name == a else 'expected ' + a


def unl(t):
    els = []
    while type(t) is Cmp and t.name == '.' and len(t.args) == 2:
        els.append(t.args[0])
        t = t.args[1]
    return (els, t) if t is NIL else (None, t)


def hist(r, n):
    st = St()
    steps = [step(r, st) for _ in range(n)]
    goal = 'hist([' + ', '.join(f'q({t},({g}))' for t, g, _ in steps) + '], Rs__)'

    def f(o):
        if o.state != 'end' or len(o.sols) != 1:
            return f'history did not finish: {o!r}'
        rs, _ = unl(o.sols[0])
        for (t, g, sp), x in zip(steps, rs):
            m = judge(sp, x)
            if m:
                return f'step {g} -> {ts(x)}\n{m}'
        if len(rs) != len(steps):
            return 'steps lost'
    return Case(goal, 'Rs__', f)


# flags set by directives in sources: in force for the rest of the text, and warnings shown only when on
def srccase(r):
    """a source to consult; returns (text, goal, T, expected, must contain, must not contain)"""
    fl = {k: v[0] for k, v in W.items()}
    txt, exp = [], []
    n = 0
    warn = []
    lineno = 0
    for _ in range(r.randint(2, 7)):
        k = r.random()
        if k < .45:
            f = r.choice(['double_quotes', 'double_quotes', 'back_quotes', 'singleton_warning', 'suspicious_warning', 'char_conversion'])
            v = r.choice(W[f])
            fl[f] = v
            txt.append(f':- set_prolog_flag({f}, {v}).')
        elif k < .8:
            q = r.choice('""`')
            raw, con, ne = qcontent(r, q)
            txt.append(f"'$cf'({n}, f({q}{raw}{q})).")
            exp.append(C('f', (strv(fl['double_quotes' if q == '"' else 'back_quotes'], con, ne),)))
            n += 1
        else:
            txt.append(f"'$cf'({n}, s) :- X{n} = 1.")
            warn.append((f'X{n}', fl['singleton_warning'] == 'on'))
            exp.append(A('s'))
            n += 1
    return '\n'.join(txt) + '\n', exp, warn


def consult_job(part, arg):
    i, seed = arg
    r = random.Random(f'c38c/{seed}/{i}')
    for j in range(NS):
        txt, exp, warn = srccase(r)
        outer = r.choice([None, None, ('double_quotes', r.choice(QV)), ('singleton_warning', 'off')])
        if not exp:
            continue
        txt0 = txt
        if outer and outer[0] == 'double_quotes' and ('set_prolog_flag(double_quotes' in txt or True):
            # re-evaluate under the flag inherited from the loading process
            fl = {'double_quotes': outer[1]}
            if not txt.startswith(':- set_prolog_flag(double_quotes'):
                txt = f':- set_prolog_flag(double_quotes, codes).\n' + txt
        if outer and outer[0] == 'singleton_warning':
            txt = ':- set_prolog_flag(singleton_warning, on).\n' + txt
        d = R.scratch('c38')
        try:
            with open(d + '/cf.pl', 'w', encoding='latin-1') as f:
                f.write(':- discontiguous(\'$cf\'/2).\n' + txt)
            mode = r.choice(['byte', 'native'])
            if mode == 'byte':
                pre = f"set_prolog_flag({outer[0]},{outer[1]}).\n" if outer else ''
                rr = SYS.gprolog(d, ['-q'] if 0 else [], pre + "consult('cf.pl').\nvcase(1,I-X,'$cf'(I,X)).\n;\n;\n;\n;\n;\n;\n;\n;\n;\nhalt.\nhalt.\n" if 0 else pre + "consult('cf.pl').\nvcase(1,I-X,'$cf'(I,X)), fail.\nhalt.\n", timeout=40, log=d + '/log')
                msgs = rr.out + rr.err
            else:
                with open(d + '/m.pl', 'w') as f:
                    f.write(":- initialization(main).\nmain :- vcase(1,I-X,'$cf'(I,X)), fail.\nmain.\n:- multifile('$cf'/2).\n" if 0 else ":- initialization(main).\nmain :- vcase(1,I-X,'$cf'(I,X)), fail.\nmain.\n")
                cmd = f"gplc --no-top-level -o prog m.pl cf.pl {SYS.h}/vlog.o {SYS.h}/vlog_c.o"
                with open(d + '/cf.pl', 'r+', encoding='latin-1') as f:
                    t = f.read()
                    f.seek(0)
                    f.write(":- public('$cf'/2).\n" + t)
                rc = R.run(['bash', '-c', cmd], SYS.build, d, '', 120, env=dict(R.ROOMY))
                if rc.rc != 0:
                    part.violation('c38:rejected', f'gplc rejected\n{txt}\n' + (rc.out + rc.err)[-800:], {'cf.pl': txt})
                    continue
                msgs = rc.out + rc.err
                rr = R.run(['./prog'], SYS.build, d, '', 40, log=d + '/log')
            o = Outcome(R.by_case(rr.events).get(1, []))
            part.case(f'{mode} {outer} {txt}', sample=j == 0)
            want = [C('-', (n, x)) for n, x in enumerate(exp)]
            if len(o.sols) != len(want) or not all(same(a, b) for a, b in zip(o.sols, want)):
                part.violation('c38:directive', f'{mode} (flag before loading: {outer})\n{txt}\nclauses {o!r}\nexpected {[ts(w) for w in want]}\n{rr.out[-300:]}', {'cf.pl': txt})
                continue
            for v, on in warn:
                has = re.search(r'singleton.*\b' + v + r'\b', msgs) is not None
                if has != on:
                    part.violation('c38:singleton', f'{mode} {outer} singleton warning for {v} {"missing" if on else "shown"}\n{txt}\n{msgs[-800:]}', {'cf.pl': txt})
                    break
            part.count('sources')
        finally:
            shutil.rmtree(d, ignore_errors=True)


def warn_job(part, arg):
    """unknown/syntax_error/os_error = warning: exactly one message per event, none under fail"""
    i, seed = arg
    r = random.Random(f'c38w/{seed}/{i}')
    fl = dict(unknown='error', syntax_error='error', os_error='error')
    stp, want = [], []
    for j in range(60):
        f = r.choice(list(fl))
        if r.random() < .5:
            fl[f] = r.choice(EV)
            stp.append(f'set_prolog_flag({f},{fl[f]})')
            want.append(None)
            continue
        stp.append({'unknown': r.choice(['nonesuch(1)', 'nn(2,3)']), 'syntax_error': "read_from_atom('a b .',_)", 'os_error': "delete_file('/nonexistent_q/zz')"}[f])
        want.append((f, fl[f]))
    src = ':- initialization(main).\n' + 'main :- ' + ', '.join(f's{j}' for j in range(len(stp))) + '.\n'
    for j, g in enumerate(stp):
        src += f"s{j} :- write('<<{j}:'), catch(({g} -> write(yes) ; write(no)), error(E,_), (functor(E,N,_), write(N))), write('>>'), nl.\n"
    d = R.scratch('c38')
    try:
        with open(d + '/a.pl', 'w') as f:
            f.write(src)
        if r.random() < .5:
            rr = SYS.native_run(d, ['a.pl'], log=d + '/log')
            out = rr.out
        else:
            rr = SYS.consult_run(d, ['a.pl'], 'true', log=d + '/log')
            out = rr.out
        for j, w in enumerate(want):
            m = re.search(r'<<%d:(.*?)>>' % j, out, re.S)
            got = m.group(1) if m else None
            if w is None:
                ok = got == 'yes'
                w = 'yes'
            else:
                f, v = w
                if v == 'error':
                    ok = got == {'unknown': 'existence_error', 'syntax_error': 'syntax_error', 'os_error': 'system_error'}[f]
                elif v == 'fail':
                    ok = got == 'no'
                else:
                    ok = got is not None and got.endswith('no') and got.count('warning:') == 1 and {'unknown': 'unknown procedure', 'syntax_error': 'syntax error', 'os_error': 'OS error'}[f] in got
            part.case(f'{stp[j]} {w}')
            if not ok:
                part.violation(f'c38:warn:{w}', f'step {j} {stp[j]}: {got!r}, flag {w}\n{out[-500:] if m is None else ""}{rr.err[-300:]}', {'a.pl': src})
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)


NH = 700
NS = 16


def work(part, arg):
    kind, i, seed = arg
    if kind == 'src':
        return consult_job(part, (i, seed))
    if kind == 'warn':
        return warn_job(part, (i, seed))
    r = random.Random(f'c38/{seed}/{kind}/{i}')
    cases = [hist(r, r.choice([4, 10, 20, 30])) for _ in range(NH)]
    run_batch(part, SYS if kind != 'san' else SAN, cases, 'meta' if kind == 'san' else kind, PRE, name='flag-' + kind, timeout=60)


def body():
    global SYS, SAN, NH, NS
    ck = Check('C38', rule='random histories of set_prolog_flag/current_prolog_flag/char_conversion (valid, invalid, read-only), interleaved with probes of what each flag governs (quoted items, unknown procedures, syntax and OS errors, strict-ISO rules, conversion on reading), '
               'judged step by step against a map model; flag directives in consulted and compiled sources; messages of the warning settings counted')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    if ck.thorough:
        NH, NS = 1500, 60
    jobs = [(m, i, ck.seed) for m in (('meta', 'byte', 'native') + (('san',) if ck.thorough else ())) for i in range(4)] + [('src', i, ck.seed) for i in range(8)] + [('warn', i, ck.seed) for i in range(8)]
    parallel(ck, work, jobs)
    ck.finish(500)


if __name__ == '__main__':
    main(body)
