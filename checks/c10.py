#!/usr/bin/env python3
"""C10: atom and text predicates satisfy their relational definition."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.refcase import *
from gpv.run import Sys
import random, re

SYNTAX = 'syntax'
SP = [chr(c) for c in range(1, 256)]
V = [Var(i) for i in range(6)]


def codes_t(s):
    return mklist([ord(c) for c in s])


def chars_t(s):
    return mklist([Atom(c) for c in s])


def rtext(r, n=None, alpha=None):
    k = r.random()
    if n is None:
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33]) if k < .93 else r.choice([64, 127, 128, 255, 256, 257, 600])
    if alpha is None:
        j = r.random()
        alpha = 'ab' if j < .35 else 'aAbBzZ09_ ' if j < .6 else ''.join(SP) if j < .9 else 'a\n\\\'"\x7f\x80\xff'
    return ''.join(r.choice(alpha) for _ in range(n))


NUMRX = re.compile(r"(?:[ \t\n\r]|%[^\n]*\n|/\*(?:[^*]|\*(?!/))*\*/)*(-?)(?:(0x[0-9a-fA-F]+)|(0o[0-7]+)|(0b[01]+)|(0'(?:\\n|\\t|\\\\|''|\\x[0-9a-fA-F]+\\|\\[0-7]+\\|[^\\'\n]))|([0-9]+\.[0-9]+(?:[eE][+-]?[0-9]+)?)|([0-9]+))\Z")


def parse_number(s):
    """the number denoted by the whole text, None when it is not one"""
    m = NUMRX.match(s)
    if not m:
        return None
    neg, hx, oc, bi, ch, fl, de = m.groups()
    if fl:
        v = float(fl)
        return -v if neg else v
    if hx:
        v = int(hx[2:], 16)
    elif oc:
        v = int(oc[2:], 8)
    elif bi:
        v = int(bi[2:], 2)
    elif ch:
        c = ch[2:]
        v = ({'\\n': 10, '\\t': 9, '\\\\': 92, "''": 39}.get(c) or
             (int(c[2:-1], 16) if c[:2] == '\\x' else int(c[1:-1], 8) if len(c) > 1 else ord(c)))
        if not 0 < v < 256:
            return None
    else:
        v = int(de)
    if neg:
        v = -v
    if not G.IMIN <= v <= G.IMAX:
        return None
    return v


def num_text(r):
    k = r.random()
    if k < .25:
        s = str(r.choice(G.INTS + [G.IMAX + 1, G.IMIN - 1, 10 ** 30, r.randint(-99, 99)]))
    elif k < .4:
        v = r.choice([r.randint(0, 300), r.getrandbits(60), 0])
        s = r.choice(['0x%x', '0x%X', '0o%o']) % v if r.random() < .8 else '0b' + bin(v)[2:]
        if r.random() < .2:
            s = '-' + s
    elif k < .65:
        s = r.choice(['%d.%d', '%d.%02d', '%d.%de%d', '%d.%dE+%d', '%d.%de-%d', '%05d.%de%02d'])
        a = (r.choice([0, 1, 12, 123456789, 10 ** 17 + 1]), r.choice([0, 1, 5, 25, 3125, 99999999999999999]), r.choice([0, 1, 5, 22, 100, 250]))
        s = s % a[:s.count('%')]
        if r.random() < .3:
            s = '-' + s
    elif k < .75:
        s = "0'" + r.choice(['a', 'Z', ' ', '\\n', "''", '\\\\', '\\x41\\', '\\101\\', '0', '\xe9', '"', '-', '(', '\\x0\\', '\\q', "'"])
    elif k < .88:
        s = r.choice(['', '-', '+1', '1.', '1.e5', '.5', '1e5', '1.5e', '1.5e+', '0x', '0xg', '0b2', '0o8', '1 2', 'a', '--1', '1-', '12a', '12 ', '1.2.3',
                      '1.5 ', "'1'", '"1"', '[1]', '(1)', '1_0', '0.5f', '00x1', '\xb2', '1,2', 'X', '_1', '1/2', 'inf', 'nan', '1.0Inf', "0'ab", '1\n', '-a', '- a', '.', '/* */', '%1'])
    else:
        s = rtext(r, r.choice([1, 2, 3]), '0123456789.-e x')
    if r.random() < .12:
        s = r.choice([' ', '\n', '\t ', '/* 1 */', '% 2\n', ' /**/ ']) + s
    return s


# expectations: list of solutions (goal-variable substitutions) and/or allowed errors
def expect(sols, forms=(), syntax=False):
    """sols: list of expected instances of the template or None when only errors are right"""
    def f(o):
        if sols is not None and o.state == 'end' and len(o.sols) == len(sols) and all(same(a, b) for a, b in zip(o.sols, sols)):
            return None
        if o.state == 'exc' and not o.sols and o.formal is not None:
            if any(same(o.formal, x) for x in forms):
                return None
            if syntax and type(o.formal) is Cmp and o.formal.name == 'syntax_error':
                return None
        return ('expected ' + ('error ' + ' or '.join(map(ts, forms)) + (' syntax_error' if syntax else '') if sols is None else
                               'solutions [' + ' ; '.join(ts(x) for x in sols[:8]) + ']%d' % len(sols) +
                               (' or error ' + ' '.join(map(ts, forms)) + ('syntax' if syntax else '') if forms or syntax else '')))
    return f


def mk(goal, ref, r, errs=(), also_errs=(), syntax=False, key=None):
    """goal: Cmp; ref: list of argument tuples enumerated by the definition; errs: the call must raise one of these"""
    vs = term_vars(goal)
    tm = Cmp('v', vs) if vs else Atom('v')
    if errs or (syntax and ref is None):
        ex = expect(None, errs, syntax)
    else:
        sols = []
        for t in ref:
            s = unify(goal, Cmp(goal.name, t), {})
            if s is not None and s != 'cyclic':
                sols.append(subst(tm, s))
        ex = expect(sols, also_errs, syntax)
    if goal.args and r.random() < .35:
        gt = ', '.join(f'=(A{i}_, {text(a)})' for i, a in enumerate(goal.args)) + f', {goal.name}(' + ', '.join('A%d_' % i for i in range(len(goal.args))) + ')'
    else:
        gt = text(goal)
    return Case(gt, text(tm), ex, key=key or goal.name)


def bad(r):
    return r.choice([1, 2.5, Cmp('f', [Atom('x')]), -3, mklist([Atom('a')]), 97])


def i_errs(a):
    if type(a) is Var:
        return []
    if type(a) is not int:
        return [terr('integer', a)]
    return [derr('not_less_than_zero', a)] if a < 0 else []


def a_errs(a):
    return [] if type(a) in (Var, Atom) else [terr('atom', a)]


def pv(r, x, p, v):
    return v if r.random() < p else x


def g_length(r):
    s = rtext(r)
    k = r.random()
    a = Atom(s) if k < .85 else r.choice([V[0], bad(r)])
    n = r.choice([V[1], V[1], len(s), len(s) + r.choice([1, -1]), len(s) + (1 << 32), len(s) + 256, -1, Atom('a'), 2.0, V[0]])
    errs = a_errs(a) + i_errs(n)
    if type(a) is Var:
        errs.append(INST)
    return mk(Cmp('atom_length', [a, n]), [(a, len(s))], r, errs)


def g_concat(r):
    s = rtext(r)
    i = r.randint(0, len(s))
    x, y, z = Atom(s[:i]), Atom(s[i:]), Atom(s)
    k = r.random()
    if k < .3:
        a = [x, y, V[0]]
    elif k < .55:
        a = [V[0], r.choice([V[1], V[1], V[0], y]), z]
    elif k < .75:
        a = [r.choice([x, Atom(G.near_name(r, s[:i])), V[0]]), r.choice([y, V[1], Atom(G.near_name(r, s[i:]))]), r.choice([z, Atom(G.near_name(r, s))])]
    else:
        a = [r.choice([x, V[0], bad(r)]), r.choice([y, V[1], bad(r)]), r.choice([z, V[2], bad(r)])]
    errs = sum((a_errs(t) for t in a), [])
    if type(a[2]) is Var and (type(a[0]) is Var or type(a[1]) is Var):
        errs.append(INST)
    if errs:
        return mk(Cmp('atom_concat', a), None, r, errs)
    if type(a[2]) is Atom:
        w = a[2].name
        ref = [(Atom(w[:j]), Atom(w[j:]), a[2]) for j in range(len(w) + 1)]
    else:
        ref = [(a[0], a[1], Atom(a[0].name + a[1].name))]
    return mk(Cmp('atom_concat', a), ref, r)


def g_sub(r):
    k = r.random()
    s = rtext(r, r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20]) if k < .95 else 80)
    n = len(s)
    b = r.randint(0, n)
    l = r.randint(0, n - b)
    a = n - b - l
    w = s[b:b + l]
    if r.random() < .2:
        w = G.near_name(r, w)
    far = [1 << 32, (1 << 32) + b, 256 + a, n, n + 1, G.IMAX, 1 << 31]
    args = [Atom(s) if r.random() < .95 else r.choice([V[0], bad(r)])]
    for x, v in ((b, V[1]), (l, V[2]), (a, V[3])):
        j = r.random()
        args.append(v if j < .6 else x if j < .9 else r.choice(far) if j < .97 else r.choice([-1, Atom('x'), 1.0, V[1]]))
    j = r.random()
    args.append(V[4] if j < .6 else Atom(w) if j < .95 else r.choice([bad(r), args[0]]))
    if r.random() < .06:
        args[r.randint(1, 3)] = args[r.randint(1, 3)]
    errs = a_errs(args[0]) + a_errs(args[4]) + sum((i_errs(x) for x in args[1:4]), [])
    if type(args[0]) is Var:
        errs.append(INST)
    if errs:
        return mk(Cmp('sub_atom', args), None, r, errs)
    s = args[0].name
    n = len(s)
    ref = ((args[0], i, j, n - i - j, Atom(s[i:i + j])) for i in range(n + 1) for j in range(n - i + 1))
    return mk(Cmp('sub_atom', args), ref, r)


def c_errs(a):
    if type(a) is Var or type(a) is Atom and len(a.name) == 1:
        return []
    return [terr('character', a)]


def code_errs(a):
    if type(a) is Var:
        return []
    if type(a) is not int:
        return [terr('integer', a)]
    return [rerr('character_code')] if not 0 < a < 256 else []


def g_ccode(r):
    c = r.randint(1, 255)
    a = r.choice([V[0], Atom(chr(c)), Atom(chr(c)), bad(r), Atom('ab'), Atom(''), NIL] if r.random() < .4 else [V[0], Atom(chr(c))])
    b = r.choice([V[1], c, c, c ^ 1 or 2, c ^ 32 or 3, 0, 256, -1, 256 + c, (1 << 32) + c, Atom('a'), 1.0, V[0]] if r.random() < .5 else [V[1], c])
    errs = c_errs(a) + code_errs(b)
    if type(a) is Var and type(b) is Var:
        errs.append(INST)
    return mk(Cmp('char_code', [a, b]), [(Atom(chr(i)), i) for i in range(1, 256)], r, errs)


def up(c):
    return c.upper() if 'a' <= c <= 'z' else c


def lo(c):
    return c.lower() if 'A' <= c <= 'Z' else c


def g_lower(r):
    c = r.choice('azmAZMn09_ [@`{') if r.random() < .6 else chr(r.randint(1, 127))
    d = r.choice([up(c), lo(c), c, chr(r.randint(1, 127))])
    k = r.random()
    a, b = (Atom(c), V[1]) if k < .4 else (V[0], Atom(c)) if k < .7 else (Atom(c), Atom(d)) if k < .9 else (r.choice([V[0], Atom('ab'), bad(r), Atom('a')]), r.choice([V[1], Atom(''), bad(r), Atom('A')]))
    errs = c_errs(a) + c_errs(b)
    if type(a) is Var and type(b) is Var:
        errs.append(INST)
    if errs:
        return mk(Cmp('lower_upper', [a, b]), None, r, errs)
    if type(a) is Atom:
        ref = [(a, Atom(up(a.name)))]
    else:
        ref = [(Atom(lo(b.name)), b)]
    return mk(Cmp('lower_upper', [a, b]), ref, r)


def list_for(r, s, chars):
    """(list term, elements, tail)"""
    els = [Atom(c) if chars else ord(c) for c in s]
    k = r.random()
    tail = NIL
    if k > .55:
        for _ in range(r.choice([1, 1, 2])):
            if els:
                els[r.randrange(len(els))] = r.choice([V[2], V[3], r.choice([Atom('ab'), 1, Atom(''), Cmp('f', [V[4]]), 2.5]) if chars else
                                                       r.choice([0, 256, -1, Atom('a'), (1 << 32) + 97, Cmp('f', [V[4]]), 1.0])] if r.random() < .75 else [97 if chars else Atom('a')])
    if k > .7:
        tail = r.choice([V[5], V[5], Atom('foo'), 3, Cmp('f', [Atom('a')])])
        if r.random() < .5 and els:
            els = els[:r.randrange(len(els) + 1)]
    if not els and tail is not NIL and type(tail) is not Var and r.random() < .5:
        tail = NIL
    return mklist(els, tail), els, tail


def elem_errs(els, chars):
    return [e for x in els for e in (c_errs(x) if chars else code_errs(x))]


def g_aconv(r):
    chars = r.random() < .5
    nm = 'atom_chars' if chars else 'atom_codes'
    s = rtext(r)
    a = Atom(s)
    k = r.random()
    if k < .3:
        lst = r.choice([V[1], V[1], (chars_t if chars else codes_t)(s)])
        return mk(Cmp(nm, [a, lst]), [(a, (chars_t if chars else codes_t)(s))], r)
    if k < .55:
        lst = (chars_t if chars else codes_t)(s)
        return mk(Cmp(nm, [V[0], lst]), [(a, lst)], r)
    lst, els, tail = list_for(r, s, chars)
    a = r.choice([V[0], a, a, Atom(G.near_name(r, s)), bad(r)] if r.random() < .9 else [NIL])
    errs = elem_errs(els, chars)
    if type(tail) is not Var and tail is not NIL:
        errs.append(terr('list', lst))
    if type(a) not in (Var, Atom):
        errs.append(terr('atom', a))
    if type(a) is Var and (type(tail) is Var or any(type(e) is Var for e in els)):
        errs.append(INST)
    if errs:
        return mk(Cmp(nm, [a, lst]), None, r, errs)
    if type(a) is Var:
        ref = [(Atom(''.join(e.name if chars else chr(e) for e in els)), lst)]
    else:
        ref = [(a, (chars_t if chars else codes_t)(a.name))]
    return mk(Cmp(nm, [a, lst]), ref, r)


def num_name(v):
    if type(v) is int:
        return str(v)
    s = '%.15g' % v
    if float(s) != v:
        s = '%.17g' % v
    if '.' not in s and 'n' not in s:
        m, e, x = s.partition('e')
        s = m + '.0' + e + x
    return s


def g_nconv(r):
    nm = r.choice(['number_atom', 'number_chars', 'number_codes'])
    cv = {'number_atom': Atom, 'number_chars': chars_t, 'number_codes': codes_t}[nm]
    s = num_text(r)
    if re.search(r'-\s', s):
        return None         # a sign followed by layout: accepted, but not documented
    v = parse_number(s)
    k = r.random()
    if k < .55:
        # parsing
        if v is None or v in (float('inf'), float('-inf')):
            return mk(Cmp(nm, [V[0], cv(s)]), None, r, syntax=True) if v is None else None
        return mk(Cmp(nm, [V[0], cv(s)]), [(v, cv(s))], r)
    if k < .7 and v is not None and abs(v) != float('inf'):
        w = r.choice([v, v, G.near_const(r, v)])
        if w == 0 and type(w) is float:
            return None
        return mk(Cmp(nm, [w, cv(s)]), [(v, cv(s))], r)
    if k < .8:
        n = r.choice([r.choice(G.INTS), r.randint(-999, 999), r.choice([1.5, 0.25, -3.0, 1e10, 123456.789])])
        if type(n) is int:
            return mk(Cmp(nm, [n, V[1]]), [(n, cv(num_name(n)))], r)
        # text of a float: must denote it
        back = Cmp(nm, [V[2], V[1]])
        c = Case(f'{text(Cmp(nm, [n, V[1]]))}, {text(back)}', text(V[2]), expect([n]), key=nm)
        return c
    n = r.choice([V[0], V[0], bad(r), Atom('a'), 12])
    if nm == 'number_atom':
        a = r.choice([V[1], Atom(s), bad(r)])
        errs = ([terr('number', n)] if type(n) not in (Var, int, float) else []) + a_errs(a)
        if type(n) is Var and type(a) is Var:
            errs.append(INST)
        if errs:
            return mk(Cmp(nm, [n, a]), None, r, errs, syntax=type(a) is Atom and v is None)
        return None
    lst, els, tail = list_for(r, s, nm == 'number_chars')
    errs = elem_errs(els, nm == 'number_chars')
    opt = []
    if type(n) in (int, float):
        opt, errs = errs, []
    if type(tail) is not Var and tail is not NIL:
        errs.append(terr('list', lst))
        errs += opt
    if type(n) not in (Var, int, float):
        errs.append(terr('number', n))
    partial = type(tail) is Var or any(type(e) is Var for e in els)
    if type(n) is Var and partial:
        errs.append(INST)
    if errs:
        return mk(Cmp(nm, [n, lst]), None, r, errs)
    if type(n) is float:
        return None
    if type(n) is Var:
        if v is None or abs(v) == float('inf') or len(els) != len(s) or not all(same(x, y) for x, y in zip(els, [Atom(c) if nm == 'number_chars' else ord(c) for c in s])):
            return None
        return mk(Cmp(nm, [n, lst]), [(v, lst)], r)
    # number given: its text, or any text denoting it
    ref = [(n, cv(num_name(n)))] if partial else None
    if ref is None:
        return None
    return mk(Cmp(nm, [n, lst]), ref, r, also_errs=opt)


def g_name(r):
    k = r.random()
    if k < .45:
        s = num_text(r) if r.random() < .6 else rtext(r)
        v = parse_number(s)
        if v is not None and abs(v) == float('inf'):
            return None
        if re.match(r'\s*-\s', s) or parse_number(s.lstrip(''.join(map(chr, [*range(1, 33), *range(127, 161)])))) is not None and v is None:
            return None         # which codes above 127 or below 32 are layout is not documented
        return mk(Cmp('name', [V[0], codes_t(s)]), [(Atom(s) if v is None else v, codes_t(s))], r)
    if k < .65:
        s = rtext(r)
        a = Atom(s)
        return mk(Cmp('name', [a, r.choice([V[1], codes_t(s), codes_t(G.near_name(r, s))])]), [(a, codes_t(s))], r)
    if k < .75:
        n = r.choice(G.INTS)
        return mk(Cmp('name', [n, V[1]]), [(n, codes_t(str(n)))], r)
    s = rtext(r, 3)
    lst, els, tail = list_for(r, s, False)
    a = r.choice([V[0], V[0], Atom(s), Cmp('f', [Atom('x')])])
    errs = elem_errs(els, False)
    opt = []
    if type(tail) is not Var and tail is not NIL:
        errs.append(terr('list', lst))
    if type(a) is Atom:
        opt, errs = errs, []
    if type(a) is Cmp:
        errs.append(terr('atomic', a))
    if type(a) is Var and (type(tail) is Var or any(type(e) is Var for e in els)):
        errs.append(INST)
    if errs:
        return mk(Cmp('name', [a, lst]), None, r, errs)
    if type(a) is Var:
        return None
    return mk(Cmp('name', [a, lst]), [(a, codes_t(a.name))], r, also_errs=opt)


def g_conv(r):
    k = r.randrange(8)
    """the term-to-text conversions agree with each other and with a stream; text to term is the inverse of quoting"""
    t = G.term(r, 3, V[:2] if k in (3, 4, 5) and r.random() < .3 else [], atoms=G.ATOMS)
    tt = text(t)
    if k == 0:
        w = r.choice(['write', 'writeq', 'print', 'display', 'write_canonical'])
        g = f'=(T, {tt}), {w}_to_atom(A, T), {w}_to_chars(B, T), {w}_to_codes(C, T), atom_chars(A, B), atom_codes(A, C), open_output_atom_stream(S), {w}(S, T), close_output_atom_stream(S, D), A == D'
        return Case(g, 'ok', sols_are([Atom('ok')]), key=w + '_to')
    if k == 1:
        g = f"=(T, {tt}), format_to_atom(A, '~q|~w~n', [T,T]), format_to_chars(B, '~q|~w~n', [T,T]), format_to_codes(C, '~q|~w~n', [T,T]), atom_chars(A, B), atom_codes(A, C), writeq_to_atom(Q, T), write_to_atom(W, T), atom_concat(Q, '|', D1), atom_concat(D1, W, D2), atom_concat(D2, '\\n', A)"
        return Case(g, 'ok', sols_are([Atom('ok')]), key='format_to')
    if k == 2:
        o = r.choice(['[quoted(true)]', '[ignore_ops(true)]', '[max_depth(4)]', '[quoted(true),space_args(true)]', '[]'])
        g = f'=(T, {tt}), write_term_to_atom(A, T, {o}), write_term_to_chars(B, T, {o}), write_term_to_codes(C, T, {o}), atom_chars(A, B), atom_codes(A, C), open_output_codes_stream(S), write_term(S, T, {o}), close_output_codes_stream(S, C)'
        return Case(g, 'ok', sols_are([Atom('ok')]), key='write_term_to')
    if k in (3, 4, 5):
        via = r.choice(['atom', 'chars', 'codes'])
        if r.random() < .5:
            g = f'=(T, {tt}), writeq_to_{via}(A, T), read_term_from_{via}(A, U, [end_of_term(eof)])'
        else:
            g = f"=(T, {tt}), format_to_{via}(A, '~q . ', [T]), " + r.choice([f'read_from_{via}(A, U)', f'read_term_from_{via}(A, U, [])'])
        return Case(g, 'U', sols_are([t]), key='read_from')
    # sub-atoms and splitting agree: concat of the three parts is the whole
    s = rtext(r, r.choice([3, 10, 40]))
    b = r.randint(0, len(s))
    g = f'=(A, {text(Atom(s))}), sub_atom(A, {b}, L, 0, X), sub_atom(A, 0, {b}, _, Y), atom_concat(Y, X, Z), Z == A, atom_length(X, L)'
    return Case(g, 'ok', sols_are([Atom('ok')]), key='sub+concat')


def g_new(r):
    p = rtext(r, r.choice([1, 3, 10, 10, 1500]), "abc_$ ")
    n = r.randint(2, 20)
    pt = qatom(p)
    ex = lambda o: None if o.state == 'end' and o.sols and same(o.sols[0], Atom('ok')) and len(o.sols) == 1 else 'new_atom: not new, not distinct or wrong prefix'
    g = (f"length(L, {n}), newatoms(L, {pt}), sort(L, M), length(M, {n}), \\+ (member(X, L), \\+ (sub_atom(X, 0, _, K, {pt}), K > 0))")
    return Case(g, 'ok', ex, key='new_atom')


PRE = """
newatoms([], _).
newatoms([X|T], P) :- findall(A, current_atom(A), As), new_atom(P, X), \\+ memberchk(X, As), newatoms(T, P).
"""
GENS = [(g_length, 6), (g_concat, 12), (g_sub, 22), (g_ccode, 8), (g_lower, 6), (g_aconv, 16), (g_nconv, 24), (g_name, 12), (g_conv, 12), (g_new, .4)]


def large(r):
    out = []
    for n in (1000, 3000, 20000, 65535, 65536, 70000):
        c = r.choice('xy\xff')
        a = '%s0' % n
        mkA = f"length(L, {n}), maplist(=({text(Atom(c))}), L), atom_chars(A, L)"
        out.append(Case(f"{mkA}, atom_length(A, N), atom_codes(A, Cs), length(Cs, M), atom_concat(A, b, B), atom_length(B, K), sub_atom(B, {n}, 1, Z, X)", 'v(N,M,K,Z,X)',
                        sols_are([Cmp('v', [n, n, n + 1, 0, Atom('b')])]), key='large'))
        out.append(Case(f"{mkA}, atom_concat(A, b, B), atom_concat(P, b, B), P == A, sub_atom(B, K, 1, 0, Y), atom_concat(B, A, C), sub_atom(C, I, _, 0, b{'x'}), !", 'v(K,Y,I)',
                        sols_are([]), key='large'))
        out.append(Case(f"{mkA}, atom_concat(A, b, B), atom_concat(B, A, C), sub_atom(C, I, _, J, b)", 'v(I,J)', sols_are([Cmp('v', [n, n])]), key='large'))
    for n in (100, 300):
        out.append(Case(f"length(L, {n}), maplist(=(q), L), atom_chars(A, L), countall(sub_atom(A,_,_,_,_), N), countall(atom_concat(_,_,A), M)", 'v(N,M)',
                        sols_are([Cmp('v', [(n + 1) * (n + 2) // 2, n + 1])]), key='large'))
    return out


def make(r, n):
    out = large(r) if r.random() < .15 else []
    fs, ws = zip(*GENS)
    while len(out) < n:
        c = r.choices(fs, ws)[0](r)
        if c is not None:
            out.append(c)
    return out


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c10/{seed}/{mode}/{i}')
    cases = make(r, n)
    m = 'native' if mode == 'san' else mode
    run_batch(part, SAN if mode == 'san' else SYS, cases, m, PRE, name='text-' + mode, env={'GLOBALSZ': '200000', 'LOCALSZ': '100000'},
              keyf=lambda c: f'{mode}:{c.key or c.goal[:60]}')
    for c in cases:
        part.count('op ' + c.key)


def body():
    global SYS, SAN
    ck = Check('C10', rule='calls of the text predicates over all 255 codes, lengths 0 to 70000, all modes, ill-typed and partial lists, number texts and their corruptions; all solutions in order or '
               'the error compared with the definition; term-to-text conversions compared with each other and with a stream; distinct by goal and mode')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 500, ck.seed) for i in range(ck.n(45, 200)) for m in ('native', 'byte', 'meta')]
    if SAN:
        jobs += [('san', i, 300, ck.seed) for i in range(20)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
