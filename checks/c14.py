#!/usr/bin/env python3
"""C14: the reader maps each standard text to its one term."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv import gen as G
from gpv.optab import *
from gpv import ptext as P
from gpv.run import Sys
import random, re

FUNS = ['f', 'g', '-', '+', '\\', '{}', ':-', ',', '|', ';', '=', '[]', 'is', '->', '\\+', '*', '**', '^', ':', 'a', '-->', 'mod', '!', '#=', '@', 'f g']
NUMS = [0, 1, -1, 2, 7, 9, 10, 39, 92, 34, 48, 97, 127, 200, 255, 256, -5, -97, (1 << 60) - 1, -(1 << 60), 1.0, -1.0, 0.5, 1e10, -1e10, 1e-7, 1.0e100, -2.5e-8, 0.1, 1e22, 1e23, 12345.6789]

PRE = r"""
ap([]).
ap([op(P,T,N)|L]) :- op(P, T, N), ap(L).
fl([]).
fl([F=V|L]) :- set_prolog_flag(F, V), fl(L).
vrd(File, Ops, Undo, Fl, UFl, X) :- ap(Ops), fl(Fl), findall(R, rd1(File, R), L), fl(UFl), ap(Undo), member(X, L).
rd1(File, X) :- open(File, read, S), repeat, g_assign(vls, 0), catch(rdt(S, X), E, rde(S, E, X)), ( X == eof -> !, close(S), fail ; true ).
vrs(Kind, Txts, Ops, Undo, Fl, UFl, X) :- ap(Ops), fl(Fl), findall(R, ( member(t(A, Eot), Txts), catch(rs(Kind, A, Eot, R), error(F, _), R = err(F)) ), L), fl(UFl), ap(Undo), member(X, L).
rs(atom, A, E, r(T,Vs,Ns,Ss)) :- read_term_from_atom(A, T, [variables(Vs),end_of_term(E),variable_names(Ns),singletons(Ss)]).
rs(codes, A, E, r(T,Vs,Ns,Ss)) :- atom_codes(A, L), read_term_from_codes(L, T, [variables(Vs),end_of_term(E),variable_names(Ns),singletons(Ss)]).
rs(chars, A, E, r(T,Vs,Ns,Ss)) :- atom_chars(A, L), read_term_from_chars(L, T, [variables(Vs),end_of_term(E),variable_names(Ns),singletons(Ss)]).
rs(stm, A, E, r(T,Vs,Ns,Ss)) :- open_input_atom_stream(A, S), read_term(S, T, [variables(Vs),end_of_term(E),variable_names(Ns),singletons(Ss)]), close_input_atom_stream(S).
rs(fail, A, E, X) :- open_input_atom_stream(A, S), ( read_term(S, T, [variables(Vs),end_of_term(E),variable_names(Ns),singletons(Ss),syntax_error(fail)]) -> X = r(T,Vs,Ns,Ss) ; X = err(syntax_error(fail)) ), close_input_atom_stream(S).
rdt(S, X) :- read_term(S, T, [variables(Vs), variable_names(Ns), singletons(Ss)]), last_read_start_line_column(L, C),
   line_count(S, LC), line_position(S, LP),
   ( T == end_of_file -> X = eof ; X = r(T, Vs, Ns, Ss, L, C, LC, LP) ).
rde(S, E, err(F)) :- E = error(F, _), line_count(S, _).
"""


def rterm(r, d, vs, names, fl):
    k = r.random()
    if d <= 0 or k < .2:
        if vs and k < .08:
            return r.choice(vs)
        j = r.random()
        if j < .25 and names:
            return Atom(r.choice(names))
        if j < .6:
            return Atom(r.choice(OPN + ['[]', '{}', ';', '!', ',', '|']) if r.random() < .6 else r.choice(G.ATOMS))
        return r.choice(NUMS) if r.random() < .9 else r.randint(-300, 300)
    if k < .26 and vs:
        return r.choice(vs)
    if k < .34:
        return mklist([rterm(r, d - 1, vs, names, fl) for _ in range(r.choice([1, 2, 3]))], NIL if r.random() < .6 else rterm(r, d - 1, vs, names, fl))
    if k < .4:
        # text
        s = ''.join(r.choice('ab\'"`\\ \n\t\x01\x7f\xe9(,|0_A') for _ in range(r.choice([1, 2, 4])))
        j = r.random()
        return mklist([ord(c) for c in s]) if j < .4 else mklist([Atom(c) for c in s]) if j < .7 else Atom(s)
    if k < .44:
        return Cmp('{}', [rterm(r, d - 1, vs, names, fl)])
    n = 1 if k < .6 else 2 if k < .95 else r.choice([3, 4, 7])
    f = r.choice(names) if names and r.random() < .5 else r.choice(FUNS) if r.random() < .8 else r.choice(OPN)
    return Cmp(f, [rterm(r, d - 1, vs, names, fl) for _ in range(n)])


VN = ['X', 'Y', 'Abc', '_x', '_X', 'A1_b', '_1', 'Z' * 40, '__', 'E', 'X_']

# token sequences that belong to no term whatever the operators (never two operands in a row that could be operators)
BAD = ["f(1,)", "f(,1)", "[1|]", "[|1]", "[1,]", "[1,2|3,4]", "[1|2|3]", "f(1", "(1", "[1", "{1", "f(1))", "1)", "1]", "1}", "f(]", "(1]", "[1)", "{1)", "1 2", "X Y", "1 X", "X(1)", "X (1)", "1(2)", "'a\\qb'", "'\\x110000000\\'",
       "'\\x4g\\'", "f(1 2)", "[1 2]", "{1 2}", "()", "f()", "( )", "f( )", "(,)", "[,]", "{,}", "0'\\q", "1.5.5 1.5", "[1|2", ", 1", "1 ,", "| 1", "1 \x01\x02 2", "f(1;|)", "\"zz\" \"zy\"", "1 \"zz\"", "'\\y'", "`zz` 1", "[] 1 2", "{} 1 2", "_ _",
       "f(X Y)", "1 + + 2 3", "f(a,b,,c)", "[a,,b]", "a\xa7\xa7 1 1", "{a b c 1 2}", "\xd7 \xd7 1 1"]


class Bad(str):
    pass


def balanced(s):
    return not any(s.count(a) != s.count(b) for a, b in ('()', '[]', '{}'))


def lc(text, off):
    s = text[:off]
    return s.count('\n') + 1, off - (s.rfind('\n') + 1) + 1


def c_file(r, n):
    ops, undo, names = mkops(r)
    if any('\n' in x for x in names) and False:
        ops, undo, names = [], [], []
    tab = table(ops)
    dq = r.choice(['codes', 'codes', 'chars', 'atom', 'codes_no_escape', 'chars_no_escape', 'atom_no_escape'])
    bq = r.choice(['atom', 'atom', 'codes', 'chars', 'codes_no_escape', 'chars_no_escape', 'atom_no_escape'])
    fl = f'[double_quotes={dq},back_quotes={bq}]'
    out, exp, line = [], [], 1
    simple = r.random() < .15
    body = ''
    for _ in range(n):
        if r.random() < .12:
            bad = r.choice(BAD)
            if '\\y' in bad or True:
                lead = r.choice(['', ' ', '\n', 'foo(', 'X = ', '[1,2,', '% c\n', '/* c */'])
                if lead in ('foo(', '[1,2,', 'X = ') and not balanced(bad):
                    lead = ''
                lst = body.count('\n') + 1
                bt = lead + bad + r.choice([' .\n', ' . ', ' .%c\n', '\n.\n'])
                body += bt
            exp.append(Bad(bt))
            exp[-1].lines = lst, body.count('\n') + 1
            continue
        nv = r.choice([0, 0, 1, 2, 3])
        vs = [Var(i) for i in range(nv)]
        t = rterm(r, r.choice([0, 1, 2, 2, 3, 4]), vs, names, (dq, bq))
        if t is Atom('end_of_file'):
            continue
        cnt = {}
        st = [t]
        while st:
            x = st.pop()
            if type(x) is Var:
                cnt[x.id] = cnt.get(x.id, 0) + 1
            elif type(x) is Cmp:
                st.extend(x.args)
        nms = r.sample(VN, nv)
        vn = {v.id: ('_' if cnt.get(v.id) == 1 and r.random() < .4 else nms[v.id]) for v in vs}
        s, off, dot = P.render(r, t, tab, dq, bq, simple, vname=lambda v: vn[v.id])
        tv = term_vars(t)
        allv = mklist(tv)
        named = mklist([Cmp('=', [Atom(vn[v.id]), v]) for v in tv if vn[v.id] != '_'])
        sing = mklist([Cmp('=', [Atom(vn[v.id]), v]) for v in tv if vn[v.id] != '_' and cnt[v.id] == 1])
        L, C = lc(body + s, len(body) + off)
        L2, C2 = lc(body + s, len(body) + dot)
        exp.append((Cmp('r', [t, allv, named, sing, L, C, L2 - 1, C2 - 1]), s, ops, dot))
        body += s
    tail = r.choice(['', '', '\n', ' % end', '/* end */', '  \n% x\n'])
    body += tail
    body_ = body
    return body, exp, ops, undo, fl


def expect(exp, body, how='file'):
    def f(o):
        if o.state != 'end':
            return 'reading did not end'
        for i, (x, w) in enumerate(zip(o.sols, exp)):
            if type(w) is Bad:
                if not (type(x) is Cmp and x.name == 'err' and type(x.args[0]) is Cmp and x.args[0].name == 'syntax_error'):
                    return f'clause {i} {w!r} is not a term but was read as {ts(x)}'
                m = re.search(r':(\d+) \(char:(\d+)\)', x.args[0].args[0].name)
                if how == 'file' and not (m and w.lines[0] <= int(m[1]) <= w.lines[1]):
                    return f'clause {i} {w!r} spans lines {w.lines} but the error names {m and m[1]}'
                continue
            w, s, ops, _ = w
            if type(x) is not Cmp or x.name != 'r':
                return f'clause {i}: text {s!r} ops {ops}\nread as {ts(x)}\nexpected {ts(w.args[0])}\nprev {exp[i-1] if type(exp[i-1]) is Bad else exp[i-1][1]!r}'
            if not same(Cmp('r', x.args[:4]), Cmp('r', w.args[:4])):
                return f'clause {i}: text {s!r} ops {ops}\nread as {ts(Cmp("r", x.args[:4]), 900)}\nexpected {ts(Cmp("r", w.args[:4]), 900)}'
            if how == 'file' and x.args[4:] != w.args[4:]:
                return f'clause {i}: text {s!r}\nposition (start line, column, line count, line position after) reported {x.args[4:]} expected {w.args[4:]}'
        if len(o.sols) != len(exp):
            return f'{len(o.sols)} clauses read, {len(exp)} in the file'
    return f


def work(part, arg):
    mode, i, n, k, seed = arg
    r = random.Random(f'c14/{seed}/{mode}/{i}')
    cases, files = [], {}
    for j in range(n):
        body, exp, ops, undo, fl = c_file(r, k)
        opl = lambda l: '[' + ','.join(f'op({p},{t},{qatom(nm)})' for p, t, nm in l) + ']'
        if r.random() < .3:
            l = []
            for w in exp:
                tx = w if type(w) is Bad else w[1]
                eot = 'dot'
                if r.random() < .4:
                    eot = 'eof'
                    tx = tx[:tx.rindex('.')] if type(w) is Bad else tx[:w[3] - 1]
                l.append(f't({qatom(tx)},{eot})')
            kind = r.choice(['atom', 'codes', 'chars', 'stm', 'fail'])
            c = Case(f"vrs({kind}, [{','.join(l)}], {opl(ops)}, {opl(undo)}, {fl}, [double_quotes=codes,back_quotes=atom], X)", 'X', expect(exp, body, kind), key='read_' + kind)
            c.note = body
            cases.append(c)
            continue
        files[f'f{j}.txt'] = body
        c = Case(f"vrd('f{j}.txt', {opl(ops)}, {opl(undo)}, {fl}, [double_quotes=codes,back_quotes=atom], X)", 'X', expect(exp, body), key='read')
        c.note = body
        cases.append(c)
        part.count('clauses read', len(exp))
        part.count('bad clauses', sum(type(e) is Bad for e in exp))
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRE, name='rd-' + mode, files=files,
              env={'GLOBALSZ': '200000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.key}:{hash_(c.note)}')


def hash_(s):
    import hashlib
    return hashlib.md5(s.encode('latin-1')).hexdigest()[:6]


def body():
    global SYS, SAN
    ck = Check('C14', rule='files of random clauses rendered from terms (operator / functional notation, redundant brackets, layout, comments, quoting and escapes, number notations, quoted lists) under random '
               'operator tables and quote flags, with faulty clauses between; term, variables, names, singletons and start position compared with those rendered; distinct by file')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(('meta', 'meta', 'byte')[i % 3], i, 25, 40, ck.seed) for i in range(ck.n(288, 2400))]
    if SAN:
        jobs += [('san', i, 10, 40, ck.seed) for i in range(24)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
