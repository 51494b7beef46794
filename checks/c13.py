#!/usr/bin/env python3
"""C13: what is written with quotes reads back as the same term."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv import gen as G
from gpv.optab import *
from gpv.run import Sys
import random

FUNS = ['f', 'g', '-', '+', '\\', '{}', ':-', ',', '|', ';', '=', '.', '[]', 'is', '!', '->', '\\+', '*', '**', '^', '$VAR', ':', 'a', '-->', '?-', '#=', '@']
NUMS = [0, 1, -1, 2, -2, 7, 12, 255, -5, (1 << 60) - 1, -(1 << 60), 1.0, -1.0, 0.5, 1e10, -1e10, 1e-7, 1.0e100, -2.5e-8, 0.1, 1e22, 1e23, 123456789.123456789]


def rterm(r, d, vs, names):
    k = r.random()
    if d <= 0 or k < .2:
        if k < .04 and vs:
            return r.choice(vs)
        j = r.random()
        if j < .35 and names:
            return Atom(r.choice(names))
        if j < .6:
            return Atom(r.choice(OPN) if r.random() < .7 else r.choice(G.ATOMS))
        return r.choice(NUMS)
    if k < .3 and vs:
        return r.choice(vs)
    if k < .36:
        return mklist([rterm(r, d - 1, vs, names) for _ in range(r.choice([0, 1, 2, 3]))], NIL if r.random() < .6 else rterm(r, d - 1, vs, names))
    if k < .4:
        return Cmp('{}', [rterm(r, d - 1, vs, names)])
    n = 1 if k < .6 else 2 if k < .95 else 3
    f = r.choice(names) if names and r.random() < .5 else r.choice(FUNS) if r.random() < .7 else r.choice(OPN)
    if f == '$VAR' and n == 1:
        f = 'f'
    return Cmp(f, [rterm(r, d - 1, vs, names) for _ in range(n)])


def chain(r, names):
    """long chains of one operator"""
    f = r.choice(names or ['-', ',', '+', ':', '^', '\\+', 'a', ';'])
    x = Atom(r.choice(['a', '-', 'b']))
    n = r.choice([50, 400])
    t = x
    kind = r.randrange(3)
    for i in range(n):
        t = Cmp(f, [t]) if kind == 0 else Cmp(f, [t, x]) if kind == 1 else Cmp(f, [x, t])
    return t


def oplist(ops):
    return '[' + ','.join(f'op({p},{t},{qatom(n)})' for p, t, n in ops) + ']'


def has_var_functor(t):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is Cmp:
            if x.name in ('$VAR', '$VARNAME') and len(x.args) == 1:
                return True
            st.extend(x.args)
    return False


def how(r, t):
    k = r.random()
    if k < .3:
        return 'wq'
    if k < .4:
        return 'canon'
    if k < .5:
        return 'file(%s)' % r.choice(['writeq', 'write_canonical', 'wt([quoted(true),space_args(true)])'])
    opts = ['quoted(true)']
    for o in ('ignore_ops', 'space_args', 'numbervars', 'namevars', 'portrayed'):
        if r.random() < .25:
            opts.append(f'{o}({r.choice(["true", "false"])})')
    if r.random() < .1:
        opts.append('max_depth(0)')
    if k < .75:
        return 'wt([' + ','.join(opts) + '])'
    p = r.choice([1, 199, 200, 201, 399, 400, 499, 500, 699, 700, 899, 900, 999, 1000, 1100, 1199, r.randint(1, 1199)])
    return 'prio(%d,[%s])' % (p, ','.join(opts))


PRE = r"""
ap([]).
ap([op(P,T,N)|L]) :- op(P, T, N), ap(L).
vrt(Ops, Undo, How, T, X) :- ap(Ops), ( catch(rt(How, T, X), E, X = exc(E)) -> true ; X = failed ), ap(Undo).
back(A, r(U, A)) :- catch(read_term_from_atom(A, U, [end_of_term(eof)]), E, U = exc(E)).
rt(wq, T, X) :- writeq_to_atom(A, T), back(A, X).
rt(canon, T, X) :- write_canonical_to_atom(A, T), back(A, X).
rt(wt(O), T, X) :- write_term_to_atom(A, T, O), back(A, X).
rt(prio(P, O), T, X) :- write_term_to_atom(A, T, [priority(P)|O]), op(P, xfy, zinf), atom_concat('0 zinf ', A, B), back(B, r(zinf(0,U), _)), op(0, xfy, zinf), X = r(U, A).
rt(file(W), T, X) :- open('rt.tmp', write, S), wr(W, S, T), write(S, ' .\n'), wr(W, S, f(T)), write(S, '.\n% comment\n'), wr(W, S, T), write(S, ' .'), close(S),
   open('rt.tmp', read, S1), read(S1, U), read(S1, V), read(S1, Z), read(S1, Eof), close(S1), X = r(t(U,V,Z,Eof), file).
wr(writeq, S, T) :- writeq(S, T).
wr(write_canonical, S, T) :- write_canonical(S, T).
wr(wt(O), S, T) :- write_term(S, T, O).
% portray_clause and listing
pc(Cs, Us) :- open('pc.tmp', write, S), ( member(C, Cs), portray_clause(S, C), fail ; true ), close(S), rdall('pc.tmp', Us).
rdall(F, Us) :- open(F, read, S), findall(U, (repeat, read(S, U), ( U == end_of_file -> !, fail ; true )), Us), close(S).
ls(Cs, Us) :- open('ls.tmp', write, S), add(Cs), set_output(S), ( pi(Cs, N, A), listing(N/A), fail ; true ), set_output(user_output), close(S), rdall('ls.tmp', Us),
   ( pi(Cs, N, A), abolish(N/A), fail ; true ).
add([]).
add([C|Cs]) :- assertz(C), add(Cs).
pi([C|_], N, A) :- ( C = (H :- _) -> true ; H = C ), functor(H, N, A).
"""


def c_rt(r):
    ops, undo, names = mkops(r)
    vs = [Var(i) for i in range(3)]
    if r.random() < .02:
        t = chain(r, names)
    else:
        t = rterm(r, r.choice([1, 2, 2, 3, 3, 4]), vs if r.random() < .3 else [], names)
    h = how(r, t)
    if has_var_functor(t):
        h = r.choice(['canon', 'wt([quoted(true)])', 'wt([quoted(true),space_args(true)])'])

    def ex(o):
        if o.state != 'end' or len(o.sols) != 1:
            return 'expected one result'
        x = o.sols[0]
        if type(x) is not Cmp or x.name != 'r':
            return 'writing or reading back raised an error or failed'
        u = x.args[0]
        want = Cmp('t', [t, Cmp('f', [t]), t, Atom('end_of_file')]) if h.startswith('file') else t
        if h.startswith('file'):
            # each clause has its own variables
            if type(u) is not Cmp or not all(same(a, b) for a, b in zip(u.args, want.args)):
                return f'read back as {ts(u)}'
            return None
        if not same(u, t):
            return f'written {x.args[1].name if type(x.args[1]) is Atom else x.args[1]!r} read back as {ts(u)}'
    return Case(f'vrt({oplist(ops)}, {oplist(undo)}, {h}, {text(t)}, X)', 'X', ex, key='rt-' + h.split('(')[0], note=t)


def body_term(r, d, vs):
    k = r.random()
    if d > 0 and k < .55:
        f = r.choice([',', ',', ',', ';', '->', '*->', '\\+'])
        if f == '\\+':
            return Cmp(f, [body_term(r, d - 1, vs)])
        if f in ('->', '*->') and r.random() < .7:
            return Cmp(';', [Cmp(f, [body_term(r, d - 1, vs), body_term(r, d - 1, vs)]), body_term(r, d - 1, vs)])
        return Cmp(f, [body_term(r, d - 1, vs), body_term(r, d - 1, vs)])
    if k < .65:
        return Atom('!')
    if k < .7:
        return r.choice(vs)
    if k < .75:
        return Cmp('call', [body_term(r, d - 1, vs)])
    f = r.choice(['p', 'q', '=', 'is', 'foo', '#=', '<', "it's", '-', 'a b'])
    return Cmp(f, [rterm(r, 2, vs, []) for _ in range(2)]) if r.random() < .8 else Atom(r.choice(['p', 'q', 'nl', 'a b', '[]', '-', ':-']))


def novar(t):
    """no '$VAR'(_) terms: these commands number variables"""
    if type(t) is Cmp:
        if t.name in ('$VAR', '$VARNAME'):
            return Atom('v')
        return Cmp(t.name, [novar(a) for a in t.args])
    return t


def c_clauses(r):
    vs = [Var(i) for i in range(4)]
    lst = r.random() < .5
    nm = r.choice(['zz', 'z z', '=>', 'Zz', '\xe9z', '*+', 'z1'])
    ar = r.choice([0, 1, 2, 2, 3])
    cl = []
    for _ in range(r.choice([1, 2, 4])):
        h = Cmp(nm, [rterm(r, 2, vs, []) for _ in range(ar)]) if ar else Atom(nm)
        if r.random() < .7:
            b = body_term(r, r.choice([0, 1, 2, 3]), vs)
            if b is Atom('true'):
                b = Atom('p')
            cl.append(Cmp(':-', [h, b]))
        elif r.random() < .1 and not lst:
            cl.append(Cmp(r.choice([':-', '?-']), [body_term(r, 2, vs)]))
        elif r.random() < .1 and not lst:
            cl.append(Cmp('-->', [h, body_term(r, 2, vs)]))
        else:
            cl.append(h)
    cl = [novar(c) for c in cl]
    def strip(c):
        return c

    def norm(c):
        """variables as goals are call/1 in the data base"""
        if not lst or type(c) is not Cmp or c.name != ':-':
            return c

        def nb(b):
            if type(b) is Var:
                return Cmp('call', [b])
            if type(b) is Cmp and b.name in (',', ';', '->', '*->') and len(b.args) == 2:
                return Cmp(b.name, [nb(a) for a in b.args])
            return b
        return Cmp(':-', [c.args[0], nb(c.args[1])])

    def flat(c):
        # conjunctions of goals are printed without their grouping
        if type(c) is not Cmp:
            return c
        if c.name == ',' and len(c.args) == 2:
            l = []

            def conj(x):
                if type(x) is Cmp and x.name == ',' and len(x.args) == 2:
                    conj(x.args[0])
                    conj(x.args[1])
                else:
                    l.append(flat(x))
            conj(c)
            t = l.pop()
            while l:
                t = Cmp(',', [l.pop(), t])
            return t
        if c.name in (';', '->', '*->', ':-', '-->', '?-', '\\+', 'call'):
            return Cmp(c.name, [c.args[0]] * (len(c.args) == 2 and c.name in (':-', '-->')) + [flat(a) for a in (c.args[1:] if c.name in (':-', '-->') and len(c.args) == 2 else c.args)])
        return c

    def ex(o):
        if o.state != 'end' or len(o.sols) != 1:
            return 'expected one result'
        got = o.sols[0]
        try:
            got = unlist(got)
        except ValueError:
            return 'not a list'
        if lst and got and type(got[0]) is Cmp and got[0].name == ':-' and len(got[0].args) == 1:
            got = got[1:]
        if len(got) != len(cl) or not all(same(flat(a), flat(norm(b))) or same(flat(a), flat(b)) for a, b in zip(got, cl)):
            return 'read back ' + ' ; '.join(ts(x) for x in got) + '\nwritten ' + ' ; '.join(ts(x) for x in cl)
    return Case(f"{'ls' if lst else 'pc'}({text(mklist(cl))}, Us)", 'Us', ex, key='listing' if lst else 'portray_clause')


def make(r, n):
    out = []
    while len(out) < n:
        out.append(c_rt(r) if r.random() < .93 else c_clauses(r))
    return out


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c13/{seed}/{mode}/{i}')
    cases = make(r, n)
    m = 'meta' if mode == 'san' else mode
    run_batch(part, SAN if mode == 'san' else SYS, cases, m, PRE, name='rt-' + mode, env={'GLOBALSZ': '200000', 'LOCALSZ': '100000'},
              keyf=lambda c: f'{mode}:{c.key or c.goal[:60]}')
    for c in cases:
        part.count('how ' + c.key)


def body():
    global SYS, SAN
    ck = Check('C13', rule='random terms over operators, brackets, numbers and odd atoms; random operator tables; writeq, write_canonical, write_term with random option sets and priorities, files; '
               'portray_clause and listing of random clauses; the term read back compared with the one written (built from functional notation before the operators change); distinct by goal')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 600, ck.seed) for i in range(ck.n(80, 500)) for m in ('meta', 'meta', 'byte')]
    jobs = [(m, i, n, s) for i, (m, _, n, s) in enumerate(jobs)]
    if SAN:
        jobs += [('san', i, 300, ck.seed) for i in range(20)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
