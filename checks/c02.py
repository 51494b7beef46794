#!/usr/bin/env python3
"""C02: failure, exceptions and negation leave no trace."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
import random

PRE = """'$nid'(I) :- g_inc('$cnt', I), I < 150.
'$b' :- g_inc('$ops', N), N < 1500.
'$lab'(L) :- '$small'(L, 1), !, fd_labeling(L).
'$lab'(_).
'$sn'(Id, S, Fs) :- '$doms'(Fs, Ds), g_read('$gb0', A), g_read('$gb1', B), g_read('$gr', C), '$lens'(S, Ls), g_read('$vid', I),
  ( Id mod 4 =:= 0, '$small'(Fs, 1) -> findall(Fs, fd_labeling(Fs), P) ; P = none ),
  vlog(I, ep(Id, S, A, B, C, Ds, Ls, P)), fail.
'$sn'(_, _, _).
'$lens'([], []).
'$lens'([X|L], [N|M]) :- ( compound(X) -> functor(X, _, N) ; N = 0 ), '$lens'(L, M).
'$doms'([], []).
'$doms'([F|L], [d(D,A,B,N)|M]) :- ( fd_var(F) -> fd_min(F, A), fd_max(F, B), fd_size(F, N), ( N < 1000 -> fd_dom(F, D) ; D = big ) ; D = F, A = 0, B = 0, N = 0 ), '$doms'(L, M).
'$small'([], N) :- N < 300.
'$small'([F|L], N) :- ( fd_var(F) -> fd_size(F, S), S < 60, M is N * S ; integer(F) -> M = N ), M < 300, '$small'(L, M).
'$p1'(a, b, c). '$p1'(X, X, _). '$p1'(f(X), Y, Y). '$p1'(_, f(_), g(Z,Z)).
'$p8'(a, _, _, _, _, _, _, X, X). '$p8'(_, b, X, X, _, _, _, _, c). '$p8'(f(_), g(_,_), [_|_], X, Y, Z, Z, Y, X).
'$q'(X, Y) :- X = k(Y), ( Y = 1 ; Y = 2 ; throw(q) ).
'$q'(X, _) :- setarg(1, s(X), z), X = last.
'$deep'(0, V) :- !, V = done.
'$deep'(N, V) :- V = f(W), N1 is N - 1, ( N mod 3 =:= 0 -> true ; true ), '$deep'(N1, W).
'$many'(N, L) :- length(L, N), '$fill'(L, 0).
'$fill'([], _).
'$fill'([X|L], N) :- X = N, N1 is N + 1, '$fill'(L, N1).
'$ok'(T) :- acyclic_term(T), '$sz'(T, 3000, _).
'$sz'(T, N, M) :- N > 0, ( compound(T) -> functor(T, _, A), N1 is N - 1, '$sza'(A, T, N1, M) ; M is N - 1 ).
'$sza'(0, _, N, M) :- !, M = N.
'$sza'(A, T, N, M) :- arg(A, T, X), '$sz'(X, N, N1), A1 is A - 1, '$sza'(A1, T, N1, M).
'$safe'(G) :- catch(G, error(_, _), true), !.
'$safe'(_).
"""


class Gen:
    def __init__(self, r):
        self.r = r
        self.nid = 0
        self.v = ['V%d' % i for i in range(r.choice([2, 3, 4, 6]))]
        self.t = ['T%d' % i for i in range(r.choice([1, 1, 2]))]
        self.f = ['F%d' % i for i in range(r.choice([0, 2, 3, 3]))]
        self.tsz = {t: r.choice([1, 2, 3, 8]) for t in self.t}

    def state(self):
        return '[' + ','.join(self.v + self.t + self.f) + '],[' + ','.join(self.f) + ']'

    def term(self, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < .3:
            return r.choice(['a', 'b', '1', '2', '1.5', '[]', 'X%d' % r.randrange(3)])
        if k < .55:
            return r.choice(self.v)
        if k < .6:
            return r.choice(self.t)
        return r.choice(['f(%s)', 'g(%s,%s)', '[%s|%s]', '[%s]', 'k(%s,a,%s)']).replace('%s', '{}').format(self.term(d - 1), self.term(d - 1))

    def fdop(self):
        r = self.r
        if not self.f:
            return 'true'
        f = lambda: r.choice(self.f)
        c = lambda: r.randrange(0, 12)
        k = r.randrange(17)
        if k == 0:
            return f'fd_domain({f()}, {r.randrange(0, 4)}, {r.randrange(3, 14)})'
        if k == 1:
            return f'fd_domain({f()}, {sorted(set(r.randrange(0, 200) for _ in range(r.randrange(1, 7))))})'
        if k == 2:
            return f'{f()} {r.choice(["#>", "#<", "#>=", "#=<", "#" + chr(92) + "=", "#="])} {c()}'
        if k == 3:
            return f'{f()} {r.choice(["#>", "#<", "#>=", "#=<", "#" + chr(92) + "=", "#=", "#=#", "#<#"])} {f()}'
        if k == 4:
            return f'{f()} #= {f()} + {c()}'
        if k == 5:
            return f'{f()} + {f()} #= {c()}'
        if k == 6:
            return f'{f()} * {f()} #=# {c()}'
        if k == 7:
            return f'fd_all_different([{f()},{f()},{f()}])'
        if k == 8:
            return f'({f()} #> {c()} #<=> {f()} #= {f()})'
        if k == 9:
            return f'{f()} = {c()}'
        if k == 10:
            return f'{f()} = {f()}'
        if k == 11:
            return f"'$lab'([{f()},{f()}])" if r.random() < .3 else f'{f()} #\\= {c()}'
        if k == 12:
            return f'fd_element({f()}, [3,1,{c()},7,2], {f()})'
        if k == 13:
            return f'{r.choice(self.v)} #> {c()}'
        if k == 14:
            return f'({f()} #= {c()} #\\/ {f()} #> {c()})'
        if k == 15:
            return f'fd_relation([[1,2],[2,3],[{c()},4]], [{f()},{f()}])'
        return f'fd_max_integer(M__), {f()} #=< 100, {f()} #\\= M__'.replace('M__', 'M%d' % r.randrange(1000))

    def guard(self, g):
        # cyclic terms are not supported by the system: a step that would make one fails instead
        return g + ", '$ok'(t(%s, X0, X1, X2))" % ', '.join(self.v + self.t)

    def op(self):
        return self.op0() if self.r.random() < .4 else "'$b', " + self.op0()

    def op0(self):
        r = self.r
        k = r.random()
        v = lambda: r.choice(self.v)
        if k < .2:
            return self.guard(f'{v()} = {self.term()}' if r.random() < .9 else 'V0 = V1')
        if k < .4:
            t = r.choice(self.t)
            return self.guard(f"'$safe'(setarg({r.randint(1, self.tsz[t])}, {t}, {self.term(1)}))")
        if k < .46:
            # a term built inside: setarg on something newer than the choice point
            return self.guard(f"'$safe'(({v()} = h(Q,R,{self.term(1)}), setarg(2, h(Q,R,c), {self.term(1)})))").replace('Q', 'Q%d' % r.randrange(999)).replace('R,', 'R%d,' % r.randrange(999))
        if k < .56:
            return f"g_assignb('$gb{r.randrange(2)}', {self.term()})"
        if k < .6:
            return f"g_assignb('$gr', {r.choice(['g_array(2)', '5', 'foo(X0)', 'g_array(3,x)', self.term(1)])})"
        if k < .64:
            a = [v(), 'N%d' % r.randrange(99), r.choice(['a', 'c', 'f(b)', 'g(_, c)', '_', '2'])]
            r.shuffle(a)
            return self.guard(f"'$p1'({', '.join(a)})")
        if k < .67:
            a = [r.choice(['_', '_', 'a', 'b', 'c', 'f(1)', 'N%d' % r.randrange(99)]) for _ in range(9)]
            a[r.randrange(9)] = v()
            return self.guard(f"'$p8'({', '.join(a)})")
        if k < .70:
            return self.guard(f"'$q'({v()}, _)")
        if k < .72:
            return f"'$deep'({r.choice([3, 20, 300])}, {v()})"
        if k < .74:
            return f"'$many'({r.choice([2, 50, 500])}, {v()})"
        if k < .77:
            return self.guard(f'member({v()}, [a, {self.term(1)}, {v()}])')
        if k < .78:
            return f'once(({self.op()} ; {self.op()}))'
        if k < .80:
            return f"'$safe'(atom_concat({v()}, {v()}, abc))"
        if k < .82:
            return f"'$safe'(functor({v()}, f, {r.randrange(4)}))"
        if k < .84:
            return r.choice(['fail', 'throw(t)', f'throw({self.term(1)})', 'X9 is foo + 1', 'atom_length(_, _)', '_ is 1 / 0'])
        return self.fdop()

    def seq(self, d, n=None):
        r = self.r
        return ', '.join(self.goal(d) for _ in range(n or r.choice([1, 1, 2, 2, 3, 4])))

    def goal(self, d):
        r = self.r
        k = r.random()
        if d > 0 and k < .3:
            return self.episode(d - 1)
        if d > 0 and k < .45:
            return r.choice([f'({self.seq(d - 1)} ; {self.seq(d - 1)})', f'({self.seq(d - 1)} -> {self.seq(d - 1)} ; {self.seq(d - 1)})',
                             f'({self.seq(d - 1)} *-> {self.seq(d - 1)} ; {self.seq(d - 1)})', f'call(({self.seq(d - 1)}, !, {self.seq(d - 1)}))',
                             f'catch(({self.seq(d - 1)}), _, ({self.seq(d - 1)}))'])
        return self.op()

    def episode(self, d):
        r = self.r
        self.nid += 1
        i = 'I%d' % self.nid
        s = f"'$sn'({i}, {self.state()})"
        g = self.seq(d, r.choice([2, 3, 4, 6]))
        k = r.choice(['fail', 'neg', 'catch', 'findall', 'forall', 'cutfail', 'alts', 'ite', 'nn', 'catchout', 'twice', 'bagof', 'softf', 'countall', 'callcatch'])
        if k == 'fail':
            e = f'({g}, fail ; {s})'
        elif k == 'neg':
            e = f'(\\+ ({g}) -> {s} ; {s})'
        elif k == 'nn':
            e = f'\\+ \\+ ({g} ; true), {s}'
        elif k == 'catch':
            e = f'catch((({g} ; true), throw(bb)), _, true), {s}'
        elif k == 'callcatch':
            e = f'catch((call(({g})), throw(x({self.term(1)}))  ; throw(bb)), _, {s})'
        elif k == 'catchout':
            e = f'catch(catch((({g} ; true), throw(bb({self.term(1)}))), cc, true), _, true), {s}'
        elif k == 'findall':
            e = f"findall(x, ({g}), _), {s}"
            e = f"catch({e.split('), _), ')[0]}), _), _, true), {s}" if False else f"catch(findall(x, ({g}), _), _, true), {s}"
        elif k == 'bagof':
            e = f"(catch(bagof(x, [{','.join(self.v + self.t + self.f)}]^({g}), L__), _, true), fail ; {s})".replace('L__', 'L%d' % r.randrange(9999))
        elif k == 'countall':
            e = f"catch(countall(({g}), _), _, true), {s}"
        elif k == 'forall':
            e = f"(catch(forall(({g}), true), _, true) -> {s} ; {s})"
        elif k == 'cutfail':
            e = f"(call(({g}, !, fail)) ; {s})"
        elif k == 'softf':
            e = f"(({g} *-> fail ; true) ; {s})"
            e = f"(({g}) *-> fail ; {s})"
        elif k == 'twice':
            e = f"({g}, fail ; {self.seq(d)}, fail ; {s})"
        elif k == 'ite':
            e = f"(catch(({g}), _, true) -> fail ; {s}) ; {s}"
            e = '(' + e + ')'
        else:
            e = f'({g} ; {s}, {self.seq(d)} ; {s}, {self.seq(d)})'
        return f"('$nid'({i}) -> {s}, {e} ; true)"

    def case(self):
        while True:
            g = self.case0()
            if len(g) < 2600:
                return g

    def case0(self):
        r = self.r
        init = ["g_assign('$cnt', 0)", "g_assign('$ops', 0)", "g_assign('$gb0', z(_))", "g_assign('$gb1', 0)", f"g_assign('$gr', {r.choice(['g_array(2)', '1'])})"]
        for t in self.t:
            init.append(f"{t} = st({','.join(r.choice(['a', '_', 'V0', 'f(V1)', '7']) for _ in range(self.tsz[t]))})")
        for f in self.f:
            init.append(r.choice([f'fd_domain({f}, 0, {r.choice([3, 8, 20])})', f'fd_domain({f}, 0, 100000)', f'{f} #>= 0, {f} #=< 5000', f'fd_domain({f}, [1,4,9,77,200])', f'{f} #< 2000']))
        pre = ''
        g = ', '.join('(catch((' + (self.goal(2) if r.random() < .4 else self.episode(r.choice([1, 2]))) + '), _, true) ; true)' for _ in range(r.choice([1, 2, 3])))
        top = self.episode(0)
        # an enclosing episode around everything
        s = f"'$sn'(IT, {self.state()})"
        g2 = r.choice([f"'$nid'(IT), {s}, ({g}, fail ; {s})", f"'$nid'(IT), {s}, (\\+ ({g}) ; true), {s}", f"'$nid'(IT), {s}, catch((({g} ; true), throw(o)), _, true), {s}", g, g])
        return ', '.join(init) + ', ' + g2


def expect(o):
    by = {}
    for e in o.extra:
        if e is Atom('$unreadable_event'):
            return 'a snapshot does not end: a cyclic term was made although every step checks for it'
        if type(e) is Cmp and e.name == 'ep':
            by.setdefault(e.args[0], []).append(e)
    for k, l in by.items():
        for e in l[1:]:
            if not same(l[0], e):
                return f'state not restored in episode {k}:\n before {ts(l[0], 900)}\n after  {ts(e, 900)}'
    if o.state == 'exc' and o.formal is not None and type(o.formal) is Cmp and o.formal.name == 'existence_error':
        return 'unexpected error'
    return None


def stats(part, outs):
    ep = cmpd = 0
    for o in outs.values():
        by = {}
        for e in o.extra:
            if type(e) is Cmp and e.name == 'ep':
                by[e.args[0]] = by.get(e.args[0], 0) + 1
        ep += len(by)
        cmpd += sum(n - 1 for n in by.values())
    part.count('episodes', ep)
    part.count('state pairs compared', cmpd)


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c02/{seed}/{mode}/{i}')
    cases = [Case(Gen(r).case(), 'true', expect, max=6) for _ in range(n)]
    outs = run_batch(part, SAN if mode == 'san' else SYS, cases, {'san': 'native'}.get(mode, mode), PRE, name='undo-' + mode, timeout=30,
                     env={'TRAILSZ': '65536', 'GLOBALSZ': '300000', 'LOCALSZ': '65536', 'CSTRSZ': '65536', 'VLOG_MAX': '300000'})
    stats(part, outs)
    part.count('cases_' + mode, len(cases))


def body():
    global SYS, SAN
    ck = Check('C02', rule='random nestings of bindings, backtrackable setarg, backtrackable globals and arrays, FD domain and constraint postings, clause choices, cuts and throws; '
               'a snapshot of terms, globals, domains and (one in four) of the labeled solution set is logged before and after every failed / negated / caught / collected goal and at '
               'every retried alternative and must be identical; distinct by goal and mode')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 100, ck.seed) for i in range(ck.n(24, 240)) for m in ('native', 'byte', 'meta')]
    if SAN:
        jobs += [('san', i, 100, ck.seed) for i in range(30)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
