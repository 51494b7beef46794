#!/usr/bin/env python3
"""C23: consult/reload/include/link: the loaded program is the one the sources denote."""
import sys, os, re, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv import run as R
from gpv.run import Sys
from gpv.terms import *
from gpv.batch import ts as ts0

A, C = Atom, Cmp
V = Var(0)
MONO = [(f'p{i}', 1) for i in range(4)] + [('p0', 2), ('d0', 1), ('d1', 1), ('g0', 2), ('g1', 2)]
MULT = [('m0', 1), ('m1', 1), ('md', 1)]
RN = {f'{n}/{a}' for n, a in MONO}
PREDS = MONO + MULT
def ts(t):
    return re.sub(r'\|_G\d+', '', ts0(t, 100000))


PROPS = ['dynamic', 'static', 'public', 'private', 'monofile', 'multifile', 'user', 'built_in', 'control_construct']

PRE = r'''
snap(K, PIs) :- snap1(PIs, K).
snap1([], _).
snap1([N/A|L], K) :- functor(H, N, A), arg(1, H, X),
    catch(findall(X, call(H), Xs), E, Xs = exc(E)),
    findall(P, predicate_property(H, P), Ps),
    ( current_predicate(N/A) -> C = y ; C = n ),
    vlog(K, s(N/A, Xs, Ps, C)), snap1(L, K).
'''


class Unit:
    """what one compilation of a file denotes"""
    def __init__(self):
        self.preds = {}       # pi -> dict(dyn, multi, pub, cl=[value lists], file, line)
        self.order = []
        self.inits = []       # (file line, kind, payload)
        self.sys = []         # system directives in order
        self.msgs = []
        self.fatal = False
        self.errors = 0

    def p(self, pi):
        if pi not in self.preds:
            self.preds[pi] = dict(dyn=False, multi=False, pub=False, disc=False, cl=[], where=None)
            self.order.append(pi)
        return self.preds[pi]


class Comp:
    """model of reading a source: items are python tuples, each rendered on known lines"""
    def __init__(self, st, files, path):
        self.ops = set(st['ops'])
        self.dq = st['dq']
        self.files = files
        self.u = Unit()
        self.texp = list(st.get('texp', []))
        self.own = []
        self.te = False
        self.cur = None
        self.path = path

    def msg(self, f, l, t):
        m = (f, str(l), t)
        if m not in self.u.msgs:
            self.u.msgs.append(m)

    def run(self):
        try:
            self.file(self.path)
        except StopIteration:
            self.u.fatal = True
        return self.u

    def fatal(self, f, l, t):
        self.msg(f, l, 'fatal error: ' + t)
        raise StopIteration

    def file(self, name):
        stack = []    # [active_before, taken, active]
        act = True
        line = 1
        for it in self.files[name]:
            txt, nl = it[0], it[0].count('\n')
            # lead: comment lines before the item
            lead = it[1]
            l0 = line + lead
            l1 = l0 + (nl - 1) - lead if nl else l0
            line += nl
            loc = str(l0) if l0 == l1 else f'{l0}-{l1}'
            k = it[2]
            if k == 'none':
                continue
            if k == 'if':
                stack.append([act, False, None])
                if act:
                    v = self.cond(name, loc, it[3])
                    stack[-1][1] = v
                    act = v
                continue
            if k == 'elif':
                t = stack[-1]
                if t[0] and not t[1]:
                    v = self.cond(name, loc, it[3], 'elif')
                    t[1] = v
                    act = v
                else:
                    act = False
                continue
            if k == 'else':
                t = stack[-1]
                act = t[0] and not t[1]
                t[1] = True
                continue
            if k == 'endif':
                act = stack.pop()[0]
                continue
            if k == 'syn':
                self.u.errors += 1
                self.msg(name, loc, 'syntax error')
                continue
            if k == 'opsyn' and '<=>' not in self.ops:
                self.u.errors += 1
                self.msg(name, loc, 'syntax error')
                continue
            if not act:
                continue
            self.item(name, l0, loc, it)

    def cond(self, f, loc, c, w='if'):
        if c == 'true':
            return True
        if c == 'false':
            return False
        if c == 'op':
            return '<=>' in self.ops
        if c[0] == 'dq':
            return self.dq == c[1]
        if c[0] == 'exc':
            self.msg(f, loc, w + ' directive raised exception: ' + c[1])
            return False

    def clause(self, f, l, loc, pi, vals, top=True):
        p = self.u.preds.get(pi)
        new = p is None or (p['where'] is None)
        if not new and self.cur != pi and not p['disc']:
            self.msg(f, loc, f'warning: discontiguous predicate {pi[0]}/{pi[1]} - clause ignored')
            self.cur = None
            return
        p = self.u.p(pi)
        if p['where'] is None:
            p['where'] = (f, l)
        self.cur = pi
        p['cl'].append(vals)

    def decl(self, f, l, loc, k, pis):
        for pi in pis:
            p = self.u.preds.get(pi)
            if p and p[{'dynamic': 'dyn', 'multifile': 'multi', 'public': 'pub', 'discontiguous': 'disc'}[k]]:
                continue
            if p and p['where'] is not None:
                self.msg(f, loc, f'warning: directive occurs after definition of {pi[0]}/{pi[1]} - directive ignored')
                continue
            p = self.u.p(pi)
            if k in ('dynamic', 'multifile'):
                p.setdefault('decl', (f, l))
            if k == 'dynamic':
                p['dyn'] = p['pub'] = True
            elif k == 'multifile':
                p['multi'] = True
            elif k == 'public':
                p['pub'] = True
            else:
                p['disc'] = True

    def item(self, f, l, loc, it):
        k = it[2]
        u = self.u
        if k in ('clause', 'opsyn'):
            _, _, _, pi, vals, sing = it
            if sing:
                self.msg(f, loc, f'warning: singleton variables [{",".join(sing)}]')
            self.clause(f, l, loc, pi, vals)
        elif k == 'str':
            s = it[4]
            v = A(s) if self.dq == 'atom' else mklist([ord(c) for c in s]) if self.dq == 'codes' else mklist([A(c) for c in s])
            self.clause(f, l, loc, it[3], [v])
        elif k == 'decl':
            self.decl(f, l, loc, it[3], it[4])
        elif k == 'texp':
            pi = ('term_expansion', 2)
            self.cur = pi
            self.texp.append(it[3:])
            self.own.append(it[3:])
            # the expansion predicate is a local definition, not part of the program
        elif k == 'exp':
            fn, x = it[3], it[4]
            for n, mk in self.texp:
                if n == fn:
                    for pi, vals in mk(x):
                        self.clause(f, l, loc, pi, vals)
                    return
            self.clause(f, l, loc, (fn, 1), [x])
        elif k == 'init':
            u.inits.append((f, loc, it[3], it[4]))
        elif k == 'bad':
            self.msg(f, loc, f'warning: invalid directive is ignored: {it[3]}')
        elif k == 'op':
            self.ops.add(it[3])
            u.sys.append(('op', it[3]))
        elif k == 'dq':
            self.dq = it[3]
            u.sys.append(('dq', it[3]))
        elif k == 'badsys':
            self.msg(f, loc, f'warning: directive goal failed ({it[3]}): raised exception {it[4]}')
            u.sys.append(('err', f, loc, it[4]))
        elif k == 'include':
            self.file(it[3])
        elif k == 'fatal':
            self.fatal(f, loc, it[3])


# ------------------------------------------------------------------ generation
class G:
    def __init__(self, r):
        self.r = r
        self.tag = 0
        self.nat = False
        self.te = False

    def t(self):
        self.tag += 1
        return self.tag

    def lay(self):
        r = self.r
        k = r.random()
        if k < 0.75:
            return ''
        return r.choice(['\n', '% c(1).\n', '/* p0(9).\n :- foo. */\n', '\n\n', '   \t\n'])

    def it(self, body, *rest, one=False):
        lead = '' if one else self.lay()
        return (lead + body + '\n', lead.count('\n'), *rest)

    def clause(self, pi, noerr=False):
        r = self.r
        n, a = pi
        x = self.t()
        if n[0] == 'g':
            k = r.random()
            if k < 0.5:
                return self.it(f'{n} --> [{x}].', 'clause', pi, [mklist([x])], [])
            return self.it(f'{n} -->\n  [{x}],\n  [{x}].', 'clause', pi, [mklist([x, x])], [])
        if a == 2:
            return self.it(f'{n}({x}, {r.choice("abc")}).', 'clause', pi, [x], [])
        k = r.random()
        if k < 0.4:
            return self.it(f'{n}({x}).', 'clause', pi, [x], [])
        if k < 0.55:
            return self.it(r.choice([f'{n}(X) :- X = {x}.', f'{n}(X) :-\n\tX is {x - 1} + 1.', f'{n}(X) :- member(X, [{x}]).', f'{n}(X) :- ( fail -> true ; X = {x} ).']), 'clause', pi, [x], [])
        if k < 0.68:
            y = self.t()
            return self.it(r.choice([f'{n}(X) :- ( X = {x} ; X = {y} ).', f'{n}(X) :-\n  (\n  X = {x}\n  ;\n  X = {y}\n  ).', f'{n}(X) :- member(X, [{x},{y}]).']), 'clause', pi, [x, y], [])
        if k < 0.78:
            q, names = r.choice([('_ = 1, Zz = 2', ['Zz']), ('_Y = f(Q, W, Q)', ['W']), ('f(E1, R1) = f(_, _)', ['E1', 'R1']), ('_Y = 1', [])])
            return self.it(f'{n}({x}) :- {q}.', 'clause', pi, [x], names)
        if k < 0.86:
            s = r.choice(['ab', 'a', 'xyz'])
            return self.it(f'{n}("{s}").', 'str', pi, s)
        if k < 0.9 and not noerr:
            return self.it(f'{n}(a{x} <=> b).', 'opsyn', pi, [C('<=>', (A(f'a{x}'), A('b')))], [])
        if k < 0.94:
            return self.it(f"{n}('a.%b{x}''. ').", 'clause', pi, [A(f"a.%b{x}'. ")], [])
        if k < 0.97:
            return self.it(f'{n}(0\'.). % {x}', 'clause', pi, [46], [])
        return self.it(f'{n}(F) :- F = {x}.', 'clause', pi, [x], [])

    def cond(self):
        r = self.r
        return r.choice([('true', 'true'), ('fail', 'false'), ('1 > 2', 'false'), ('atom_length(abc, 3)', 'true'), ('(fail ; true)', 'true'), ('member(2, [1,2])', 'true'), ('\\+ true', 'false'),
                         ('current_op(700, xfx, <=>)', 'op'), ('current_op(_, _, (<=>))', 'op'), ('current_prolog_flag(double_quotes, atom)', ('dq', 'atom')), ('current_prolog_flag(double_quotes, codes)', ('dq', 'codes')),
                         ('throw(oops)', ('exc', 'oops')), ('throw(f(g))', ('exc', 'f(g)')), ('(true, fail)', 'false'), ('(X = 1, X == 1)', 'true')])

    def items(self, preds, depth, n, mode, incs):
        """a list of items over preds; groups of clauses usually contiguous"""
        r = self.r
        out = []
        last = None
        for _ in range(n):
            k = r.random()
            if k < 0.6:
                pi = last if last and r.random() < 0.55 else r.choice(preds)
                for _ in range(r.choice([1, 1, 2, 3]) if r.random() < 0.995 or depth else 600):
                    out.append(self.clause(pi, mode == 'clean'))
                last = pi
            elif k < 0.66:
                x = self.t()
                kind = r.choice(['ok', 'ok', 'ok', 'fail', 'exc', 'nd', 'see'])
                if kind == 'see':
                    pi = r.choice([p for p in preds if p[1] == 1] or [('p0', 1)])
                    g = f'(findall(X, catch({pi[0]}(X), _, fail), L), vlog(0, see({x}, L)))'
                    out.append(self.it(f':- initialization({g}).', 'init', 'see', (x, pi)))
                else:
                    g = {'ok': f'vlog(0, i({x}))', 'fail': f'(vlog(0, i({x})), fail)', 'exc': f'(vlog(0, i({x})), throw(b{x}))', 'nd': f'(member(X, [{x},0]), vlog(0, i(X)))'}[kind]
                    out.append(self.it(f':- initialization({g}).', 'init', kind, x))
            elif k < 0.71:
                x = self.t()
                b = r.choice([f'foo(bar{x})', f'foo{x}', f'write({x})', f'assertz(p0({x}))', f'ensure_loaded(f{x})'])
                if b.startswith('ensure_loaded'):
                    b = f'writeq({x})'
                out.append(self.it(f':- {b}.', 'bad', b))
            elif k < 0.75:
                out.append(self.it(r.choice([':- op(700, xfx, <=>).', ':- op(700, xfx, [<=>]).']), 'op', '<=>'))
            elif k < 0.79:
                v = r.choice(['atom', 'codes', 'chars'])
                out.append(self.it(f':- set_prolog_flag(double_quotes, {v}).', 'dq', v))
            elif k < 0.81:
                g, e = r.choice([('op(1201,xfx,aa)', 'error(domain_error(operator_priority,1201),op/3)'), ('set_prolog_flag(bounded,true1)', 'error(domain_error(flag_value,bounded+true1),set_prolog_flag/2)')])
                out.append(self.it(f':- {g}.', 'badsys', g, e))
            elif k < 0.84:
                pi = r.choice(preds)
                d = r.choice(['dynamic', 'discontiguous', 'public', 'multifile'])
                if d == 'discontiguous' or any(i[2] in ('clause', 'str') and i[3] == pi for i in out):
                    if not (self.nat and pi in MULT) and (d == 'multifile') == (pi in MULT) and not (d == 'dynamic' and pi[0][0] not in 'd') and d != 'public':
                        out.append(self.it(f':- {d}({pi[0]}/{pi[1]}).', 'decl', d, [pi]))
            elif k < 0.9 and depth < 3:
                g, c = self.cond()
                out.append(self.it(f':- if({g}).', 'if', c))
                out += self.items(preds, depth + 1, r.randint(0, 3), mode, incs)
                for _ in range(r.choice([0, 0, 1, 2])):
                    g, c = self.cond()
                    out.append(self.it(f':- elif({g}).', 'elif', c))
                    out += self.items(preds, depth + 1, r.randint(0, 3), mode, incs)
                if r.random() < 0.6:
                    out.append(self.it(':- else.', 'else'))
                    out += self.items(preds, depth + 1, r.randint(0, 3), mode, incs)
                out.append(self.it(':- endif.', 'endif'))
            elif k < 0.93 and incs:
                f = incs[r.randrange(len(incs))]
                out.append(self.it(f":- include('{f}').", 'include', f))
            elif k < 0.96:
                tp = [p for p in preds if p[1] == 1]
                if tp and not self.te and incs is not None:
                    self.te = True
                    js = r.sample(range(3), r.choice([1, 2, 3]))
                    for j in js:
                        pi = r.choice(tp)
                        if j == 0:
                            out.append(self.it(f'term_expansion(ex0(X), {pi[0]}(X)).', 'texp', 'ex0', lambda x, pi=pi: [(pi, [x])]))
                        elif j == 1:
                            p2 = r.choice([pi, r.choice(tp)])
                            out.append(self.it(f'term_expansion(ex1(X), [{pi[0]}(X), {p2[0]}(Y), {pi[0]}(Z)]) :-\n  Y is X + 100000,\n  Z is X + 200000.', 'texp', 'ex1', lambda x, pi=pi, p2=p2: [(pi, [x]), (p2, [x + 100000]), (pi, [x + 200000])]))
                        else:
                            out.append(self.it('term_expansion(ex2(_), []).', 'texp', 'ex2', lambda x: []))
                if self.te:
                    for _ in range(r.randint(1, 3)):
                        x = self.t()
                        fn = f'ex{r.randrange(3)}'
                        out.append(self.it(f'{fn}({x}).', 'exp', fn, x))
            elif mode == 'err' and k < 0.975:
                b = r.choice(['p1(1 2).', 'p1(,).', 'p1([a|b c]).', 'p1(] ).', 'p2 q.'])
                out.append(self.it(b, 'syn', one=True))
            elif mode == 'err' and k < 0.985:
                b, t = r.choice([('X :- true.', 'head is a variable'), ('3 :- true.', 'head is not a callable (3)'), ('append(a, b, c).', None), ('call(x) :- true.', None), (":- include('nofile').", None), (':- endif.', None), (':- else.', None)])
                if t and depth == 0:
                    out.append(self.it(b, 'fatal', t))
        return out

    def inc(self, preds):
        self.te = False
        return self.items(preds, 1, self.r.randint(0, 4), 'clean', None)

    def decls(self, preds, r):
        out = []
        for pi in preds:
            ds = []
            if pi[0][0] == 'd' or pi[0] == 'md':
                if r.random() < 0.9 or pi[0] == 'md':
                    ds.append('dynamic')
            if pi in MULT:
                ds.append('multifile')
            if r.random() < 0.3:
                ds.append('discontiguous')
            if r.random() < 0.2 and not (self.nat and pi in MULT):
                ds.append('public')
            r.shuffle(ds)
            for d in ds:
                out.append(self.it(r.choice([f':- {d}({pi[0]}/{pi[1]}).', f':- {d}([{pi[0]}/{pi[1]}]).']), 'decl', d, [pi]))
        r.shuffle(out)
        # merge some declarations into one directive
        res = []
        for d in out:
            if res and res[-1][3] == d[3] and d[4] != res[-1][4] and r.random() < 0.5 and len(res[-1][4]) < 3:
                pis = res[-1][4] + d[4]
                s = ', '.join(f'{n}/{a}' for n, a in pis)
                res[-1] = self.it(r.choice([f':- {d[3]}(({s})).', f':- {d[3]}([{s}]).', f':- {d[3]}({s}).']), 'decl', d[3], pis)
            else:
                res.append(d)
        return res

    def file(self, preds, n, mode, incs):
        r = self.r
        out = []
        self.te = False
        if r.random() < 0.15:
            out.append(('#!/usr/bin/gprolog --consult-file\n', 0, 'none'))
        out += self.decls(preds, r)
        out += self.items(preds, 0, n, mode, incs)
        return out


def source(items):
    return ''.join(i[0] for i in items)


# ------------------------------------------------------------------ the store
class Store:
    def __init__(self):
        self.db = {}     # pi -> dict(dyn, multi, pub, cl=[(file, vals)], where)

    def load(self, f, u):
        """effects on the store; returns 'redefining' messages"""
        msgs = []
        for pi in u.order:
            n = u.preds[pi]
            if n['where'] is None and not n['dyn'] and not n['multi']:
                continue
            where = n['where'] or n.get('decl')
            o = self.db.get(pi)
            if o and n['multi'] and o['multi']:
                keep = [c for c in o['cl'] if c[0] != f]
                o['cl'] = keep + [(f, v) for v in n['cl']]
                o['dyn'], o['pub'] = n['dyn'], n['pub']
                o['fuzzy'] = True
                continue
            if o and o['file'] != where[0] and o['file'] is not None:
                msgs.append((pi, where, o['where']))
            self.db[pi] = dict(dyn=n['dyn'], multi=n['multi'], pub=n['pub'], cl=[(f, v) for v in n['cl']], where=where, file=where[0])
        return msgs

    def answers(self, pi):
        if pi not in self.db:
            return C('exc', (C('error', (C('existence_error', (A('procedure'), C('/', (A(pi[0]), pi[1])))), A('any'))),))
        return mklist([v for _, vs in self.db[pi]['cl'] for v in vs])


def props(st, pi, path):
    if pi not in st.db:
        return None
    d = st.db[pi]
    s = {'dynamic' if d['dyn'] else 'static', 'public' if d['pub'] else 'private', 'multifile' if d['multi'] else 'monofile', 'user'}
    return s - {'public', 'private'} if d.get('fuzzy') else s


MSG = re.compile(r'^(?:warning: )?(\S+?):(\d+(?:-\d+)?)(?::\d+)?: (.*)$')


def parse_msgs(out, cwd):
    """[(file, loc, text)] of the diagnostics in out, without duplicates, in order"""
    res = []
    run = []
    for line in out.split('\n'):
        line = line.replace('| ?- ', '').strip()
        if line.startswith('In file included'):
            continue
        load = line.startswith('warning: ')
        m = MSG.match(line)
        if not m:
            continue
        f, loc, t = m.groups()
        f = f.replace(cwd + '/', '')
        if 'if directive raised' in t:
            t = t.replace('warning: ', '')
        if t.startswith('syntax error'):
            t = 'syntax error'
        e = (f, loc, t)
        if t == 'previous definition':
            continue
        if load:
            run.append(e)
        elif e not in res:
            res.append(e)
    return res, run


def norm_exc(t):
    """context of an error is not compared"""
    if isinstance(t, Cmp) and t.name == 'exc' and isinstance(t.args[0], Cmp) and t.args[0].name == 'error':
        return C('exc', (C('error', (t.args[0].args[0], A('any'))),))
    return t


def history(part, args):
    seed, tier, i = args
    r = random.Random(f'{seed}/c23/{i}')
    S = SAN if SAN and i % 6 == 0 else SYS
    g = G(r)
    d = R.scratch('c23')
    try:
        os.makedirs(d + '/sub')
        files = {}
        names = ['a.pl', 'b.pl', 'sub/c.pl'][:r.choice([1, 2, 2, 3])]
        incs = ['inc0.pl', 'inc1.pl']
        own = {f: [] for f in names}
        for p in MONO:
            own[r.choice(names)].append(p)
        for p in MULT:
            for f in names:
                if r.random() < 0.6:
                    own[f].append(p)
        share = r.random() < 0.3
        incp = r.sample(MONO, 2)

        def gen(f):
            pr = list(own[f])
            if share:
                pr += r.sample(MONO, 2)
            pr = r.sample(pr, min(len(pr), r.choice([2, 3, 5, 8]))) or [('p0', 1)]
            mode = 'err' if r.random() < 0.35 else 'clean'
            files[f] = g.file(pr, r.choice([2, 5, 10, 20]), mode, incs if '/' not in f else [])
        for f in incs:
            files[f] = g.inc(incp)
        for f in names:
            gen(f)
        steps = []
        st = Store()
        env = {'ops': set(), 'dq': 'codes'}
        exp = []
        stdin = []
        nver = 0
        pis = '[' + ','.join(f'{n}/{a}' for n, a in PREDS) + ']'

        def snap(k):
            stdin.append(f'snap({k}, {pis}).')
            exp.append(('snap', k, {pi: (st.answers(pi), props(st, pi, d), st.db[pi]['where'] if pi in st.db and not st.db[pi].get('fuzzy') and not st.db[pi]['multi'] else None) for pi in PREDS}))
        for k in range(1, r.choice([3, 5, 8])):
            nver += 1
            act = r.random()
            f = r.choice(names)
            if k > 1 and act < 0.35:
                if r.random() < 0.3:
                    files[r.choice(incs)] = g.inc(incp)
                gen(f)
            elif k > 1 and act < 0.5:
                dy = [pi for pi in PREDS if pi in st.db and st.db[pi]['dyn'] and pi[1] == 1]
                for pi in dy[:2]:
                    x = g.t()
                    if r.random() < 0.6 or not st.db[pi]['cl']:
                        z = r.random() < 0.5
                        stdin.append(f'assert{"z" if z else "a"}({pi[0]}({x})).')
                        st.db[pi]['cl'].insert(len(st.db[pi]['cl']) if z else 0, (None, [x]))
                    else:
                        stdin.append(f'retract(({pi[0]}(_) :- _)) -> true.')
                        st.db[pi]['cl'].pop(0)
            vd = f'v{k}'
            for fn, its in files.items():
                os.makedirs(os.path.dirname(f'{d}/{vd}/{fn}'), exist_ok=True)
                open(f'{d}/{vd}/{fn}', 'w').write(source(its))
            how = r.choice(['consult', 'consult', 'consult', 'noext', 'wbc', 'list', 'quiet'])
            co = Comp(env, files, f)
            u = co.run()
            ok = not u.fatal and not u.errors
            stdin.append(f"shell('cp -r {vd}/. .').")
            stdin.append(f"vlog(0, step({k})), write('@@{k}'), nl, flush_output.")
            base = f[:-3]
            if how == 'wbc':
                # the byte-code file is compiled in its own process: operators and flags of the session are not visible
                co = Comp({'ops': set(), 'dq': 'codes'}, files, f)
                u = co.run()
                ok = not u.fatal and not u.errors
                stdin.append(f"(shell('gplc -w -o x.wbc {f} 2>&1') -> vlog(0, rc(true)), load('x.wbc') ; vlog(0, rc(fail))).")
            else:
                call = {'consult': f"consult('{f}')", 'noext': f"consult('{base}')", 'list': f"['{f}']" if r.random() < 0.5 else f"consult(['{base}'])", 'quiet': f"consult('{f}', [quiet])"}[how]
                stdin.append(f"( catch({call}, E, (vlog(0, exc(E)), fail)) -> vlog(0, rc(true)) ; vlog(0, rc(fail)) ).")
            stdin.append(f"write('@@end{k}'), nl, flush_output.")
            red = []
            inits = []
            run = []
            if ok:
                for s in u.sys:
                    if s[0] == 'err':
                        run.append((s[1], s[2], f'system directive caused exception: {s[3]}'))
                red = st.load(f, u)
                if co.own:
                    env['texp'] = co.own
                for s in u.sys:
                    if s[0] == 'op':
                        env['ops'].add(s[1])
                    elif s[0] == 'dq':
                        env['dq'] = s[1]
                for (ff, loc, kind, x) in u.inits:
                    if kind == 'see':
                        a = st.answers(x[1])
                        inits.append(C('see', (x[0], a if not (isinstance(a, Cmp) and a.name == 'exc') else NIL)))
                    else:
                        inits.append(C('i', (x,)))
                        if kind == 'fail':
                            run.append((ff, loc, 'user directive failed'))
                        elif kind == 'exc':
                            run.append((ff, loc, f'user directive caused exception: b{x}'))
            exp.append(('load', k, f, how, ok, u, red, inits, run, source(files[f])))
            snap(k)
        part.case(repr([(e[2], e[3], source(files[e[2]])) for e in exp if e[0] == 'load']), sample=i < 3)
        log = d + '/log'
        open(d + '/pre.pl', 'w').write(PRE)
        res = R.run([f'{S.h}/vgp', '-q'], S.build, d, "consult('pre.pl').\n" + '\n'.join(stdin) + '\nhalt.\n', 60, log=log, env=dict(R.ROOMY, LINEDIT='no'))
        if res.timeout:
            part.inconclusive(f'history {i}: timeout')
            return
        rep = {'session': '\n'.join(stdin), 'out': res.out[-20000:]}
        for k in range(1, nver + 1):
            for fn in files:
                try:
                    rep[f'v{k}_{fn.replace("/", "_")}'] = open(f'{d}/v{k}/{fn}').read()
                except OSError:
                    pass

        def bad(key, det):
            part.violation(key, f'history {i}: {det}', dict(rep))
        if res.rc != 0:
            bad('ended', f'the session ended with status {res.rc} {res.err[-200:]}')
            return
        ev = [(key, e) for key, e in res.events if e is not None]
        groups = {}
        cur = None
        snaps = {}
        for key, e in ev:
            if key == 0 and isinstance(e, Cmp) and e.name == 'step':
                cur = e.args[0]
                groups[cur] = []
            elif key == 0 and cur is not None:
                groups[cur].append(e)
            elif key > 0 and isinstance(e, Cmp) and e.name == 's':
                snaps.setdefault(key, {})[(e.args[0].args[0].name, e.args[0].args[1])] = e.args[1:]
        cwd = os.path.realpath(d)
        for e in exp:
            if e[0] == 'load':
                _, k, f, how, ok, u, red, inits, run, txt = e
                part.count('loads')
                part.count('refused loads' if not ok else 'accepted loads')
                got = groups.get(k)
                if got is None:
                    bad('lost', f'no record of step {k}')
                    return
                rc = [x for x in got if isinstance(x, Cmp) and x.name == 'rc']
                want = C('rc', (A('true' if ok else 'fail'),))
                if [ts(x) for x in rc] != [ts(want)]:
                    bad(f'status {how}', f'step {k} ({how} {f}): expected {"success" if ok else "failure"}, got {[ts(x) for x in got][:4]}')
                    return
                gi = [x for x in got if not (isinstance(x, Cmp) and x.name == 'rc')]
                part.count('initialization goals', len(gi))
                if [ts(x) for x in gi] != [ts(x) for x in inits]:
                    bad('initialization', f'step {k} ({how} {f}): initialization goals left {[ts(x) for x in gi]}, expected {[ts(x) for x in inits]}')
                    return
                m = re.search(rf'@@{k}\n(.*?)@@end{k}\n', res.out, re.S)
                seg = m.group(1) if m else ''
                gm, gr = parse_msgs(seg, cwd)
                em = list(u.msgs)
                em = [(a, b, t) for a, b, t in em]
                part.count('diagnostics', len(em) + len(run))
                if gm != em:
                    extra = [x for x in gm if x not in em][:3]
                    miss = [x for x in em if x not in gm][:3]
                    bad('diagnostics', f'step {k} ({how} {f}): diagnostics differ: unexpected {extra}, missing {miss}' + ('' if extra or miss else ', order') + f'; got {gm[:6]}')
                    return
                gr2 = [x for x in gr if not x[2].startswith('redefining')]
                if gr2 != run:
                    bad('run-time messages', f'step {k} ({how} {f}): messages of directives {gr2[:6]}, expected {run[:6]}')
                    return
                rd = {x[2].split()[-1] for x in gr if x[2].startswith('redefining')} & RN
                xr = {f'{pi[0]}/{pi[1]}' for pi, w, o in red} & RN
                if rd != xr:
                    bad('redefinition', f'step {k} ({how} {f}): redefinition reported for {sorted(rd)}, expected {sorted(xr)}')
                    return
            else:
                _, k, want = e
                got = snaps.get(k, {})
                for pi in PREDS:
                    a, ps, where = want[pi]
                    if pi not in got:
                        bad('lost', f'no snapshot of {pi} after step {k}')
                        return
                    ga, gp, gc = got[pi]
                    part.count('predicates observed')
                    ga = norm_exc(ga)
                    if ts(ga) != ts(a):
                        bad('clauses', f'after step {k}: {pi[0]}/{pi[1]} answers {ts(ga)[:300]}, the sources denote {ts(a)[:300]}')
                        return
                    gl = [ts(x) for x in tolist(gp)]
                    gs = {x for x in gl if x in PROPS}
                    if ps is None:
                        if gl:
                            bad('properties', f'after step {k}: undefined {pi} has properties {gl}')
                            return
                    elif gs != ps and (ps & {'public', 'private'} or gs - {'public', 'private'} != ps):
                        bad('properties', f'after step {k}: {pi[0]}/{pi[1]} has {sorted(gs)}, declared {sorted(ps)}')
                        return
                    if where:
                        pf = [x.args[0].name for x in tolist(gp) if isinstance(x, Cmp) and x.name == 'prolog_file']
                        pl = [x.args[0] for x in tolist(gp) if isinstance(x, Cmp) and x.name == 'prolog_line']
                        if [x.replace(cwd + '/', '') for x in pf] != [where[0]] or pl != [where[1]]:
                            bad('place', f'after step {k}: {pi[0]}/{pi[1]} is placed at {pf}:{pl}, it is defined at {where}')
                            return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def native(part, args):
    """separately compiled and linked: the same sources, one process per file"""
    seed, tier, i = args
    r = random.Random(f'{seed}/c23n/{i}')
    S = SYS
    g = G(r)
    g.nat = True
    d = R.scratch('c23n')
    try:
        os.makedirs(d + '/sub')
        names = ['a.pl', 'b.pl', 'sub/c.pl'][:r.choice([1, 2, 3, 3])]
        own = {f: [] for f in names}
        for p in MONO:
            own[r.choice(names)].append(p)
        for p in MULT:
            for f in names:
                if r.random() < 0.7:
                    own[f].append(p)
        files = {}
        inc = [p for p in own['a.pl'] if p in MONO] or [('p9', 1)]
        for f in ('inc0.pl', 'inc1.pl'):
            files[f] = g.inc(inc)
        for f in names:
            pr = own[f] or [('q' + f[0], 1)]
            files[f] = g.file(pr, r.choice([5, 10, 20, 40]), 'clean', ['inc0.pl', 'inc1.pl'] if f == 'a.pl' else [])
        te = [f for f in names if any(it[2] == 'texp' for it in files[f])][:1]
        files = {f: [it for it in v if f in te or f not in names or it[2] not in ('texp', 'exp')] for f, v in files.items()}
        files = {f: [it for it in v if not (it[2] == 'init' and it[3] == 'see' and it[4][1] in MULT)] for f, v in files.items()}
        for f, v in files.items():
            open(f'{d}/{f}', 'w').write(source(v))
        us = {f: Comp({'ops': set(), 'dq': 'codes'}, files, f).run() for f in names}
        open(d + '/pre.pl', 'w').write(PRE)
        part.case(repr([source(files[f]) for f in names]), sample=i < 2)
        rep = {f.replace('/', '_'): source(v) for f, v in files.items()}

        def bad(key, det):
            part.violation(key, f'project {i}: {det}', dict(rep))
        mode = r.choice(['sep', 'sep', 'one'])
        objs = []
        for f in names + ['pre.pl']:
            o = f[:-3] + '.o'
            opt = r.choice(['', '', '--no-inline', '--no-reorder', '-S --comment' if False else '--no-opt-last-subterm'])
            res = R.run(['bash', '-c', f'gplc {opt} -c -o {o} {f}'], S.build, d, '', 60, env=R.ROOMY)
            if res.rc != 0:
                bad('gplc', f'gplc {opt} -c {f}: status {res.rc}: {(res.out + res.err)[-500:]}')
                return
            objs.append(o)
            if f == 'pre.pl':
                continue
            gm, _ = parse_msgs(res.out + '\n' + res.err, os.path.realpath(d))
            part.count('diagnostics', len(gm))
            if gm != us[f].msgs:
                bad('diagnostics', f'gplc {f}: unexpected {[x for x in gm if x not in us[f].msgs][:3]}, missing {[x for x in us[f].msgs if x not in gm][:3]}')
                return
        r.shuffle(objs)
        res = R.run(['bash', '-c', f"gplc -o prog {' '.join(objs)} {S.h}/vlog.o {S.h}/vlog_c.o"], S.build, d, '', 60, env=R.ROOMY)
        if res.rc != 0:
            bad('link', f'linking {objs}: {(res.out + res.err)[-500:]}')
            return
        pis = '[' + ','.join(f'{n}/{a}' for n, a in PREDS) + ']'
        log = d + '/log'
        res = R.run([d + '/prog', '-q'], S.build, d, f'snap(1, {pis}).\nhalt.\n', 60, log=log, env=dict(R.ROOMY, LINEDIT='no'))
        if res.timeout:
            part.inconclusive(f'project {i}: timeout')
            return
        if res.rc != 0:
            bad('ended', f'status {res.rc} {res.err[-200:]}')
            return
        snap = {}
        inits = []
        for key, e in res.events:
            if e is None:
                continue
            if key == 1:
                snap[(e.args[0].args[0].name, e.args[0].args[1])] = e.args[1:]
            else:
                inits.append(ts(e))
        st = Store()
        for f in names:
            st.load(f, us[f])
        want = []
        runm = {}
        for f in names:
            w = []
            m = [(ff, loc, 'system directive failed') for _, ff, loc, e in [x for x in us[f].sys if x[0] == 'err']]
            for (ff, loc, kind, x) in us[f].inits:
                if kind == 'see':
                    a = st.answers(x[1])
                    w.append(ts(C('see', (x[0], a if not (isinstance(a, Cmp) and a.name == 'exc') else NIL))))
                else:
                    w.append(ts(C('i', (x,))))
                    if kind in ('fail', 'exc'):
                        m.append((ff, loc, 'user directive failed'))
            want.append(w)
            runm[f] = m
        part.count('initialization goals', len(inits))
        if sorted(inits) != sorted(sum(want, [])) or any([x for x in inits if x in w] != w for w in want):
            bad('initialization', f'initialization goals left {inits}, expected an order-preserving mix of {want}')
            return
        _, gr = parse_msgs(res.out + '\n' + res.err, os.path.realpath(d))
        gr = [(a.replace('./', ''), b, t) for a, b, t in gr]
        if sorted(gr) != sorted(sum(runm.values(), [])) or any([x for x in gr if x in w] != w for w in runm.values()):
            bad('run-time messages', f'messages of directives {gr[:6]}, expected {runm}')
            return
        for pi in PREDS:
            if pi not in snap:
                bad('lost', f'no snapshot of {pi}')
                return
            part.count('linked predicates observed')
            ga, gp, gc = snap[pi]
            ga, a = norm_exc(ga), st.answers(pi)
            if pi in MULT and pi in st.db:
                gl = [ts(x) for x in tolist(ga)]
                parts = [[ts(v) for ff, vs in st.db[pi]['cl'] if ff == f for v in vs] for f in names]
                if not ismix(gl, parts):
                    bad('clauses', f'{pi[0]}/{pi[1]} answers {gl}, the files contribute {parts}')
                    return
            elif ts(ga) != ts(a):
                bad('clauses', f'{pi[0]}/{pi[1]} answers {ts(ga)[:300]}, the sources denote {ts(a)[:300]}')
                return
            ps = props(st, pi, d)
            gs = {x for x in [ts(x) for x in tolist(gp)] if x in PROPS}
            if ps is not None and pi in MULT:
                gs, ps = gs - {'public', 'private'}, ps - {'public', 'private'}
            if gs != (ps or set()):
                bad('properties', f'{pi[0]}/{pi[1]} has {sorted(gs)}, declared {sorted(ps or [])}')
                return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ismix(l, parts):
    """l is the concatenation of the parts in some order"""
    parts = [p for p in parts if p]
    if not parts:
        return not l
    return any(l[:len(p)] == p and ismix(l[len(p):], parts[:k] + parts[k + 1:]) for k, p in enumerate(parts))


def work(part, arg):
    (native if arg[0] == 'n' else history)(part, arg[1:])


def tolist(t):
    out = []
    while isinstance(t, Cmp) and t.name == '.' and len(t.args) == 2:
        out.append(t.args[0])
        t = t.args[1]
    return out


def body():
    global SYS, SAN
    ck = Check('C23', rule='each load step of a random project (files, includes, conditions, declarations, expansions, errors, edits and reloads) is judged against a model of what the sources denote')
    n = ck.n(1200, 6000)
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    parallel(ck, work, [('h', ck.seed, ck.tier, i) for i in range(n)] + [('n', ck.seed, ck.tier, i) for i in range(ck.n(240, 1000))])
    ck.finish(100)


if __name__ == '__main__':
    main(body)
