#!/usr/bin/env python3
"""C36: the top level reports exactly the answers of each query."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import ts
from gpv import run as R, preader as P, optab
from gpv.ptyio import Pty
from gpv.run import Sys
from gpv.terms import *
import random, re, copy, shutil, json

A, C = Atom, Cmp
QN = ['X', 'Y', 'Z', 'A', 'B', 'L', 'Abc', 'X1', 'Foo_bar', 'V9', '_A', '_', '_x', 'C']
ATOMS = ['a', 'b', 'foo', 'X', '_x', 'a b', "it's", '[]', '{}', '+', '-', '', 'é', '\n', '\\', ':-', ',', '|', '!', 'a.b', 'is', 'yes', 'no', 'end', '0', '$VAR', '/*', '%', ';', '=', 'dynamic']
FORM = {'undef': 'existence_error', 'type': 'type_error', 'syn': 'syntax_error', 'inst': 'instantiation_error'}


OPS = {k: dict(v) for k, v in P.DEFOPS.items()}
for (_n, _k), _o in optab.DEF.items():
    if _k in OPS:
        OPS[_k].setdefault(_n, _o)


class Skip(Exception):
    pass


class Ball(Exception):
    def __init__(self, t):
        self.t = t


def gt(r, vs, d=2):
    k = r.random()
    if vs and k < .3:
        return Var(r.choice(vs))
    if k < .5 or d == 0:
        return r.choice([A(r.choice(ATOMS)), A(r.choice(ATOMS)), r.randrange(-20, 100), r.choice([0.5, -1.0, 1e30, 3.25e-9, 100.0])])
    if k < .65:
        return mklist([gt(r, vs, d - 1) for _ in range(r.choice([1, 2, 3]))], NIL if r.random() < .85 or not vs else Var(r.choice(vs)))
    if k < .7:
        return mklist([ord(c) for c in r.choice(['abc', 'x y', ''])])
    if k < .8:
        return C(r.choice(['+', '-', '*', '=', ':-', ',', ';', '->', 'is', '=..', ':', '^', '**', 'mod', '\\=', '#=', '|']), (gt(r, vs, d - 1), gt(r, vs, d - 1)))
    if k < .86:
        return C(r.choice(['-', '\\', '+', '\\+', ':-', '{}', 'dynamic', '#\\', '$VAR', '?-']), (gt(r, vs, d - 1),))
    return C(r.choice(['f', 'g', 'Foo', '[]', 'a b', 'p', '.']), tuple(gt(r, vs, d - 1) for _ in range(r.choice([1, 2, 3, 3, 4]))))


class World:
    def __init__(self):
        self.g = {}
        self.d = []
        self.level = 0
        self.w = 0


def q(t, names=None):
    return text(t, lambda v: str(v.id))


def conj(r, vs, depth, W, n=None):
    out = []
    for _ in range(n or r.choice([1, 1, 2, 2, 3, 4])):
        k = r.random()
        if k < .45:
            out.append(('eq', Var(r.choice(vs)) if vs and r.random() < .85 else gt(r, vs, 1), gt(r, vs, r.choice([0, 1, 2, 3]))))
        elif k < .55:
            W.w += 1
            out.append(('w', W.w, r.random() < .3))
        elif k < .59:
            out.append(('fail',))
        elif k < .63:
            out.append(('true',))
        elif k < .8 and depth > 0:
            out.append(('disj', [conj(r, vs, depth - 1, W) for _ in range(r.choice([2, 2, 3, 4]))]))
        elif k < .83:
            out.append(('throw', gt(r, vs, 2)))
        elif k < .87:
            out.append(('gset', r.choice(['k1', 'k2']), gt(r, [], 2)))
        elif k < .9 and vs:
            out.append(('gget', r.choice(['k1', 'k2']), Var(r.choice(vs))))
        elif k < .94:
            out.append(('assert', gt(r, [], 1)))
        elif k < .97 and vs:
            out.append(('all', Var(r.choice(vs))))
        else:
            out.append((r.choice(['undef', 'type', 'inst']),))
    return out


def itxt(i):
    k = i[0]
    if k == 'eq':
        return f'({q(i[1])}) = ({q(i[2])})'
    if k == 'w':
        return f"write('<w{i[1]}>')" + (', nl' if i[2] else '')
    if k == 'disj':
        return '( ' + ' ; '.join(', '.join(map(itxt, b)) for b in i[1]) + ' )'
    if k == 'throw':
        return f'throw({qarg(i[1])})'
    if k == 'gset':
        return f'g_assign({i[1]}, {qarg(i[2])})'
    if k == 'gget':
        return f'g_read({i[1]}, {q(i[2])})'
    if k == 'assert':
        return f'assertz(d({qarg(i[1])}))'
    if k == 'all':
        return f'findall(V__, d(V__), {q(i[1])})'.replace('V__', '_')if False else f'all_d({q(i[1])})'
    return {'undef': 'no_such_pred(1)', 'type': '1 < a + 1', 'inst': 'atom_length(_, 3)', 'fail': 'fail', 'true': 'true'}[k]


def qarg(t):
    return '(' + q(t) + ')'


def vars_in(items):
    out = []

    def tv(t):
        for v in term_vars(t):
            if v.id not in out:
                out.append(v.id)
    for i in items:
        if i[0] == 'disj':
            for b in i[1]:
                for v in vars_in(b):
                    if v not in out:
                        out.append(v)
        else:
            for x in i[1:]:
                if type(x) in (Var, Cmp):
                    tv(x)
    return out


fresh = [0]


def anon(items):
    """each _ is a variable of its own"""
    def f(t):
        if type(t) is Var:
            if t.id == '_':
                fresh[0] += 1
                return Var(10 ** 6 + fresh[0])
            return t
        if type(t) is Cmp:
            return C(t.name, tuple(f(x) for x in t.args))
        return t
    return [('disj', [anon(b) for b in i[1]]) if i[0] == 'disj' else tuple(f(x) if type(x) in (Var, Cmp) else x for x in i) for i in items]


def solve(items, s, W, alts):
    if not items:
        yield 'sol', s, alts
        return
    i, rest = items[0], items[1:]
    k = i[0]
    if k == 'eq':
        s2 = unify(i[1], i[2], s)
        if s2 == 'cyclic':
            raise Skip
        if s2 is not None:
            yield from solve(rest, s2, W, alts)
    elif k == 'w':
        yield 'w', i[1]
        yield from solve(rest, s, W, alts)
    elif k == 'fail':
        return
    elif k == 'true':
        yield from solve(rest, s, W, alts)
    elif k == 'disj':
        for n, b in enumerate(i[1]):
            yield from solve(b + rest, s, W, alts + (n < len(i[1]) - 1))
    elif k == 'throw':
        t = subst(i[1], s)
        raise Ball(C('error', (A('instantiation_error'), A('?'))) if type(t) is Var else t)
    elif k == 'gset':
        W.g[i[1]] = i[2]
        yield from solve(rest, s, W, alts)
    elif k == 'gget':
        s2 = unify(i[2], W.g.get(i[1], 0), s)
        if s2 is not None:
            yield from solve(rest, s2, W, alts)
    elif k == 'assert':
        W.d.append(i[1])
        yield from solve(rest, s, W, alts)
    elif k == 'all':
        s2 = unify(i[1], mklist(list(W.d)), s)
        if s2 == 'cyclic':
            raise Skip
        if s2 is not None:
            yield from solve(rest, s2, W, alts)
    else:
        raise Ball(C('error', (A(FORM[k]), A('?'))))


def query(r, W):
    """(text, keys, expected tokens) of one query; keys: what is typed at each prompt"""
    names = r.sample([n for n in QN if n != '_'], r.choice([0, 1, 2, 2, 3, 4]))
    if r.random() < .4:
        names.append('_')
    items = conj(r, names, r.choice([0, 1, 2, 2]), W)
    # a throw of an operator-heavy goal etc. is plain text; the query itself must not be a cut or directive
    txt = (r.choice([', ', ',\n   ', ' ,'])).join(map(itxt, items)) + r.choice(['.', ' .'])
    shown = sorted(v for v in vars_in(items) if not v.startswith('_'))
    toks, keys = [], []
    allm = False
    try:
        for e in solve(anon(items), {}, W, 0):
            if e[0] == 'w':
                toks.append(('w', e[1]))
                continue
            _, s, alts = e
            prompt = alts > 0 and not allm
            vals = [subst(Var(n), s) for n in shown]
            if len({v.id for v in vals if type(v) is Var}) < len(vals):
                toks.append(('ans', tuple(subst(Var(n), s) for n in shown), shown, prompt))
            elif alts:
                toks.append(('ans', (), [], prompt))
            if alts == 0:
                toks.append('yes')
                break
            if allm:
                continue
            c = r.choice([';', ';', ';', 'a', '\n', ' '])
            while r.random() < .08:
                keys.append(r.choice(['x', '1', '?', 'q', '.', 'é'[:0] or 'z']))
                toks.append('action')
            keys.append(c)
            if c == '\n':
                toks.append('yes')
                break
            allm = c == 'a'
        else:
            toks.append('no')
    except Ball as b:
        toks.append(('exc', b.t))
    if len(toks) > 60:
        raise Skip
    return txt, keys, toks


def fdquery(r):
    n = r.choice([1, 2])
    doms = []
    g = []
    for v in ['X', 'Y'][:n]:
        l = r.randrange(0, 20)
        u = l + r.randrange(2, 30)
        d = set(range(l, u + 1))
        g.append(f'fd_domain({v}, {l}, {u})')
        for _ in range(r.choice([0, 1, 2])):
            x = r.randrange(l, u + 1)
            d.discard(x)
            g.append(f'{v} #\\= {x}')
        if len(d) < 2:
            raise Skip
        doms.append(sorted(d))
    sh = {'X': Var('d0')}
    if n > 1:
        sh['Y'] = Var('d1')
    if r.random() < .6:
        g.append('Z = f(X, X' + (', Y' if n > 1 else '') + ', _)')
        sh['Z'] = C('f', [Var('d0'), Var('d0')] + ([Var('d1')] if n > 1 else []) + [Var('u')])
    if r.random() < .4:
        g.append('W = X')
        sh['W'] = Var('d0')
    k = sorted(sh)
    return ', '.join(g) + '.', [], [('ans', tuple(sh[x] for x in k), k, False, doms), 'yes']


def session(r, nq):
    """[(text, keys, expected tokens)], exit status"""
    W = World()
    out = [("[user].\n:- dynamic(d/1).\nall_d(L) :- findall(X, d(X), L0), L = L0.\nend_of_file.", [], ['yes'])]
    while len(out) < nq:
        k = r.random()
        if k < .04:
            out.append((r.choice(['foo bar baz.', 'X = .', 'p(.', ') .', 'a b.', 'X = f(a b).']), [], [('exc', C('error', (A('syntax_error'), A('?'))))]))
            continue
        if k < .06:
            out.append((r.choice(['abort.', '( X = 1 ; X = 2 ), abort.', 'catch(abort, _, true).']), [], ['aborted']))
            continue
        if k < .08 and W.level < 3:
            W.level += 1
            out.append(('break.', [], [('brace', f'Break Level {W.level}')]))
            continue
        if k < .11 and W.level:
            W.level -= 1
            out.append(('end_of_file.', [], [('brace', 'End Break'), 'yes']))
            continue
        if k < .13:
            ts_ = [gt(r, [], 1) for _ in range(r.choice([1, 2, 4]))]
            nm = f'uc{len(out)}'
            out.append(('[user].\n' + ''.join(f'{nm}({qarg(t)}).\n' for t in ts_) + 'end_of_file.', [], ['yes']))
            out.append((f'findall(X, {nm}(X), L).', [], [('ans', (mklist(ts_), Var('X')), ['L', 'X'], False), 'yes']))
            continue
        if k < .2:
            try:
                out.append(fdquery(r))
            except Skip:
                pass
            continue
        sv = copy.deepcopy(W.g), list(W.d)
        try:
            out.append(query(r, W))
        except Skip:
            W.g, W.d = sv
    st = r.random()
    if st < .3:
        n = r.choice([0, 1, 7, 255, 128])
        out.append((f'halt({n}).', [], []))
    elif st < .5:
        n = 0
        out.append(('( X = 1 ; X = 2 ), ( X == 2 -> halt ; fail ).', [], []))
    elif st < .6:
        n = 3
        out.append(('catch(halt(3), _, true).', [], []))
    elif st < .8 and not W.level:
        n = 0
        out.append(('end_of_file.', [], ['end']))
    else:
        n = 0
        for _ in range(W.level):
            out.append((None, [], [('brace', 'End Break'), 'yes']))
        out.append((None, [], ['end']))
    return out, n


class Bad(Exception):
    pass


BIND = re.compile(r'([A-Z_][A-Za-z0-9_]*) = (.*?)( \? [;a x1?qz.\x08]{0,4}(?=\n|<w|uncaught|execution|\Z)|\n|\Z|(?=<w\d))')
TOK = [('w', re.compile(r'<w(\d+)>')), ('brace', re.compile(r'\{([^}\n]*)\}')), ('exc', re.compile(r'(uncaught exception|top-level exception): (.*)\n')),
       ('action', re.compile(r'[^\n ]?\n?Action \(; for next solution, a for all solutions, RET to stop\) \? [;a x1?qz.\x08]{0,4}')), ('aborted', re.compile(r'execution aborted\n')),
       ('user', re.compile(r'compiling user for byte code\.\.\.\n(?:.*\n)*?user compiled, .*\n')), ('true', re.compile(r'true( \? [;a x1?qz.\x08]{0,4})?(?=\n|<w|uncaught|execution|\Z)')),
       ('done', re.compile(r'(?:\(\d+ ms\) )?(yes|no)\n')), ('bind', BIND)]


def parse_seg(t):
    """tokens of what one query printed"""
    p, out, nl, cur = 0, [], 0, None
    while p < len(t):
        if t[p] in '\n\r':
            nl += 1
            p += 1
            if nl >= 2:
                cur = None
            continue
        for name, rx in TOK:
            m = rx.match(t, p)
            if m:
                break
        else:
            raise Bad(f'unexpected text {t[p:p + 120]!r}')
        p = m.end()
        nl = 1 if m.group(0).endswith('\n') else 0
        if name == 'bind':
            pr = ' ? ' in m.group(3)
            if cur is None:
                cur = ['ans', [], False]
                out.append(cur)
            cur[1].append((m.group(1), m.group(2)))
            if pr:
                cur[2] = True
                cur = None
            continue
        cur = None
        if name == 'w':
            out.append(('w', int(m.group(1))))
        elif name == 'brace':
            out.append(('brace', m.group(1)))
        elif name == 'exc':
            out.append(('exc', m.group(2), m.group(1)))
        elif name == 'true':
            out.append(['ans', [], bool(m.group(1))])
        elif name == 'done':
            out.append(m.group(1))
        else:
            out.append(name)
    return out


def value(txt, doms):
    """term printed; FD variables become variables with a recorded domain"""
    def f(m):
        n = 'Fd__' + m.group(1)
        doms.setdefault(n, m.group(2))
        if doms[n] != m.group(2):
            raise Bad('two domains for one variable')
        return n
    txt = re.sub(r'_#(\d+)\(([-0-9.:@]+)\)', f, txt)
    rd = P.Reader(txt + ' .', OPS)
    t = rd.read()
    return t, txt


def dom_of(s):
    out = []
    for x in s.split(':'):
        a, _, b = x.partition('..')
        out += range(int(a), int(b or a) + 1)
    return out


def judge_ans(e, g):
    """None or what is wrong between expected answer e and printed g"""
    _, vals, names, prompt = e[:4]
    if g[0] != 'ans':
        return f'{g} instead of an answer'
    if g[2] != prompt:
        return ('offers' if g[2] else 'does not offer') + ' further answers'
    b = dict(g[1])
    if len(b) != len(g[1]) or [x for x, _ in g[1]] != sorted(b):
        return f'variables displayed {[x for x, _ in g[1]]}'
    if set(b) - set(names):
        return f'displays {sorted(set(b) - set(names))}'
    doms, cnt, got = {}, {}, []
    for n in names:
        if n in b:
            try:
                t, tx = value(b[n], doms)
            except P.PSyntax as ex:
                return f'{n} = {b[n]!r} cannot be read: {ex}'
            for v in allvars(t):
                cnt[v] = cnt.get(v, 0) + 1
            got.append(t)
        else:
            got.append(None)

    # reader variables to names; an undisplayed query variable stands for itself
    names_map = {}

    def cv(t):
        if type(t) is Var:
            return t
        return t
    tup = []
    for n, t in zip(names, got):
        tup.append(Var(n) if t is None else t)
    if not same(C('t', tuple(rename(x) for x in tup)) if tup else A('t'), C('t', tuple(rename(x) for x in vals)) if vals else A('t')):
        return f'displayed {g[1]} for {[ts(v) for v in vals]}'
    lone = [v for v, k in cnt.items() if k == 1 and not v.startswith('_') and v not in names and not v.startswith('Fd__')]
    if lone:
        return f'singleton {lone} displayed with a name in {g[1]}'
    if len(e) > 4:
        ids = [f'Fd__{k}' for k in sorted(int(x[4:]) for x in doms)]
        for n, d in zip(['X', 'Y'], e[4]):
            v = got[names.index(n)] if n in names else None
            if v is None or type(v) is not Var or dom_of(doms.get(str(v.id), '0')) != d:
                return f'{n} displayed as {b.get(n)} with domain {d}'
    elif doms:
        return f'constrained variables displayed: {g[1]}'
    return None


def allvars(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if type(x) is Var:
            out.append(str(x.id))
        elif type(x) is Cmp:
            st.extend(x.args)
    return out


def rename(t):
    return t


def judge_seg(exp, seg, mode):
    try:
        got = parse_seg(seg)
    except Bad as b:
        return str(b)
    exp = [e for e in exp if e != 'end']
    if len(got) != len(exp):
        short = [x if isinstance(x, str) else x[:2] for x in got]
        return f'printed {short}, expected {[x if isinstance(x, str) else x[0] for x in exp]}'
    for e, g in zip(exp, got):
        if isinstance(e, str) or isinstance(g, str):
            if e != g:
                return f'{g!r} instead of {e!r}'
        elif e[0] in ('w', 'brace'):
            if tuple(g) != tuple(e):
                return f'{g} instead of {e}'
        elif e[0] == 'exc':
            if g[0] != 'exc':
                return f'{g} instead of exception {ts(e[1])}'
            try:
                t = value(g[1], {})[0]
            except P.PSyntax as ex:
                return f'exception {g[1]!r} cannot be read: {ex}'
            w = e[1]
            if type(w) is Cmp and w.name == 'error' and w.args[-1] == A('?'):
                f = t.args[0] if type(t) is Cmp and t.name == 'error' and len(t.args) == 2 else None
                if (f.name if type(f) in (Cmp, Atom) else None) != w.args[0].name:
                    return f'exception {g[1]!r} instead of {w.args[0].name}'
            elif not same(t, w):
                return f'exception {g[1]!r} instead of {ts(w)}'
        else:
            m = judge_ans(e, g)
            if m:
                return m
    return None


KW = {'\n': '', ';': ';', 'a': 'a', ' ': ' '}


def run_session(part, r, mode, j):
    qs, status = session(r, NQ)
    if mode == 'pty':
        qs = [(t and (t if t.startswith('[user]') else t.replace('\n   ', ' ')), k, e) for t, k, e in qs]
    d = R.scratch('c36')
    try:
        if mode == 'pipe':
            inp = ''
            for t, keys, toks in qs:
                if t is not None:
                    inp += t
                    inp += '\n' if keys or r.random() < .9 or toks[:1] == ['user'] or t.startswith('[user]') else ' '
                    for k in keys:
                        inp += KW.get(k, k) + ('' if k == '\n' or r.random() < .8 else r.choice(['bc', ';;', '  '])) + '\n'
            rr = R.run(['gprolog'], SYS.build, d, inp, 60, env=dict(R.ROOMY, LINEDIT='no'))
            out, rc = rr.out, rr.rc
            if rr.timeout:
                rc = 'timeout'
        else:
            p = Pty(['gprolog'], SYS.build, d, env=dict(R.ROOMY, TERM='xterm'))
            out = ''
            ok = True
            marks = []
            for t, keys, toks in qs:
                if not p.until(lambda o: o.endswith(b'| ?- ')):
                    ok = False
                    break
                p.out = p.out + b'\x00'       # end of the prompt
                if t is None:
                    p.send(b'\x04')
                    continue
                lines = t.split('\n')
                for ln in lines[:-1]:
                    p.send(ln + '\r')
                    if not p.until(lambda o, ln=ln: o.rstrip(b' ').endswith(b'\n'), 10):
                        break
                p.send(lines[-1] + '\r')
                for k in keys:
                    if not p.until(lambda o: o.endswith(b' ? ')):
                        ok = False
                        break
                    p.out += b'\x01'
                    p.send('\r' if k == '\n' else k)
                if not ok:
                    break
            rc = p.close()
            inp = '\n'.join(str(x[0]) for x in qs)
            out = p.out.decode('latin-1').replace('\r\n', '\n')
            # drop the echo of what was typed
            out = re.sub('\x00[^\x00]*?', '\x00', out)
            if not ok:
                rc = 'stuck'
        part.case(f'{mode} session {inp}', sample=j == 0)
        segs = out.split('| ?- ')
        bad = None
        if not segs[0].startswith('GNU Prolog'):
            bad = 'no banner'
        segs = segs[1:]
        level = 0
        for n, (t, keys, toks) in enumerate(qs):
            if n >= len(segs):
                bad = f'session ended at query {n} of {len(qs)}: {t!r}'
                break
            seg = segs[n]
            if mode == 'pty':
                seg = strip_echo(seg, t)
            exp = list(toks)
            for x in toks:
                if isinstance(x, tuple) and x[0] == 'brace':
                    level += 1 if x[1].startswith('Break') else -1
            if level and n < len(qs) - 1:
                exp.append(('brace', str(level)))
            part.count('queries')
            part.count('answers', sum(1 for x in toks if isinstance(x, tuple) and x[0] == 'ans'))
            m = judge_seg(exp, seg, mode)
            if m:
                bad = f'query {t}\nkeys {keys}\n{m}\nprinted {seg!r}'
                break
        if not bad and len(segs) != len(qs):
            bad = f'{len(segs)} prompts for {len(qs)} queries: {segs[-1][-200:]!r}'
        if not bad and rc != status:
            bad = f'exit status {rc} instead of {status}'
        if bad:
            part.violation(f'c36:{mode}', f'{mode}: {bad}', {'input.txt': inp, 'out.txt': out[:20000], 'chunks.json': json.dumps([(t, k) for t, k, e in qs])})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def strip_echo(seg, t):
    """removes what was typed (echoed by the line editor, or by the terminal when typed ahead)"""
    seg = seg.replace('\x00', '')
    if t and not t.startswith('[user]'):
        seg = seg.split('\n', t.count('\n') + 1)[-1]
        t = None
    for ln in (t or '').split('\n'):
        if ln.strip():
            seg = re.sub('(?:' + re.escape(ln) + '\x08*)+ *\n', '', seg)
    return seg.replace('\x01', '')


def cmd_job(part, r):
    """--init-goal/--entry-goal/--query-goal/--consult-file/-q in any order"""
    for j in range(NC):
        d = R.scratch('c36')
        try:
            args, init, cons, entry, quer, rest = [], [], [], [], [], []
            quiet = False
            n = 0
            for _ in range(r.choice([1, 2, 4, 7])):
                n += 1
                k = r.choice(['init', 'entry', 'query', 'consult', 'arg', 'q', 'init', 'entry', 'query'])
                if k == 'arg':
                    x = r.choice(['abc', 'x y', '--foo', '-', '12', '-z', 'X'])
                    args.append(x)
                    rest.append(x)
                elif k == 'q':
                    args.append(r.choice(['-q', '--quiet']))
                    quiet = True
                elif k == 'consult':
                    with open(f'{d}/f{n}.pl', 'w') as f:
                        f.write(f":- initialization(write('<w{n}>')).\npf{n}(a). pf{n}(b).\n")
                    args += ['--consult-file', f'f{n}' + r.choice(['', '.pl'])]
                    cons.append(n)
                else:
                    kind = r.choice(['w', 'w', 'w', 'fail', 'throw', 'cp', 'undef', 'syn'])
                    g = {'w': f"write('<w{n}>')", 'fail': f"write('<w{n}>'), fail", 'throw': f"write('<w{n}>'), throw(b{n})", 'cp': f"( write('<w{n}>') ; write(bad) )", 'undef': f'undef{n}(x)', 'syn': f"write('<w{n}>') x"}[kind]
                    if k == 'query' and kind == 'cp':
                        kind, g = 'w', f"write('<w{n}>')"
                    args += [{'init': r.choice(['--init-goal', '-g']), 'entry': '--entry-goal', 'query': '--query-goal'}[k], g]
                    {'init': init, 'entry': entry, 'query': quer}[k].append((n, kind))
            last = r.random() < .3
            if last:
                args += ['--', '--init-goal', 'halt']
                rest += ['--init-goal', 'halt']
            inp = "argument_list(L), write('<args>'), writeq(L), nl.\n" + ''.join(f'findall(X, pf{c}(X), [a,b]), write(\'<p{c}>\').\n' for c in cons) + r.choice(['', 'halt.\n', 'halt(4).\n'])
            rr = R.run(['gprolog'] + args, SYS.build, d, inp, 30, env=dict(R.ROOMY, LINEDIT='no'))
            out = rr.out
            part.case(f'args {args}', sample=j == 0)
            want = []

            def goal(x, w):
                n, kind = x
                if kind in ('w', 'fail', 'throw', 'cp'):
                    w.append(f'<w{n}>')
                if kind == 'fail':
                    w.append('failed')
                if kind in ('throw', 'undef', 'syn'):
                    w.append('exception')
            for x in init:
                goal(x, want)
            if not quiet:
                want.append('banner')
            for c in cons:
                want.append(f'<w{c}>')
            for x in entry:
                goal(x, want)
            for x in quer:
                want.append('prompt')
                n, kind = x
                if kind in ('w', 'fail', 'throw'):
                    want.append(f'<w{n}>')
                want.append({'w': 'yes', 'fail': 'no', 'throw': 'exception', 'undef': 'exception', 'syn': 'exception'}[kind])
            want += ['prompt', '<args>', 'yes']
            for c in cons:
                want += ['prompt', f'<p{c}>', 'yes']
            want.append('prompt')
            got = []
            o2 = re.sub(r"\| \?- (?:.*<w\d+>'\).*|undef\d+\(x\))\.\n", '| ?- ', out)     # echo of the command-line queries
            for m in re.finditer(r"<[wp]\d+>(?!')|<args>|warning: command-line goal (.*?) (failed|caused exception)|uncaught exception|^(?:\(\d+ ms\) )?(yes|no)$|\| \?- |^GNU Prolog 1|bad", o2, re.M):
                x = m.group(0)
                got.append(m.group(2).split()[-1] if m.group(2) else 'exception' if x.startswith('unc') else m.group(3) if m.group(3) else 'prompt' if x.startswith('|') else 'banner' if x.startswith('GNU') else x)
            m = re.search(r'<args>(\[.*\])', out)
            al = m.group(1) if m else None
            wl = text(mklist([A(x) for x in rest]))
            st = 4 if inp.endswith('(4).\n') else 0
            if got != want or rr.rc != st or al is None or not same(P.term(al), P.term(wl)):
                part.violation('c36:cmd', f'gprolog {args}\ninput {inp!r}\nevents {got}\nexpected {want}\nstatus {rr.rc} expected {st}, arguments {al} expected {wl}\n{out[-1500:]!r}')
                return
        finally:
            shutil.rmtree(d, ignore_errors=True)


def eof_job(part, r):
    """the end of the input at any prompt ends the session instead of looping"""
    for j in range(8):
        d = R.scratch('c36')
        try:
            inp = r.choice(['( X = 1 ; X = 2 ).\n', '( X = 1 ; X = 2 ; X = 3 ).\n;\n', '( true ; true ).\n', '( X = 1 ; X = 2 ).\nz\n', 'break.\n( X = 1 ; X = 2 ).\n', 'X = 1.\n', 'X = [a', "write('abc", '[user].\np(1).\n', 'break.\nbreak.\n'])
            rr = R.run(['gprolog'], SYS.build, d, inp, 20, env=dict(R.ROOMY, LINEDIT=r.choice(['no', 'yes'])))
            part.case(f'end of input {inp}')
            if rr.timeout or rr.rc != 0 or len(rr.out) > 5000:
                part.violation('c36:eof', f'input ending after {inp!r}: status {rr.rc}{" still running" if rr.timeout else ""}, {len(rr.out)} bytes printed\n{rr.out[-300:]}')
                return
        finally:
            shutil.rmtree(d, ignore_errors=True)


NQ, NS, NC = 40, 24, 40


def work(part, arg):
    kind, i, seed = arg
    r = random.Random(f'c36/{seed}/{kind}/{i}')
    if kind == 'cmd':
        return cmd_job(part, r)
    if kind == 'eof':
        return eof_job(part, r)
    for j in range(NS if kind == 'pipe' else max(1, NS // 4)):
        run_session(part, r, kind, j)


def body():
    global SYS, NQ, NS, NC
    ck = Check('C36', rule='random sessions (unifications, disjunctions, output, exceptions, state changes, constrained variables, syntax errors, break/abort, [user]) typed at the top level through a pipe and through a '
               'pseudo terminal with random answer commands: the transcript is parsed back and every answer compared with a reference solver; command-line goals; end of input at every prompt; exit status')
    SYS = Sys('plain')
    if ck.thorough:
        NQ, NS, NC = 80, 120, 200
    jobs = [('pipe', i, ck.seed) for i in range(8)] + [('pty', i, ck.seed) for i in range(4)] + [('cmd', i, ck.seed) for i in range(4)] + [('eof', 0, ck.seed)]
    parallel(ck, work, jobs)
    ck.finish(300)


if __name__ == '__main__':
    main(body)
