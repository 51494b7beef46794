#!/usr/bin/env python3
"""C17: streams deliver and record exactly the bytes written."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
import random

PRE = r"""
:- dynamic(sl/2).
:- dynamic(ps/2).
vh(Ops, X) :- retractall(sl(_,_)), retractall(ps(_,_)), rmf(fa), rmf(fb), rmf(fc), hs(Ops, X).
rmf(F) :- catch(unlink(F), _, true).
hs([g(G,T)|_], R) :- catch((G -> R = ok(T) ; R = no), E, (E = error(F,_) -> R = err(F) ; R = err(E))).
hs([_|L], X) :- hs(L, X).
hs([], _) :- set_input(user_input), set_output(user_output), sl(_, S), catch(close(S), _, cc(S)), fail.
cc(S) :- catch(close_input_atom_stream(S), _, catch(close_output_atom_stream(S, _), _, true)).
opn(K, F, M, O) :- open(F, M, S, O), retractall(sl(K, _)), assertz(sl(K, S)).
opi(K, atom, C) :- atom_codes(A, C), open_input_atom_stream(A, S), retractall(sl(K,_)), assertz(sl(K, S)).
opi(K, codes, C) :- open_input_codes_stream(C, S), retractall(sl(K,_)), assertz(sl(K, S)).
opi(K, chars, C) :- atom_codes(A, C), atom_chars(A, L), open_input_chars_stream(L, S), retractall(sl(K,_)), assertz(sl(K, S)).
cli(atom, S) :- close_input_atom_stream(S).
cli(codes, S) :- close_input_codes_stream(S).
cli(chars, S) :- close_input_chars_stream(S).
opo(K, atom) :- open_output_atom_stream(S), retractall(sl(K,_)), assertz(sl(K, S)).
opo(K, codes) :- open_output_codes_stream(S), retractall(sl(K,_)), assertz(sl(K, S)).
opo(K, chars) :- open_output_chars_stream(S), retractall(sl(K,_)), assertz(sl(K, S)).
clo(atom, S, C) :- close_output_atom_stream(S, A), atom_codes(A, C).
clo(codes, S, C) :- close_output_codes_stream(S, C).
clo(chars, S, C) :- close_output_chars_stream(S, L), atom_chars(A, L), atom_codes(A, C).
mkf(F, Bs) :- open(F, write, S, [type(binary)]), mkb(Bs, S), close(S).
mkb([], _).
mkb([B|L], S) :- put_byte(S, B), mkb(L, S).
getn(0, _, []) :- !.
getn(N, S, [C|L]) :- get_code(S, C), ( C == -1 -> L = [] ; N1 is N-1, getn(N1, S, L) ).
getb(0, _, []) :- !.
getb(N, S, [C|L]) :- get_byte(S, C), ( C == -1 -> L = [] ; N1 is N-1, getb(N1, S, L) ).
spos(K, S) :- stream_position(S, P), ground(P), functor(P, '$stream_position', 4), retractall(ps(K, _)), assertz(ps(K, P)).
gpos(K, S) :- ps(K, P), set_stream_position(S, P).
props(S, L) :- findall(P, (member(P, [mode(_), type(_), reposition(_), eof_action(_), buffering(_), file_name(_)]), stream_property(S, P)), L).
als(S, L) :- findall(A, (current_alias(S, A), \+ sub_atom(A, _, _, _, '$')), L0), sort(L0, L).
mirs(S, Ks, L) :- findall(K, (current_mirror(S, M), sl(K, M), member(K, Ks)), L0), sort(L0, L).
"""

A = Atom
perm = lambda a, b, c: ('perm', a, b)
FILES = ['fa', 'fb', 'fc']


def perm_err(op, kind):
    return lambda f: type(f) is Cmp and f.name == 'permission_error' and f.args[0] is A(op) and f.args[1] is A(kind)


def exist_err(f):
    return type(f) is Cmp and f.name == 'existence_error' and f.args[0] is A('stream')


class S:
    def __init__(self, slot):
        self.slot = slot
        self.mode = None
        self.type = 'text'
        self.closed = False
        self.eofact = 'eof_code'
        self.repos = True
        self.buf = 'block'
        self.file = None
        self.data = bytearray()     # contents read, or contents of the file written
        self.pos = 0                # offset of the next character
        self.phys = 0               # offset physically read
        self.ov = {}                # ungot characters differing from the contents
        self.past = False
        self.cc = self.lc = self.lp = 0
        self.nlh = []
        self.nun = 0
        self.used = False
        self.mirrors = []
        self.aliases = set()
        self.const = None
        self.terms = []

    def cnt(self, c):
        self.cc += 1
        if c == 10:
            self.lc += 1
            self.lp = 0
        else:
            self.lp += 1


class World:
    def __init__(self, r):
        self.r = r
        self.files = {}
        self.sl = {}
        self.alias = {}
        self.steps = []
        self.pos = {}
        self.nul = r.random() < .1

    def add(self, goal, tmpl, exp):
        """exp: ('ok', value or predicate) | ('no',) | ('err', predicate)"""
        self.steps.append((goal, tmpl, exp))

    # physical level
    def mirror(self, s, cs, seen=None):
        for m in s.mirrors:
            self.put(m, cs, True)

    def put(self, s, cs, viamirror=False):
        for c in cs:
            if s.const is None:
                if s.pos < len(s.data):
                    s.data[s.pos] = c
                else:
                    s.data.append(c)
                s.pos += 1
            else:
                s.data.append(c)
            s.cnt(c)
            self.mirror(s, [c])
        s.used = True

    def peek(self, s):
        """next code or -1; physical effect"""
        if s.pos in s.ov:
            return s.ov[s.pos]
        if s.pos >= len(s.data):
            return -1
        if s.pos >= s.phys:
            s.phys = s.pos + 1
            self.mirror(s, [s.data[s.pos]])
        return s.data[s.pos]

    def before(self, s):
        """effect of attempting input: False when the end-of-file error applies, 'eof' when the eof value is returned"""
        if s.past:
            if s.eofact == 'error':
                return 'err'
            if s.eofact == 'eof_code':
                return 'eof'
            s.past = False
            if s.repos:
                s.pos = s.phys = 0
                s.cc = s.lc = s.lp = 0
                s.ov = {}
                s.nlh = []
        return None

    def get(self, s):
        c = self.peek(s)
        if c < 0:
            s.past = True
            s.nun = 0
            return c
        s.ov.pop(s.pos, None)
        s.pos += 1
        s.nun += 1
        if c == 10:
            s.nlh.append(s.lp)
            del s.nlh[:-8]
        s.cnt(c)
        return c


PASTERR = perm_err('input', 'past_end_of_stream')


def ref(r, w, s):
    """(setup goal, stream expression, expected culprit ignored)"""
    al = sorted(s.aliases)
    if al and not s.closed and r.random() < .4:
        return 'true', r.choice(al)
    return f'sl({s.slot},S)', 'S'


def chars(r, n, nul=False):
    k = r.random()
    if k < .5:
        pool = [97, 98, 99, 10, 32, 120]
    elif k < .8:
        pool = [97, 10, 9, 233, 255, 128, 39, 92, 37, 13, 126]
    else:
        pool = list(range(0 if nul else 1, 256))
    return [r.choice(pool) for _ in range(n)]


def term_text(r):
    """text made of clauses, with for each the offset after its full stop and its value"""
    out, terms = '', []
    for _ in range(r.randint(1, 6)):
        pre = r.choice(['', '\n', '  ', '% c\n', '\n\n', '/* x\n*/'])
        t, v = r.choice([('foo', A('foo')), ('f(1,a)', Cmp('f', [1, A('a')])), ("'a\\nb'", A('a\nb')), ('[a,\n b]', mklist([A('a'), A('b')])), ('-12', -12), ('a:-b', Cmp(':-', [A('a'), A('b')])),
                         ('"s"', mklist([115])), ('{x}', Cmp('{}', [A('x')])), ("0'a", 97)])
        st = len(out)
        out += pre + t + '.'
        terms.append((st, len(out), v))
        out += r.choice(['\n', ' ', '\n\n', '% e\n'])
    return [ord(c) for c in out], terms


def op_open(w, r, slot):
    s = S(slot)
    f = r.choice(FILES)
    busy_w = [x for x in w.sl.values() if not x.closed and x.file == f and x.mode != 'read']
    busy_r = [x for x in w.sl.values() if not x.closed and x.file == f and x.mode == 'read']
    k = r.random()
    if k < .22 and not w.nul:
        # constant term streams
        kind = r.choice(['atom', 'codes', 'chars'])
        s.const = kind
        s.repos = None
        s.buf = None
        if r.random() < .5:
            cs, s.terms = term_text(r) if r.random() < .3 else (chars(r, r.choice([0, 1, 5, 40])), [])
            s.mode = 'read'
            s.data = bytearray(cs)
            w.add(f'opi({slot},{kind},{lst(cs)})', 'x', ('ok', A('x')))
        else:
            s.mode = 'write'
            w.add(f'opo({slot},{kind})', 'x', ('ok', A('x')))
        w.sl[slot] = s
        return
    mode = r.choice(['read', 'read', 'write', 'append'])
    if mode == 'read' and busy_w or mode != 'read' and (busy_w or busy_r):
        return
    if mode == 'read' and (f not in w.files or r.random() < .4) and not busy_r:
        if f not in w.files and r.random() < .2:
            w.add(f'opn({slot},{f},read,[])', 'x', ('err', lambda e: type(e) is Cmp and e.name == 'existence_error' and e.args[0] is A('source_sink')))
            return
        if r.random() < .3:
            cs, ts_ = term_text(r)
        else:
            cs, ts_ = chars(r, r.choice([0, 1, 2, 5, 20, 60, 60] + ([5000] if r.random() < .15 else [])), w.nul), []
        w.files[f] = (bytearray(cs), ts_)
        w.add(f'mkf({f},{lst(cs)})', 'x', ('ok', A('x')))
    if mode == 'read' and f not in w.files:
        return
    opts = []
    if w.nul or r.random() < .4:
        s.type = 'binary'
        opts.append('type(binary)')
    if r.random() < .3:
        s.eofact = r.choice(['error', 'eof_code', 'reset'])
        opts.append(f'eof_action({s.eofact})')
    if r.random() < .15:
        s.repos = False
        opts.append('reposition(false)')
    if r.random() < .5:
        s.buf = r.choice(['none', 'line', 'block'])
        opts.append(f'buffering({s.buf})')
    if r.random() < .4:
        a = r.choice(['al0', 'al1', 'al2', 'al3', f'sx{slot}'])
        if a in w.alias:
            w.add(f'opn({slot},{f},{mode},[{",".join(opts + [f"alias({a})"])}])', 'x', ('err', perm_err('open', 'source_sink')))
            return
        opts.append(f'alias({a})')
        s.aliases.add(a)
    if r.random() < .15:
        ms = [x for x in w.sl.values() if not x.closed and x.mode != 'read' and x.type == s.type and not x.mirrors]
        if ms:
            m = r.choice(ms)
            if m.aliases:
                opts.append(f'mirror({sorted(m.aliases)[0]})')
                s.mirrors.append(m)
    r.shuffle(opts)
    s.mode = mode
    s.file = f
    if mode == 'read':
        s.data = bytearray(w.files[f][0])
        s.terms = list(w.files[f][1])
    elif mode == 'append':
        s.data = bytearray(w.files.get(f, (b'', []))[0])
        s.pos = len(s.data)
        w.files[f] = (s.data, [])
    else:
        w.files[f] = (s.data, [])
    for a in s.aliases:
        w.alias[a] = s
    w.add(f'opn({slot},{f},{mode},[{",".join(opts)}])', 'x', ('ok', A('x')))
    w.sl[slot] = s


def lst(cs):
    return '[' + ','.join(map(str, cs)) + ']'


def do_close(w, r, s):
    pre, x = ref(r, w, s)
    if s.const:
        if r.random() < .1:
            w.add(f'{pre},close({x})', 'x', ('err', lambda f: type(f) is Cmp and f.name == 'system_error'))
            return
        if s.mode == 'read':
            w.add(f'{pre},cli({s.const},{x})', 'x', ('ok', A('x')))
        else:
            w.add(f'{pre},clo({s.const},{x},L)', 'L', ('ok', mklist(list(s.data))))
    else:
        w.add(f'{pre},close({x}' + r.choice(['', '', ',[]', ',[force(true)]']) + ')', 'x', ('ok', A('x')))
    s.closed = True
    for a in s.aliases:
        w.alias.pop(a, None)
    s.aliases = set()
    for t in w.sl.values():
        if s in t.mirrors:
            t.mirrors.remove(s)
    s.mirrors = []
    if s.file and s.mode != 'read':
        w.files[s.file] = (bytearray(s.data), [])
        w.add(f"vfile({s.file},L)", 'L', ('ok', mklist(list(s.data))))


def rd_ops(w, r, s):
    pre, x = ref(r, w, s)
    bt = s.type == 'binary'
    k = r.random()
    if k < .32:
        # one character
        st = w.before(s)
        peek = r.random() < .4
        cur = r.random() < .1 and not s.const
        form = 'byte' if bt else r.choice(['char', 'code'])
        g = ('peek_' if peek else 'get_') + form
        goal = f'{pre},{g}({x},C)' if not cur else f'{pre},current_input(O),set_input({x}),catch((G={g}(C),G),E,(set_input(O),throw(E))),set_input(O)'
        s.used = True
        if st == 'err':
            w.add(goal, 'C', ('err', PASTERR))
            return
        c = -1 if st == 'eof' else w.peek(s) if peek else w.get(s)
        w.add(goal, 'C', ('ok', (A('end_of_file') if c < 0 else A(chr(c))) if form == 'char' else c))
        return
    if k < .40:
        # several
        n = r.choice([2, 3, 10, 100, 6000] if len(s.data) > 1000 else [2, 3, 8, 30])
        if s.past:
            return
        res = []
        for _ in range(n):
            c = w.get(s)
            res.append(c)
            if c < 0:
                break
        s.used = True
        w.add(f'{pre},{"getb" if bt else "getn"}({n},{x},L)', 'L', ('ok', mklist(res)))
        return
    if k < .52:
        # unget
        if s.past or s.nun <= 0 or s.pos == 0 or len(s.ov) >= 3 or s.phys - s.pos >= 4:
            return
        last = s.data[s.pos - 1]
        c = last
        if r.random() < .4:
            c = r.choice([97, 122, 250])
            if last == 10:
                c = 10
        if c == 10 and not s.nlh:
            return
        if bt:
            goal = f'unget_byte({x},{c})'
        else:
            goal = r.choice([f'unget_code({x},{c})', f'unget_char({x},{qatom(chr(c))})']) if c else f'unget_code({x},{c})'
        s.pos -= 1
        s.nun -= 1
        s.ov[s.pos] = c
        s.cc -= 1
        if c == 10:
            s.lc -= 1
            s.lp = s.nlh.pop()
        else:
            s.lp = max(0, s.lp - 1)
        s.used = True
        w.add(f'{pre},{goal}', 'x', ('ok', A('x')))
        return
    if k < .64:
        counts(w, r, s, pre, x)
        return
    if k < .74:
        if s.repos is None:
            return
        # positions
        key = f'p{s.slot}'
        if r.random() < .5 or key not in w.pos or w.pos[key][0] is not s:
            w.add(f'{pre},spos({key},{x})', 'x', ('ok', A('x')))
            w.pos[key] = (s, s.pos, s.cc, s.lc, s.lp)
        else:
            goal = f'{pre},gpos({key},{x})'
            if not s.repos:
                w.add(goal, 'x', ('err', perm_err('reposition', 'stream')))
                return
            _, s.pos, s.cc, s.lc, s.lp = w.pos[key]
            s.phys = s.pos
            s.ov = {}
            s.past = False
            s.nlh = []
            s.nun = 0
            w.add(goal, 'x', ('ok', A('x')))
        return
    if k < .82:
        if s.repos is None:
            return
        if bt:
            seek(w, r, s, pre, x)
        elif not s.mirrors:
            slc(w, r, s, pre, x)
        return
    if k < .90:
        # end of stream
        if s.eofact == 'reset':
            return
        c = w.peek(s) if not s.past else -1
        e = 'past' if s.past else 'at' if c < 0 else 'not'
        if r.random() < .5:
            w.add(f'{pre},stream_property(X,end_of_stream(E))' if False else f'sl({s.slot},S),stream_property(S,end_of_stream(E))', 'E', ('ok', A(e)))
        else:
            w.add(f'{pre},at_end_of_stream({x})', 'x', ('no',) if e == 'not' else ('ok', A('x')))
        return
    if k < .96 and s.terms and not s.ov and not bt and not s.mirrors and not s.past:
        if s.pos not in {0} | {t[0] for t in s.terms} | {t[1] for t in s.terms}:
            return
        nx = [t for t in s.terms if t[0] >= s.pos]
        if not nx:
            if s.eofact == 'reset':
                return
            while w.get(s) >= 0:
                pass
            w.add(f'{pre},read({x},T)', 'T', ('ok', A('end_of_file')))
            s.used = True
            return
        st, en, v = nx[0]
        while s.pos < en:
            w.get(s)
        s.phys = max(s.phys, min(s.pos + 1, len(s.data)))     # the character after the full stop was peeked
        s.nun = 0
        s.nlh = []
        s.used = True
        w.add(f'{pre},' + r.choice([f'read({x},T)', f'read_term({x},T,[])']), 'T', ('ok', v))
        return
    wrong(w, r, s, pre, x)


def counts(w, r, s, pre, x):
    j = r.randrange(4)
    if j == 0:
        w.add(f'{pre},character_count({x},N)', 'N', ('ok', s.cc))
    elif s.type == 'binary':
        w.add(f'{pre},{r.choice(["line_count", "line_position"])}({x},N)', 'N', ('err', perm_err('access', 'binary_stream')))
    elif j == 1:
        w.add(f'{pre},line_count({x},N)', 'N', ('ok', s.lc))
    elif j == 2:
        w.add(f'{pre},line_position({x},N)', 'N', ('ok', s.lp))
    else:
        w.add(f'{pre},stream_line_column({x},N,M)', 'N-M', ('ok', Cmp('-', [s.lc + 1, s.lp + 1])))


def seek(w, r, s, pre, x):
    wh = r.choice(['bof', 'current', 'eof'])
    n = len(s.data)
    base = {'bof': 0, 'current': s.pos, 'eof': n}[wh]
    to = r.choice([0, n, s.pos, r.randint(0, n), r.randint(0, n), -r.randint(1, 5)])
    goal = f'{pre},seek({x},{wh},{to - base},N)'
    if not s.repos:
        w.add(goal, 'N', ('err', perm_err('reposition', 'stream')))
        return
    if to < 0:
        w.add(goal, 'N', ('any',) if False else ('no',))
        return
    s.pos = s.phys = to
    s.cc = to
    s.ov = {}
    s.past = False
    s.nlh = []
    s.nun = 0
    w.add(goal, 'N', ('ok', to))


def slc(w, r, s, pre, x):
    nl = bytes(s.data).count(b'\n')
    L, C = r.randint(1, nl + 2), r.choice([1, 1, 2, 3, 5, 9])
    goal = f'{pre},set_stream_line_column({x},{L},{C})'
    if not s.repos:
        w.add(goal, 'x', ('err', perm_err('reposition', 'stream')))
        return
    if s.mode != 'read':
        return
    p = lc = lp = 0
    ok = True
    while lc < L - 1:
        if p >= len(s.data):
            ok = False
            break
        if s.data[p] == 10:
            lc += 1
            lp = 0
        else:
            lp += 1
        p += 1
    while ok and lp < C - 1:
        if p >= len(s.data) or s.data[p] == 10:
            ok = False
            break
        p += 1
        lp += 1
    s.nlh = []
    s.nun = 0
    if ok:
        s.pos = s.phys = p
        s.cc, s.lc, s.lp = p, lc, lp
        s.ov = {}
        s.past = False
        w.add(goal, 'x', ('ok', A('x')))
    else:
        w.add(goal, 'x', ('no',))


def wrong(w, r, s, pre, x):
    """operations that are forbidden on this stream"""
    if s.mode == 'read':
        g = r.choice(['put_char(X,a)', 'put_code(X,97)', 'nl(X)', 'write(X,foo)', 'put_byte(X,1)', 'flush_output(X)', 'set_output(X)', 'format(X,"abc",[])', 'writeq(X,a)', 'print(X,a)', 'write_term(X,a,[])',
                      'portray_clause(X,a)'])
        e = perm_err('output', 'stream')
        if r.random() < .4:
            bt = s.type == 'binary'
            g = r.choice(['get_char(X,_)', 'peek_char(X,_)', 'get_code(X,_)', 'peek_code(X,_)', 'unget_char(X,a)', 'unget_code(X,97)', 'read(X,_)', 'read_token(X,_)'] if bt
                         else ['get_byte(X,_)', 'peek_byte(X,_)', 'unget_byte(X,3)'])
            e = perm_err('input', 'binary_stream' if bt else 'text_stream')
    else:
        g = r.choice(['get_char(X,_)', 'peek_char(X,_)', 'get_code(X,_)', 'peek_code(X,_)', 'unget_char(X,a)', 'read(X,_)', 'get_byte(X,_)', 'peek_byte(X,_)', 'at_end_of_stream(X)', 'set_input(X)'])
        e = perm_err('input', 'stream')
        if r.random() < .4:
            bt = s.type == 'binary'
            g = r.choice(['put_char(X,a)', 'nl(X)', 'write(X,foo)', 'put_code(X,97)', 'format(X,"a",[])', 'writeq(X,[1])'] if bt else ['put_byte(X,3)'])
            e = perm_err('output', 'binary_stream' if bt else 'text_stream')
    w.add(f'{pre},{g.replace("X", x)}', 'x', ('err', e))


def wr_ops(w, r, s):
    pre, x = ref(r, w, s)
    bt = s.type == 'binary'
    k = r.random()
    if k < .5:
        if bt:
            cs = chars(r, r.choice([1, 1, 3, 10]), w.nul)
            if r.random() < .1:
                cs = chars(r, r.choice([1000, 5000]), w.nul)
            if len(cs) == 1:
                goal = f'put_byte({x},{cs[0]})'
            else:
                goal = f'mkb({lst(cs)},{x})'
        else:
            j = r.randrange(8)
            if j == 0:
                c = chars(r, 1)
                goal = f'put_char({x},{qatom(chr(c[0]))})'
                cs = c
            elif j == 1:
                cs = chars(r, 1)
                goal = f'put_code({x},{cs[0]})'
            elif j == 2:
                cs = [10]
                goal = f'nl({x})'
            elif j == 3:
                n = r.randint(0, 9)
                cs = [32] * n
                goal = f'format({x},"~*c",[{n},32])'
            elif j == 4:
                t, o = r.choice([("f(X,'A b')", None), ("'A b'", 'A b'), ('[1,2|t]', '[1,2|t]'), ('1+2', '1+2'), ("f('A')", 'f(A)')])
                if o is None:
                    t, o = "'it''s'", "it's"
                cs = [ord(c) for c in o]
                goal = f'write({x},{t})'
            elif j == 5:
                t, o = r.choice([("'A b'", "'A b'"), ('[]', '[]'), ("'\\n'", "'\\n'"), ("f('A',b)", "f('A',b)")])
                cs = [ord(c) for c in o]
                goal = f'writeq({x},{t})'
            elif j == 6:
                cs = [ord(c) for c in 'x=12\ny  z']
                goal = f'format({x},"x=~d~ny~5|z",[12])'
                if s.lp:
                    cs = [ord(c) for c in '12\n']
                    goal = f'format({x},"~d~n",[12])'
                else:
                    cs = [ord(c) for c in 'x=12\ny    z']
            else:
                cs = chars(r, r.choice([2, 20, 20, 900, 5000]) if r.random() < .3 else 12)
                goal = f'write({x},{qatom("".join(map(chr, cs)))})'
            if r.random() < .12:
                goal = f'current_output(O),set_output({x}),{goal.replace("(" + x + ",", "(",1) if "(" + x + "," in goal else "nl"},set_output(O)'
        w.put(s, cs)
        w.add(f'{pre},{goal}', 'x', ('ok', A('x')))
        if s.file and s.buf == 'none':
            w.add(f'vfile({s.file},L)', 'L', ('ok', mklist(list(s.data))))
        elif s.file and s.buf == 'line' and r.random() < .5:
            full = list(s.data)
            last = len(full) - full[::-1].index(10) if 10 in full and s.pos == len(full) else 0
            w.add(f'vfile({s.file},L)', 'L', ('okp', (full, last)) if s.pos == len(full) and s.mode == 'append' or s.pos == len(full) and ('p%d' % s.slot) not in w.pos else ('any',))
        return
    if k < .6:
        if s.const:
            return
        w.add(f'{pre},flush_output({x})', 'x', ('ok', A('x')))
        w.add(f'vfile({s.file},L)', 'L', ('ok', mklist(list(s.data))))
        return
    if k < .75:
        counts(w, r, s, pre, x)
        return
    if k < .87:
        if s.repos is None or s.mode == 'append':
            return
        if bt and r.random() < .5:
            w.pos['p%d' % s.slot] = (None,)
            seek(w, r, s, pre, x)
            return
        key = f'p{s.slot}'
        if r.random() < .5 or key not in w.pos or w.pos[key][0] is not s:
            w.add(f'{pre},spos({key},{x})', 'x', ('ok', A('x')))
            w.pos[key] = (s, s.pos, s.cc, s.lc, s.lp)
        else:
            goal = f'{pre},gpos({key},{x})'
            if not s.repos:
                w.add(goal, 'x', ('err', perm_err('reposition', 'stream')))
                return
            _, s.pos, s.cc, s.lc, s.lp = w.pos[key]
            w.add(goal, 'x', ('ok', A('x')))
        return
    wrong(w, r, s, pre, x)


def misc(w, r):
    ss = [s for s in w.sl.values() if not s.closed]
    k = r.random()
    if k < .2:
        # closed stream terms and free aliases
        cl = [s for s in w.sl.values() if s.closed]
        g = r.choice(['get_char(X,_)', 'put_char(X,a)', 'close(X)', 'flush_output(X)', 'character_count(X,_)', 'peek_byte(X,_)', 'set_input(X)', 'set_output(X)', 'stream_position(X,_)', 'at_end_of_stream(X)',
                      'set_stream_type(X,text)', 'set_stream_eof_action(X,error)', 'set_stream_buffering(X,none)', 'add_stream_alias(X,zz)', 'read(X,_)', 'write(X,a)'])
        if cl and r.random() < .6:
            # the stream number may have been reused by a later open
            s = r.choice(cl)
            if any(not t.closed for t in w.sl.values()):
                return
            w.add(f'sl({s.slot},S),{g.replace("X", "S")}', 'x', ('err', exist_err))
        else:
            free = [a for a in ('al0', 'al1', 'al2', 'al3', 'alx') if a not in w.alias]
            if free:
                w.add(g.replace('X', r.choice(free)), 'x', ('err', exist_err))
        return
    if not ss:
        return
    s = r.choice(ss)
    pre, x = ref(r, w, s)
    if k < .45:
        a = r.choice(['al0', 'al1', 'al2', 'al3', 'al4'])
        if r.random() < .5:
            goal = f'{pre},add_stream_alias({x},{a})'
            if a in w.alias and w.alias[a] is not s:
                w.add(goal, 'x', ('err', perm_err('add_alias', 'source_sink')))
                return
        else:
            goal = f'{pre},set_stream_alias({x},{a})'
            if a in w.alias:
                w.alias[a].aliases.discard(a)
        w.alias[a] = s
        s.aliases.add(a)
        w.add(goal, 'x', ('ok', A('x')))
        return
    if k < .55:
        w.add(f'sl({s.slot},S),als(S,L)', 'L', ('ok', mklist([A(a) for a in sorted(s.aliases)])))
        return
    if k < .75:
        m = r.choice(ss)
        if m.const and s.const:
            return
        mp = f'sl({m.slot},M)'
        if r.random() < .6:
            goal = f'{pre},{mp},add_stream_mirror({x},M)'
            if m.mode == 'read':
                w.add(goal, 'x', ('err', perm_err('output', 'stream')))
                return
            if m.type != s.type and not (s.type == 'text'):
                return

            def reach(a, b):
                return a is b or any(reach(c, b) for c in a.mirrors)
            if not reach(m, s) and m not in s.mirrors:
                s.mirrors.append(m)
            w.add(goal, 'x', ('ok', A('x')))
        elif r.random() < .5:
            goal = f'{pre},{mp},remove_stream_mirror({x},M)'
            if m in s.mirrors:
                s.mirrors.remove(m)
                w.add(goal, 'x', ('ok', A('x')))
            else:
                w.add(goal, 'x', ('no',))
        else:
            w.add(f'sl({s.slot},S),mirs(S,{lst([t.slot for t in ss])},L)', 'L', ('ok', mklist(sorted(t.slot for t in s.mirrors))))
        return
    if k < .9:
        if s.const:
            return
        want = [Cmp('mode', [A(s.mode)]), Cmp('type', [A(s.type)]), Cmp('reposition', [A('true' if s.repos else 'false')])]
        if s.mode == 'read':
            want.append(Cmp('eof_action', [A(s.eofact)]))
        want += [Cmp('buffering', [A(s.buf)]), Cmp('file_name', [A(s.file)])]

        def ok(v, want=want):
            g = unlist(v)
            g = [t for t in g if t.name != 'eof_action' or len(want) == 6]
            return len(g) == len(want) and all(same(a, b) for a, b in zip(g, want))
        w.add(f'sl({s.slot},S),props(S,L)', 'L', ('okf', ok, want))
        return
    if k < .95:
        a = r.choice(['error', 'eof_code', 'reset'])
        if s.mode != 'read':
            w.add(f'{pre},set_stream_eof_action({x},{a})', 'x', ('err', perm_err('modify', 'stream')))
        else:
            s.eofact = a
            w.add(f'{pre},set_stream_eof_action({x},{a})', 'x', ('ok', A('x')))
        return
    if s.const:
        return
    t = r.choice(['text', 'binary'])
    if s.cc > 0 and t != s.type:
        w.add(f'{pre},set_stream_type({x},{t})', 'x', ('err', perm_err('modify', 'stream')))
    elif not s.used and s.cc == 0 and s.pos == (len(s.data) if s.mode == 'append' else 0) and not s.mirrors and not any(s in u.mirrors for u in w.sl.values()):
        pass


def make(r):
    w = World(r)
    n = r.choice([5, 15, 40, 90])
    for _ in range(n):
        k = r.random()
        live = [s for s in w.sl.values() if not s.closed]
        if not live or k < .08:
            slot = r.randrange(4)
            if slot in w.sl and not w.sl[slot].closed:
                continue
            op_open(w, r, slot)
        elif k < .14:
            do_close(w, r, r.choice(live))
        elif k < .26:
            misc(w, r)
        else:
            s = r.choice(live[-2:])
            if s.mode == 'read':
                rd_ops(w, r, s)
            else:
                wr_ops(w, r, s)
    for s in list(w.sl.values()):
        if not s.closed:
            do_close(w, r, s)
    steps = w.steps

    def ex(o):
        if o.state != 'end' or len(o.sols) != len(steps):
            return f'{len(o.sols)} results of {len(steps)}: {trace(steps, len(o.sols))}'
        for i, ((g, t, e), v) in enumerate(zip(steps, o.sols)):
            bad = judge(e, v)
            if bad:
                return f'step {i}: {g} gave {ts(v, 400)}; expected {bad}\nhistory:\n' + trace(steps, i)
        return None
    return Case('vh([' + ','.join(f'g(({g}),{t})' for g, t, _ in steps) + '],X)', 'X', ex), len(steps)


def trace(steps, i):
    return '\n'.join('  ' + (g if len(g) < 300 else g[:300] + '...') for g, _, _ in steps[max(0, i - 60):i + 1])


def judge(e, v):
    if e[0] == 'any':
        return None
    if e[0] == 'no':
        return None if v is A('no') else 'failure'
    if e[0] == 'err':
        return None if type(v) is Cmp and v.name == 'err' and e[1](v.args[0]) else 'an error ' + getattr(e[1], '__qualname__', '')
    if type(v) is not Cmp or v.name != 'ok':
        return 'success'
    if e[0] == 'ok':
        return None if same(v.args[0], e[1]) else ts(e[1], 400)
    if e[0] == 'okf':
        return None if e[1](v.args[0]) else ts(mklist(e[2]))
    full, last = e[1]
    try:
        g = [] if v.args[0] is A('none') else unlist(v.args[0])
    except ValueError:
        return 'list'
    return None if full[:len(g)] == g and len(g) >= last else f'a prefix of at least {last} bytes of {full[:80]}'


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c17/{seed}/{mode}/{i}')
    cases = []
    for _ in range(n):
        c, k = make(r)
        cases.append(c)
        part.count('operations', k)
    run_batch(part, SAN if mode == 'san' else SYS, cases, 'meta' if mode == 'san' else mode, PRE, name='st-' + mode,
              env={'GLOBALSZ': '300000', 'LOCALSZ': '100000'}, keyf=lambda c: f'{mode}:{c.goal[:90]}')


def body():
    global SYS, SAN
    ck = Check('C17', rule='random histories of opens, character, byte, term and position operations, aliases, mirrors, forbidden operations and closes on files and constant-term streams, '
               'every result and every file (read by the harness, not by Prolog) compared with a byte model; distinct by history')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [('meta', i, 40, ck.seed) for i in range(ck.n(240, 3000))]
    if SAN:
        jobs += [('san', i, 40, ck.seed) for i in range(32)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
