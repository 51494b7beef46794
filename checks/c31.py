#!/usr/bin/env python3
"""C31: name mangling is one-to-one, programs with any predicate names work, the filter decodes what the compiler encodes."""
import sys, os, re, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv import run as R
from gpv.run import Sys
from gpv.batch import Outcome, ts
from gpv.terms import *
from gpv import build as B
import random

LEGAL = re.compile(rb'[A-Za-z_][A-Za-z0-9_]*\Z')
ESCN = {'\a': 'a', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't', '\v': 'v'}


def quote(s):
    """as the filter's --quote prints a name"""
    if re.match(r'[a-z][A-Za-z0-9_]*\Z', s):
        return s
    o = "'"
    for c in s:
        if c in ESCN:
            o += '\\' + ESCN[c]
        elif c in "'\\":
            o += c + c
        elif not 32 <= ord(c) < 127:
            o += '\\x%x\\' % ord(c)
        else:
            o += c
    return o + "'"


def unquote(s):
    """name of a decoded (quoted or plain) atom text, or None"""
    if re.match(r'[a-z][A-Za-z0-9_]*\Z', s):
        return s
    if len(s) < 2 or s[0] != "'" or s[-1] != "'":
        return None
    o, i, e = '', 1, len(s) - 1
    inv = {v: k for k, v in ESCN.items()}
    while i < e:
        c = s[i]
        if c == "'":
            if s[i + 1] != "'":
                return None
            o, i = o + "'", i + 2
        elif c == '\\':
            d = s[i + 1]
            if d == 'x':
                j = s.index('\\', i + 2)
                o, i = o + chr(int(s[i + 2:j], 16)), j + 1
            elif d in '01234567':
                j = s.index('\\', i + 1)
                o, i = o + chr(int(s[i + 1:j], 8)), j + 1
            elif d in inv:
                o, i = o + inv[d], i + 2
            else:
                o, i = o + d, i + 2
        else:
            o, i = o + c, i + 1
    return o


def name(r):
    k = r.random()
    if k < .25:
        return r.choice(['', '[]', '{}', '!', ';', 'foo', 'foo_', '_foo', 'foo__a1', 'a__a1', 'X0_foo__a1', 'X', 'X1_61__a1', 'a_b', 'a__b', '__', '_', '$aux', '$', 'a$b', '0', '9a', 'a1', 'A', 'é', 'foo ', ' foo', 'foo/1', 'foo__a', 'a_', 'ab__a12', '61', '6162', '_$aux', 'foo:bar', 'a.b', 'main2', 'exit', 'printf', 'X2_a__b', 'a_a1', 'a__', '-', '->', 'Ab_c1', 'end', 'rax', 'eax', 'byte'])
    if k < .5:
        return ''.join(r.choice('ab_01AZ') for _ in range(r.randint(1, 6)))
    if k < .6:
        return '_'.join(r.choice(['a', 'b1', '', 'a1', 'X0', 'Z9']) for _ in range(r.randint(1, 4)))
    if k < .8:
        return ''.join(chr(r.randrange(1, 256)) for _ in range(r.randint(1, 5)))
    if k < .93:
        return ''.join(r.choice('ab _$\'\\"/\n\t') for _ in range(r.randint(1, 6)))
    return ''.join(r.choice(['a', '_', 'é', 'Z', '0']) for _ in range(r.choice([20, 60, 100, 200])))


def indic(r, mod=True):
    m = None
    if mod and r.random() < .4:
        m = name(r) or 'm'
    return m, name(r), r.choice([0, 1, 2, 3, 10, 12, 255, r.randrange(256)])


def qall(s):
    """always quoted, as source text"""
    o = "'"
    for c in s:
        o += "''" if c == "'" else '\\\\' if c == '\\' else c if 32 <= ord(c) < 127 else ('\\' + ESCN[c]) if c in ESCN and hash(c) % 2 else '\\x%x\\' % ord(c)
    return o + "'"


def filt(args, data=b''):
    src = os.path.join(SYS.build, 'src', 'TopComp')
    p = subprocess.run([f'{src}/gplc-filter', *args], input=data, capture_output=True, timeout=60, env=B.env_for(SYS.build))
    return p.returncode, p.stdout, p.stderr


def show(m, p, a, q=quote):
    return (q(m) + ':' if m else '') + q(p) + f'/{a}'


def encode_all(part, inds):
    """symbols of the indicators by the filter, {indicator: symbol}"""
    lines = [show(m, p, a, qall) for m, p, a in inds]
    rc, out, err = filt(['--encode'], ('\n'.join(lines) + '\n').encode('latin-1'))
    got = out.decode('latin-1').split('\n')[:-1]
    if rc != 0 or len(got) != len(lines):
        part.violation('c31:encode', f'rc {rc}: {len(got)} lines for {len(lines)} {err[-300:]}')
        return {}
    return dict(zip(inds, got))


def tool_job(part, r):
    inds = []
    seen = set()
    while len(inds) < NT:
        x = indic(r)
        if x not in seen and x[1] != '':
            seen.add(x)
            inds.append(x)
    sy = encode_all(part, inds)
    rev = {}
    for x, s in sy.items():
        part.case(f'{x}', sample=False)
        if not LEGAL.match(s.encode('latin-1')):
            part.violation('c31:illegal', f'indicator {x!r}: symbol {s!r} is not a legal identifier')
            return
        if s in rev:
            part.violation('c31:collision', f'{x!r} and {rev[s]!r} both give {s}')
            return
        rev[s] = x
    for p, a in [('', 0), ('', 3)]:
        rev['X1___a%d' % a] = (None, p, a)
        sy[(None, p, a)] = 'X1___a%d' % a
    # decoding, alone and embedded in text
    syms = list(sy.items())
    other = ['foo', 'bar_1', '123', '--', '()', "it's", '0x1f', 'call', '\t', '  ', '%rax', '$4', 'X', 'XY', 'X9_foo__a1', 'X0foo__a1', 'aX0_foo__a1', '9X0_foo__a1', 'X0__foo__a1', 'X0_foo', 'X0_foo__a', 'X0_foo__a1x', 'X0_foo__a2000', 'X8_a__a1', 'x0_foo__a1', '\xe9t\xe9', '', ',', '.', 'undefined reference to', 'X0_foo__b1', 'X1_6__a1', 'X1_6G__a1', 'X0_']
    for k in range(NT // 20):
        line, want, wantnq = '', '', ''
        for _ in range(r.randint(1, 12)):
            if r.random() < .5:
                x, s = r.choice(syms)
                pre = r.choice(['', '', '_'])
                line += pre + s
                want += show(*x)
                wantnq += show(*x, q=lambda z: z)
            else:
                o = r.choice(other)
                line, want, wantnq = line + o, want + o, wantnq + o
            sep = r.choice([' ', '  ', ', ', "'", '`', ')', ':', '+', '\t', '(', '.', ';', '@'])
            line, want, wantnq = line + sep, want + sep, wantnq + sep
        if len(line) > 3900:
            continue
        mode = r.choice(['q', 'q', 'nq', 'pf', 'cmd'])
        args = {'q': [], 'nq': ['--no-quote'], 'pf': [], 'cmd': []}[mode]
        data = (line + '\n').encode('latin-1')
        rc, out, err = filt(args, data)
        w = (wantnq if mode == 'nq' else want) + '\n'
        part.case(line)
        if rc != 0 or out.decode('latin-1') != w:
            part.violation('c31:decode', f'rc {rc} options {args}\ninput   {line!r}\noutput  {out.decode("latin-1")!r}\nexpected {w!r}\n{err[-500:]}')
            return
    part.count('symbols', len(sy))


def long_job(part, r):
    """long names and long lines: the decoded text is complete"""
    for k in range(40):
        n = r.choice([100, 400, 511, 512, 513, 900, 1000, 1023, 1024, 1500, 2000])
        ch = r.choice(['\x01', 'a', ' ', '\xe9', "'"])
        p = ch * n
        s = 'X1_' + ''.join('%02X' % ord(c) for c in p) + '__a2'
        if r.random() < .3 and len(s) < 1900:
            s = s + ' ' + s
            w = show(None, p, 2) + ' ' + show(None, p, 2)
        else:
            w = show(None, p, 2)
        if r.random() < .3:
            u = r.randint(300, 700)
            s, w = ' '.join(['X1_01__a0'] * (u // 3)), ' '.join(["'\\x1\\'/0"] * (u // 3))
        rc, out, err = filt([], (s + '\n').encode())
        part.case(f'long {ch!r} {n} {len(s)}')
        if rc != 0 or out.decode('latin-1') != w + '\n':
            part.violation('c31:long', f'rc {rc}: name of {n} characters {ch!r}, line of {len(s)}: output {out[:80]!r}.. ({len(out)} bytes) expected {len(w) + 1}\n{err[-300:]}')
            return
        if n > 900:
            continue
        t = ' '.join([quote(p) + '/2'] if r.random() < .5 else ['a/1'] * 900)
        w = ' '.join(['X0_a__a1'] * 900) if t[0] == 'a' and '/' in t[:3] else None
        rc, out, err = filt(['--encode'], (t + '\n').encode('latin-1'))
        if rc != 0 or w is not None and out.decode() != w + '\n' or w is None and not re.match(rb'X[0-9]_[A-Za-z0-9_]*\n$', out):
            part.violation('c31:longenc', f'rc {rc}: encoding {t[:60]!r}.. ({len(t)}): {out[:60]!r} ({len(out)} bytes) {err[-300:]}')
            return


def nm(path):
    p = subprocess.run(['nm', path], capture_output=True, timeout=60)
    return p.stdout


def prog_job(part, r, j):
    """a program whose predicates have hostile names: compile, link, call each, read its symbols"""
    preds = {}
    n = r.choice([30, 60, 100])
    builtin = {'!', ';', ',', '->', '[]', '{}', '*->', '|', '-', '$aux', '='}
    while len(preds) < n:
        _, p, a = indic(r, False)
        if p in builtin or p in ('main', 'c', 'n') or p in ('exit', 'printf', ':-', '-->', '\\+', 'call', 'end') and a < 9 or len(p) == 2 and not p.isalnum() and a in (1, 2):
            continue
        if a == 2 and p in ('is', '<', '>') or len(p) == 1 and not p.isalnum() and a <= 3:
            continue
        if (p, a) not in preds:
            preds[p, a] = len(preds)
    # near collisions
    for base in list(preds)[:6]:
        for p2, a2 in [(base[0] + '_', base[1]), (base[0] + '__a1', base[1]), (base[0], (base[1] + 1) % 256), (base[0].upper(), base[1]), ('X0_' + base[0], base[1])]:
            if p2 and max(map(ord, p2)) < 256 and (p2, a2) not in preds and p2 not in builtin and len(p2) > 2 and p2.isalnum():
                preds[p2, a2] = len(preds)
    two = r.random() < .5
    src = [[], []]
    pub = [[], []]
    for (p, a), i in preds.items():
        f = r.randrange(2) if two else 0
        args = [f'A{k}' for k in range(a)]
        body = r.choice(['', f' :- vlog(0, r({i}))', f' :- ( vlog(0, r({i})) ; fail )', f' :- \\+ \\+ vlog(0, r({i})), !'])
        if not body:
            body = f' :- vlog(0, r({i}))'
        if a:
            body += f', A0 = {i}, A{a - 1} = A0'
        pub[f].append(f":- public(({qall(p)})/{a}).\n")
        src[f].append(f"{qall(p) + '(' + ', '.join(args) + ')' if a else '(' + qall(p) + ')'}{body}.\n")
    calls = ''
    for (p, a), i in preds.items():
        direct = r.random() < .6
        t = qall(p) + ('(' + ', '.join(['X'] + ['_'] * (a - 2) + (['Y'] if a > 1 else [])) + ')' if a else '')
        t = t if a else '(' + t + ')'
        call = t if direct else f'G = {t}, call(G)'
        chk = f', X == {i}' + (', Y == X' if a > 1 else '') if a else ''
        calls += f'c({i}) :- {call}{chk}.\n'
    main = ':- initialization(main).\nmain :- c(I), I == I, fail.\nmain :- n(I), ( catch(c(I), E, (vlog(1, e(I,E)), fail)) -> true ; vlog(1, f(I)) ), fail.\nmain :- vlog(2, done).\n' \
        .replace('main :- c(I), I == I, fail.\n', '') + ''.join(f'n({i}).\n' for i in preds.values()) + calls
    d = R.scratch('c31')
    try:
        mode = r.choice(['native', 'native', 'byte'])
        if mode == 'byte':
            main = main.split('\n', 1)[1]
        with open(d + '/a.pl', 'w', encoding='latin-1') as f:
            f.write(''.join(pub[0]) + main + ''.join(src[0]))
        files = ['a.pl']
        if two:
            with open(d + '/b.pl', 'w', encoding='latin-1') as f:
                f.write(''.join(pub[1]) + ''.join(src[1]))
            files.append('b.pl')
        sysx = SYS
        if mode == 'byte':
            rr = sysx.consult_run(d, files, 'main', log=d + '/log')
        else:
            rc = sysx.compile(d, files, 'prog')
            if rc.rc != 0:
                part.violation('c31:rejected', f'gplc rejected a program: {rc.out[-1500:]}{rc.err[-500:]}', {'a.pl': open(d + '/a.pl', encoding='latin-1').read()})
                return
            rr = R.run([d + '/prog'], sysx.build, d, '', 60, log=d + '/log')
        by = R.by_case(rr.events)
        part.case(f'{mode} program {j} {sorted(preds)[:5]}', sample=j < 2)
        part.count('predicates', len(preds))
        ran = [e.args[0] for e in by.get(0, [])]
        bad = [ts(e) for e in by.get(1, [])]
        inv = {i: x for x, i in preds.items()}
        if bad or 2 not in by or ran != list(preds.values()):
            wrong = [(k, inv.get(x)) for k, x in zip(preds, ran) if preds[k] != x][:3]
            part.violation('c31:wrong-predicate', f'{mode} {files}: {bad[:4]} ran {len(ran)} of {len(preds)}, called/ran {wrong} {rr.err[-400:]}', {f: open(f'{d}/{f}', encoding='latin-1').read() for f in files})
            return
        if mode == 'byte':
            return
        # the symbols of the executable decode to exactly the predicates
        out = nm(d + '/prog')
        rc, dec, err = filt([], out)
        rc2, dec2, err = filt(['--aux-father'], out)
        rc3, dec3, err = filt(['--aux-father2'], out)
        names = set()
        for l in dec.decode('latin-1').split('\n'):
            m = re.match(r"[0-9a-f ]{16} [A-Za-z] (.*)/(\d+)$", l)
            if m:
                u = unquote(m.group(1))
                if u is not None:
                    names.add((u, int(m.group(2))))
        miss = [x for x in preds if x not in names]
        if miss:
            part.violation('c31:symbols', f'predicates not found among the decoded symbols of the executable: {miss[:5]!r}', {'a.pl': open(d + '/a.pl', encoding='latin-1').read()})
            return
        # auxiliary predicates decode to their father
        l1, l2, l3 = (x.decode('latin-1').split('\n') for x in (dec, dec2, dec3))
        if not len(l1) == len(l2) == len(l3):
            part.violation('c31:aux', f'{len(l1)} {len(l2)} {len(l3)} lines')
            return
        for a, b, c in zip(l1, l2, l3):
            m = re.match(r"([0-9a-f ]{16} [A-Za-z] )'(.*)'/(\d+)$", a)
            u = unquote("'" + m.group(2) + "'") if m else None
            k = re.match(r"\$(.*)/(\d+)_\$aux(\d+)$", u, re.S) if u else None
            if k and not k.group(1).startswith('$'):
                w = m.group(1) + quote(k.group(1)) + '/' + k.group(2)
                part.count('aux')
                if b != w or c != w + f'(aux {k.group(3)})':
                    part.violation('c31:auxfather', f'{a!r}: --aux-father gives {b!r}, --aux-father2 {c!r}, expected {w!r}')
                    return
            elif a != b or a != c:
                if not (u and '_$aux' in u):
                    part.violation('c31:auxother', f'{a!r} became {b!r} / {c!r}')
                    return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def work(part, arg):
    kind, i, seed = arg
    r = random.Random(f'c31/{seed}/{kind}/{i}')
    if kind == 'tool':
        tool_job(part, r)
    elif kind == 'long':
        long_job(part, r)
    else:
        for j in range(NP):
            prog_job(part, r, j)


NT, NP = 1200, 6


def body():
    global SYS, NT, NP
    ck = Check('C31', rule='random and adversarial indicators (all characters, near collisions, mangled-looking names, modules, arities to 255): the filter must encode them to distinct legal symbols and decode these back, also inside arbitrary text, leaving the rest; '
               'compiled programs with such predicates must run the predicate called; their executables\' symbols must decode to the predicates and their auxiliaries to their fathers')
    SYS = Sys('plain')
    if ck.thorough:
        NT, NP = 3000, 25
    parallel(ck, work, [('tool', i, ck.seed) for i in range(8)] + [('long', i, ck.seed) for i in range(4)] + [('prog', i, ck.seed) for i in range(16)])
    ck.finish(500)


if __name__ == '__main__':
    main(body)
