"""Batches of independent test goals run in one process, results matched offline.

A Case is one goal with a template; its observation is the sequence of solution events,
an exception event or the end event written by the foreign logger.  A case passes when
its oracle (`expect`, a function of the Outcome) returns None."""
import os, shutil
from . import run as R
from .terms import *


class Outcome:
    """sols: templates in order; exc: ball or None; state: 'end' | 'cut' | 'exc' | 'missing'"""

    def __init__(self, evs):
        self.sols, self.exc, self.state, self.extra = [], None, 'missing', []
        self.raw = evs
        for e in evs:
            if type(e) is Cmp and e.name == 'sol' and len(e.args) == 1:
                self.sols.append(e.args[0])
            elif type(e) is Cmp and e.name == 'exc' and len(e.args) == 1:
                self.exc = e.args[0]
                self.state = 'exc'
            elif e is Atom('end'):
                if self.state == 'missing':
                    self.state = 'end'
            elif e is Atom('cut'):
                self.state = 'cut'
            else:
                self.extra.append(e)

    @property
    def formal(self):
        """formal part of error(F,_)"""
        e = self.exc
        if type(e) is Cmp and e.name == 'error' and len(e.args) == 2:
            return e.args[0]
        return None

    @property
    def context(self):
        e = self.exc
        if type(e) is Cmp and e.name == 'error' and len(e.args) == 2:
            return e.args[1]
        return None

    def __repr__(self):
        s = ' '.join(ts(x) for x in self.sols[:6])
        return '{%s%s sols:%d %s%s}' % (self.state, ' ' + ts(self.exc) if self.exc is not None else '', len(self.sols), s,
                                        ' ..' if len(self.sols) > 6 else '')


def ts(t, lim=300):
    try:
        s = text(t)
    except Exception:
        s = repr(t)
    return s if len(s) <= lim else s[:lim] + '...'


class Case:
    __slots__ = ('id', 'goal', 'tmpl', 'expect', 'max', 'pre', 'key', 'note')

    def __init__(self, goal, tmpl='true', expect=None, max=None, pre='', key=None, note=None):
        self.goal, self.tmpl, self.expect, self.max, self.pre, self.key, self.note = goal, tmpl, expect, max, pre, key, note
        self.id = None

    def desc(self):
        return self.goal if self.tmpl == 'true' else f'{self.goal}  ->  {self.tmpl}'


def formal_is(*forms):
    """oracle: exception whose formal part is one of forms (Prolog terms)"""
    def f(o):
        if o.state == 'exc' and not o.sols and o.formal is not None and any(same(o.formal, x) for x in forms):
            return None
        return 'expected error ' + ' or '.join(ts(x) for x in forms)
    return f


def sols_are(sols):
    """oracle: exactly these solutions (as variants), in order, then end"""
    def f(o):
        if o.state != 'end' or len(o.sols) != len(sols) or not all(same(a, b) for a, b in zip(o.sols, sols)):
            return 'expected solutions [' + ' ; '.join(ts(x) for x in sols[:8]) + ']%d' % len(sols)
        return None
    return f


PRE = ''':- initialization(main).
main :- argument_list(L), '$vstart'(L, S), '$vrun'(S).
'$vstart'([A|_], S) :- catch(number_atom(S, A), _, fail), integer(S), !.
'$vstart'(_, 0).
'$vrun'(S) :- '$vcase'(I), I >= S, '$vgo'(I), fail.
'$vrun'(_) :- vlogs(-1, done).
'''


def program(cases, mode, prelude='', disc=True):
    """source text of a batch for mode 'native' or 'byte'"""
    out = [prelude]
    if mode == 'native':
        out.append(PRE)
    else:
        out.append(PRE.split('\n', 2)[2])
    for c in cases:
        out.append(f"'$vcase'({c.id}).\n")
    out2, out3 = [], []
    for c in cases:
        if c.pre:
            out3.append(c.pre + '\n')
        mx = f', {c.max}' if c.max else ''
        out2.append(f"'$vgo'({c.id}) :- vcase({c.id}, T__, '$c{c.id}'(T__){mx}).\n")
        out3.append(f"'$c{c.id}'({c.tmpl}) :- {c.goal}.\n")
    return ''.join(out + out2 + out3)


def data(cases):
    """data file of a batch for mode 'meta'"""
    return ''.join(f"'$vd'({c.id},{c.max or 0},{c.tmpl},({c.goal})).\n" for c in cases)


META = ''''$vmeta'(File, From) :- open(File, read, S), repeat, read_term(S, T, []),
  ( T == end_of_file -> !, close(S), vlogs(-1, done)
  ; T = '$vd'(I, M, Tm, G), I >= From, ( M =:= 0 -> vcase(I, Tm, G) ; vcase(I, Tm, G, M) ), fail ).
'''


def run_batch(part, sys_, cases, mode, prelude='', name='b', timeout=60, opts='', env=None, meta_pre='', max_restarts=6,
              keyf=None, keep=False, files=None, mem=None):
    """Runs the cases in the given mode and records verdicts in part. Returns {id: Outcome}."""
    for i, c in enumerate(cases):
        c.id = i
    d = R.scratch(name)
    for nm, content in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, nm)), exist_ok=True)
        with open(os.path.join(d, nm), 'wb') as f:
            f.write(content if isinstance(content, bytes) else content.encode('latin-1'))
    outs = {}
    try:
        src = os.path.join(d, 'b.pl')
        if mode == 'meta':
            txt = prelude + meta_pre + ''.join(c.pre + '\n' for c in cases if c.pre) + META
            dtxt = data(cases)
            with open(os.path.join(d, 'b.dat'), 'w', encoding='latin-1') as f:
                f.write(dtxt)
        else:
            txt = program(cases, mode, prelude)
        with open(src, 'w', encoding='latin-1') as f:
            f.write(txt)
        if mode == 'native':
            r = sys_.compile(d, ['b.pl'], 'prog', opts)
            if r.rc != 0 or not os.path.exists(os.path.join(d, 'prog')):
                if r.timeout:
                    r = sys_.compile(d, ['b.pl'], 'prog', opts, timeout=300)
                if r.rc != 0:
                    part.violation(f'{name}:{mode}:rejected', f'gplc rejected a valid workload rc={r.rc} timeout={r.timeout}\n'
                                   + (r.out + r.err)[-2000:], {'b.pl': txt})
                    return outs
        start = 0
        restarts = 0
        retried = False
        while True:
            log = os.path.join(d, 'log')
            if mode == 'native':
                r = R.run([os.path.join(d, 'prog'), str(start)], sys_.build, d, '', timeout, env=env, log=log, mem=mem)
            elif mode == 'byte':
                r = sys_.consult_run(d, ['b.pl'], f"'$vrun'({start})", timeout, log, env=env, mem=mem)
            else:
                r = sys_.consult_run(d, ['b.pl'], f"'$vmeta'('b.dat',{start})", timeout, log, env=env, mem=mem)
            by = R.by_case(r.events)
            done = -1 in by
            by.pop(-1, None)
            if done:
                for k, v in by.items():
                    outs[k] = Outcome(v)
                if r.sanitizer:
                    part.violation(f'{name}:{mode}:sanitizer', san_report(r), {'b.pl': txt})
                break
            # died or hung in the last case seen
            last = max(by) if by else None
            for k, v in by.items():
                if k != last:
                    outs[k] = Outcome(v)
            if r.timeout and not retried:
                retried = True
                start = last if last is not None else start
                timeout = timeout * 2
                continue
            why = 'hang' if r.timeout else 'died'
            if last is None:
                part.violation(f'{name}:{mode}:{why}:start', f'rc={r.rc}; no case was run\n' + san_report(r), {'b.pl': txt})
                break
            c = cases[last]
            part.violation((keyf(c) if keyf else c.key) or f'{name}:{mode}:{why}:{c.goal[:80]}',
                           f'{why} rc={r.rc} in case: {c.pre} {c.desc()}\n' + san_report(r),
                           {'b.pl': txt, 'case.txt': c.desc()})
            outs[last] = Outcome(by[last])
            restarts += 1
            start = last + 1
            if r.timeout or restarts > max_restarts or start >= len(cases):
                break
        skip = restarts > 0
        for c in cases:
            o = outs.get(c.id)
            if o is None:
                if not skip and done:
                    part.violation(f'{name}:{mode}:lost', f'case never reported: {c.desc()}', {'b.pl': txt})
                continue
            if o.state == 'missing':
                continue        # reported above
            part.case(mode + ' ' + c.pre + c.desc(), sample=(c.id % 97 == 3))
            if c.expect is None:
                continue
            m = c.expect(o)
            if m:
                part.violation((keyf(c) if keyf else c.key) or f'{name}:{mode}:{c.goal[:100]}',
                               f'mode {mode}: {c.pre} {c.desc()}\nobserved {o!r}\n{m}',
                               {'case.pl': c.pre + '\n:- ' + c.goal + '.\n', 'b.pl': txt} if mode != 'meta' else
                               {'case.pl': c.pre + '\n:- ' + c.goal + '.\n'})
        return outs
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def san_report(r):
    e = r.err
    i = e.find('runtime error:')
    j = e.find('AddressSanitizer')
    k = min([x for x in (i, j) if x >= 0], default=-1)
    if k >= 0:
        return e[max(0, k - 300):k + 2500]
    return ('stdout: ' + r.out[-700:] + '\nstderr: ' + e[-1200:])
