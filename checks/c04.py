#!/usr/bin/env python3
"""C04: native, byte-code and interpreted execution agree with the source."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.progcase import *
import random

OPTS = ['', '', '', '--no-inline', '--no-reorder', '--no-reg-opt', '--min-reg-opt', '--no-opt-last-subterm', '--keep-void-inst', '--comment', '--no-inline --no-reg-opt']


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c04/{seed}/{mode}/{i}')
    cases, progs, nev = make(r, n, f'q', lambda: r.choice(['comp', 'comp', 'mix']))
    part.count('programs', len(progs))
    part.count('events_compared', nev)
    pre = PRELUDE
    opts = ''
    m = mode
    s = SYS
    if mode == 'native':
        opts = r.choice(OPTS)
        part.count('opts ' + (opts or 'default'))
    elif mode == 'san':
        m, s = 'native', SAN
    elif mode == 'dyn':
        m = 'byte'
        for c in cases:
            if c.pre:
                c.pre = '\n'.join(f":- initialization(assertz(({clause_text(h, b)[:-1]})))." for nm, ar, cls in c.note.preds for h, b in cls)
    elif mode == 'dyndecl':
        m = r.choice(['byte', 'native'])
        for c in cases:
            if c.pre:
                c.pre = ''.join(f":- dynamic({nm}/{ar}).\n" for nm, ar, cls in c.note.preds) + c.pre
    elif mode == 'linked':
        return linked(part, cases, r)
    run_batch(part, s, cases, m, pre, name='prog-' + mode, opts=opts)
    part.count('cases_' + mode, len(cases))


def linked(part, cases, r):
    """predicates spread over several object files, linked in random order"""
    import shutil
    nf = r.choice([2, 3, 4])
    parts = [PRELUDE if k == 0 else '' for k in range(nf)]
    for c in cases:
        if c.pre:
            for nm, ar, cls in c.note.preds:
                k = r.randrange(nf)
                parts[k] += '\n'.join(clause_text(h, b) for h, b in cls) + '\n'
            c.pre = ''
    files = {f'm{k}.pl': parts[k] for k in range(1, nf)}
    # b.pl holds the cases and part 0; the others are compiled separately
    run_batch(part, SYS, cases, 'native', parts[0], name='prog-linked', opts=' '.join(f'm{k}.pl' for k in range(1, nf)), files=files)
    part.count('cases_linked', len(cases))


def body():
    global SYS, SAN
    ck = Check('C04', rule='random programs (terms of any shape in heads/bodies, permanent/temporary/void variables, control, inline built-ins, arithmetic, recursion, assert) '
               'run native under compiler option sets, byte-code, dynamic and split over linked files; the whole event sequence (side effects, solutions, errors) '
               'is compared with a reference engine; distinct by program text, query and mode')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 120, ck.seed) for i in range(ck.n(50, 500)) for m in ('native', 'byte', 'dyn', 'linked', 'native', 'dyndecl')]
    jobs = [(m, i * 2 + (k % 2), n, s) for k, (m, i, n, s) in enumerate(jobs)]
    if SAN:
        jobs += [('san', i, 100, ck.seed) for i in range(60)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
