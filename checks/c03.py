#!/usr/bin/env python3
"""C03: control constructs follow the ISO search order."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), '..', 'lib'))
from gpv.check import *
from gpv.batch import *
from gpv.run import Sys
from gpv.progcase import *
import random


def work(part, arg):
    mode, i, n, seed = arg
    r = random.Random(f'c03/{seed}/{mode}/{i}')
    cases, progs, nev = make(r, n, 'q', 'control', extra=True)
    part.count('programs', len(progs))
    part.count('events_compared', nev)
    opts = ''
    m = mode
    s = SYS
    if mode == 'native':
        opts = r.choice(['', '', '', '--no-inline', '--no-reorder', '--no-reg-opt'])
    elif mode == 'san':
        m, s = 'native', SAN
    elif mode == 'dyn':
        m = 'byte'
        for c in cases:
            if c.pre:
                c.pre = '\n'.join(f":- initialization(assertz(({clause_text(h, b)[:-1]})))." for nm, ar, cls in c.note.preds for h, b in cls)
    run_batch(part, s, cases, m, PRELUDE, name='ctl-' + mode, opts=opts)
    part.count('cases_' + mode, len(cases))
    for c in cases:
        for k in CONSTRUCTS:
            if k in c.goal:
                part.count('query ' + k.strip('( '))


CONSTRUCTS = ['*->', '->', ';', '!', '\\+', 'once(', 'call(', 'findall(', 'forall(', 'catch(', 'throw(', 'call_nth(', 'countall(']


def body():
    global SYS, SAN
    ck = Check('C03', rule='random programs and queries of nested control constructs (cut in every position, ->, *->, ;, \\+, once, call/N, findall, forall, countall, call_nth, catch/throw, '
               'goals in variables, ill-formed goals), run native, byte-code, as dynamic clauses and with the query meta-called; the whole event sequence is compared with a '
               'reference engine; distinct by program text, query and mode')
    SYS = Sys('plain')
    SAN = Sys('san') if ck.thorough else None
    jobs = [(m, i, 130, ck.seed) for i in range(ck.n(45, 450)) for m in ('native', 'byte', 'meta', 'meta', 'dyn')]
    jobs = [(m, i * 5 + (k % 5), n, s) for k, (m, i, n, s) in enumerate(jobs)]
    if SAN:
        jobs += [('san', i, 100, ck.seed) for i in range(60)]
    parallel(ck, work, jobs)
    ck.finish(1000)


if __name__ == '__main__':
    main(body)
