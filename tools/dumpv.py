#!/usr/bin/env python3
"""dumpv.py CHECK MODE [I..]: run work() of a check in this process and print every violation, grouped (development aid)"""
import sys, os, importlib
sys.path.insert(0, '/verif/checks'); sys.path.insert(0, '/verif/lib')
m = importlib.import_module(sys.argv[1])
from gpv.check import *
from gpv.run import Sys
from concurrent.futures import ProcessPoolExecutor
def go(a):
    m.SYS = Sys('plain'); m.SAN = None
    p = Part(); p.violation = lambda k, d, f=None: p.d["violations"].append((k, d))
    m.work(p, a)
    return [(v.get('key') if isinstance(v, dict) else v[0], v.get('msg', v.get('report')) if isinstance(v, dict) else v[1]) for v in p.d['violations']]
if __name__ == '__main__':
    SEED = int(os.environ.get('SEED', '1'))
    jobs = [(sys.argv[2], int(i), SEED) for i in sys.argv[3:]] or [(sys.argv[2], i, SEED) for i in range(m.NJ)]
    with ProcessPoolExecutor(8) as ex:
        for l in ex.map(go, jobs):
            for k, t in l:
                t = str(t).split('\n')
                print('KEY', k, '\n   ', '\n    '.join(x[:260] for x in t[1:] if x))
