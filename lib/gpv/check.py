"""Verdict discipline of every check: counts, known findings, evidence, exit status."""
import hashlib, json, os, random, shutil, sys, time, traceback
from multiprocessing import get_context, TimeoutError as MpTimeout
from . import build as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, prop, level='exploration', rule='', assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        for a in sys.argv[1:]:
            if a in ('quick', 'thorough'):
                self.tier = a
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.viol = {}
        self.inconclusive = []
        self.known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get('status') == 'known' and k['property'] == prop:
                        self.known[k['key']] = k
        self.known_hit = {}
        self.replay_dir = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *parts):
        return random.Random('/'.join(map(str, (self.seed, self.prop) + parts)))

    # -- what was observed
    def case(self, desc=None, sample=False, nontrivial=True):
        self.evaluations += 1
        if desc is not None and nontrivial:
            self.nontrivial.add(hashlib.blake2b(desc.encode('utf-8', 'replace'), digest_size=8).digest())
        if sample and len(self.samples) < 6 and desc:
            self.samples.append(desc[:600])

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, key, detail, files=None):
        """key: stable identification of what fails (for known findings)"""
        if key in self.known:
            self.known_hit[key] = detail
            return
        if key in self.viol:
            self.viol[key][0] += 1
            return
        self.viol[key] = [1, detail, files or {}]

    def note_inconclusive(self, what):
        self.inconclusive.append(what)

    def merge(self, part):
        """result dict of a worker"""
        self.evaluations += part.get('evaluations', 0)
        self.nontrivial |= part.get('nontrivial', set())
        for s in part.get('samples', []):
            if len(self.samples) < 6:
                self.samples.append(s[:600])
        for k, v in part.get('counters', {}).items():
            self.count(k, v)
        for key, detail, files in part.get('violations', []):
            self.violation(key, detail, files)
        self.inconclusive += part.get('inconclusive', [])

    # -- end
    def finish(self, min_cases=1):
        known_lines = []
        for key, d in self.known_hit.items():
            known_lines.append(f"KNOWN-FINDING: property={self.prop} {self.known[key].get('what', key)}")
        rc = 0
        lines = []
        if self.viol:
            rc = 1
            os.makedirs(self.replay_dir, exist_ok=True)
            for i, (key, (cnt, detail, files)) in enumerate(list(self.viol.items())[:int(os.environ.get('GPV_SHOW', '8'))]):
                p = os.path.join(self.replay_dir, f'v{i}')
                os.makedirs(p, exist_ok=True)
                with open(os.path.join(p, 'REPORT.txt'), 'w', encoding='utf-8', errors='replace') as f:
                    f.write(f'property {self.prop}\nkey {key}\nseen {cnt} times\nseed {self.seed} tier {self.tier}\n\n{detail}\n')
                for nm, content in files.items():
                    with open(os.path.join(p, nm), 'w', encoding='latin-1', errors='replace') as f:
                        f.write(content)
                print(f'  {key}: {detail[:500]}')
                lines.append(f'VIOLATION property={self.prop} replay={p}')
        elif self.evaluations < min_cases:
            self.inconclusive.append(f'only {self.evaluations} cases of at least {min_cases}')
            rc = 2
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.nontrivial),
               'rule': self.rule, 'samples': self.samples or ['none']}
        cov.update({k: v for k, v in sorted(self.counters.items())})
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol),
              'inconclusive': self.inconclusive[:20], 'known_findings_seen': sorted(self.known_hit)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for l in known_lines + lines:
            print(l)
        for l in self.inconclusive[:10]:
            print('inconclusive:', l[:300])
        print(f'{self.prop} {self.tier} seed={self.seed}: {self.evaluations} cases, {len(self.nontrivial)} distinct, '
              f'{len(self.viol)} violation kinds, {len(self.inconclusive)} inconclusive, {time.time() - self.t0:.1f}s '
              + ' '.join(f'{k}={v}' for k, v in sorted(self.counters.items())))
        sys.stdout.flush()
        sys.exit(rc)


class Part:
    """what a worker reports back"""

    def __init__(self):
        self.d = {'evaluations': 0, 'nontrivial': set(), 'samples': [], 'counters': {}, 'violations': [], 'inconclusive': []}

    def case(self, desc=None, sample=False, nontrivial=True):
        self.d['evaluations'] += 1
        if desc is not None and nontrivial:
            self.d['nontrivial'].add(hashlib.blake2b(desc.encode('utf-8', 'replace'), digest_size=8).digest())
        if desc and sample and len(self.d['samples']) < 2:
            self.d['samples'].append(desc[:600])

    def count(self, name, n=1):
        c = self.d['counters']
        c[name] = c.get(name, 0) + n

    def violation(self, key, detail, files=None):
        if len(self.d['violations']) < 40:
            self.d['violations'].append((key, detail, files or {}))

    def inconclusive(self, what):
        self.d['inconclusive'].append(what)


def _call(a):
    fn, arg = a
    try:
        p = Part()
        fn(p, arg)
        return p.d
    except Exception:
        return {'error': traceback.format_exc() + f'\narg={str(arg)[:300]}'}


def parallel(check, fn, args, procs=None):
    """fn(part, arg) in worker processes; merged into check. A harness error ends with status 2."""
    args = list(args)
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = get_context('fork')
    errs = []
    soft, hard = (100, 600) if not check.thorough else (600, 10 ** 6)
    done = 0
    with ctx.Pool(min(procs, max(1, len(args)))) as pool:
        it = pool.imap_unordered(_call, [(fn, a) for a in args])
        while done < len(args):
            t = time.time() - check.t0
            try:
                r = it.next(timeout=max(1, min(hard - t, soft - t if check.viol and soft > t else 5 if check.viol else 20)))
            except StopIteration:
                break
            except MpTimeout:
                t = time.time() - check.t0
                if (check.viol and t > soft) or t > hard:
                    # a violation is known (or time is over): do not wait for what hangs
                    check.note_inconclusive(f'stopped after {t:.0f}s with {len(args) - done} of {len(args)} jobs left')
                    pool.terminate()
                    break
                continue
            done += 1
            if 'error' in r:
                errs.append(r['error'])
            else:
                check.merge(r)
            if check.viol and time.time() - check.t0 > soft:
                check.note_inconclusive(f'stopped early with {len(args) - done} of {len(args)} jobs left')
                pool.terminate()
                break
    if errs:
        check.inconclusive += ['harness error: ' + e[-1500:] for e in errs[:3]]
        print(errs[0], file=sys.stderr)
        if not check.viol:
            check.evaluations = min(check.evaluations, 0)
    return not errs


def main(fn):
    """runs the check body; a harness failure is status 2"""
    try:
        fn()
    except SystemExit:
        raise
    except B.BuildError as e:
        print('build error:', e)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
