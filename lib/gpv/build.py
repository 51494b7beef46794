"""Builds /repo's current working tree (src/, examples/) in a private folder.

variant 'plain': as /opt/vp/build.sh does (gcc, native code, defaults of configure)
variant 'san'  : -fsanitize=address,undefined, --disable-regs
The result is a directory with the layout of src/ (gprolog's development mode)."""
import fcntl, hashlib, os, shutil, subprocess, sys, time, glob

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..', '..'))
REPO = os.environ.get('GPV_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
SEED_PL2WAM = '/opt/vp/seed/pl2wam'
SAN_OPTS = {
    'ASAN_OPTIONS': 'detect_leaks=0:handle_segv=0:handle_sigbus=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:exitcode=86',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=86',
}
SANF = '-fsanitize=address,undefined -fno-sanitize-recover=all'


class BuildError(Exception):
    pass


def _files():
    try:
        out = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-z', '-co', '--exclude-standard'],
                             capture_output=True, check=True).stdout
        fs = sorted(set(out.split(b'\0')) - {b''})
        fs = [os.fsdecode(f) for f in fs]
    except Exception:
        fs = []
        for d in ('src', 'examples'):
            for r, _, names in os.walk(os.path.join(REPO, d)):
                fs += [os.path.relpath(os.path.join(r, n), REPO) for n in names if not n.endswith(('.o', '.a'))]
        fs += ['VERSION', 'COPYING']
        fs.sort()
    return [f for f in fs if f.startswith(('src/', 'examples/', 'VERSION', 'COPYING')) and os.path.isfile(os.path.join(REPO, f))]


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        p = os.path.join(REPO, f)
        h.update(f.encode() + b'\0')
        with open(p, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(__file__, 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def env_for(build):
    src = os.path.join(build, 'src')
    env = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'LDFLAGS', 'MAKEFLAGS', 'PL_PATH', 'CDPATH', 'LINEDIT')}
    env['PATH'] = ':'.join(f'{src}/{d}' for d in 'TopComp EnginePl Pl2Wam Wam2Ma Ma2Asm Fd2C'.split()) + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['LC_ALL'] = 'C'
    env.update(SAN_OPTS)
    return env


def _sh(cmd, cwd, env, log, timeout=600):
    with open(log, 'ab') as lf:
        p = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, timeout=timeout)
    return p.returncode


def _stale(src):
    st = []
    for pl in sorted(glob.glob(f'{src}/Pl2Wam/*.pl') + glob.glob(f'{src}/BipsPl/*.pl')):
        wam = pl[:-3] + '.wam'
        if os.path.isfile(wam):
            h = None
            with open(wam, errors='replace') as fh:
                for line in fh:
                    if line.startswith('% hash:'):
                        h = line.split()[2]
                        break
            if h != hashlib.sha1(open(pl, 'rb').read()).hexdigest():
                st.append(pl[:-3])
        else:
            import re
            n = os.path.basename(pl)[:-3]
            mk = open(os.path.join(os.path.dirname(pl), 'Makefile.in')).read()
            if n != 't' and re.search(r'\b%s(@OBJ_SUFFIX@|\.pl\b)' % re.escape(n), mk) and \
               any(re.search(r'\b%s(@OBJ_SUFFIX@|\.pl\b)' % re.escape(n), l) for l in mk.splitlines() if re.match(r'[A-Z_]*OBJS *=| |PLS', l)):
                st.append(pl[:-3])
    return st


def build(variant='plain', verbose=False):
    os.makedirs(f'{WORK}/build', exist_ok=True)
    lock = open(f'{WORK}/build/lock-{variant}', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        files = _files()
        h = tree_hash(files)
        d = f'{WORK}/build/{variant}-{h}'
        if os.path.exists(f'{d}/ok'):
            os.utime(f'{d}/ok')
            return d
        t0 = time.time()
        # keep at most 2 older builds of the variant
        old = sorted((p for p in glob.glob(f'{WORK}/build/{variant}-*') if os.path.isdir(p)), key=os.path.getmtime)
        for p in old[:-2]:
            shutil.rmtree(p, ignore_errors=True)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        now = time.time()
        for f in files:
            dst = os.path.join(d, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(os.path.join(REPO, f), dst)
            # the .wam files are the bootstrap: they have to be newer than their .pl
            tm = now - (3600 if f.endswith('.wam') else 7200)
            os.utime(dst, (tm, tm))
        src = f'{d}/src'
        os.chmod(f'{src}/configure', 0o755)
        log = f'{d}/build.log'
        env = env_for(d)
        for k in SAN_OPTS:
            env.pop(k, None)
        if variant == 'plain':
            env['CC'] = 'gcc'
            conf = './configure'
        elif variant == 'san':
            env['CC'] = 'gcc'
            env['CFLAGS'] = f'-O1 -g -fno-omit-frame-pointer {SANF} -fno-strict-aliasing -fcommon'
            env['LDFLAGS'] = SANF
            env.update(SAN_OPTS)
            conf = './configure --disable-regs'
        else:
            raise ValueError(variant)
        jobs = min(8, os.cpu_count() or 1)
        make_all = f'timeout 120 make -C EnginePl config && timeout 200 make -C EnginePl top_comp && timeout 400 make -j{jobs} all'
        stale = _stale(src)
        if stale and variant != 'plain':
            p = build('plain')
            for s in stale:
                shutil.copy(s.replace(d, p) + '.wam', s + '.wam')
                os.utime(s + '.wam', (now - 3600, now - 3600))
            stale = []
        if _sh(conf, src, env, log):
            raise BuildError(f'configure failed, see {log}')

        def regen(part):
            for s in stale:
                if os.path.basename(os.path.dirname(s)) != part:
                    continue
                n = os.path.basename(s)
                if _sh(f'rm -f {n}.wam && timeout 100 make {n}.wam && [ -s {n}.wam ]', f'{src}/{part}', env, log):
                    raise BuildError(f'cannot translate {n}.pl, see {log}')
        if not stale:
            rc = _sh(make_all, src, env, log)
        else:
            # 1. translate with the compiler of the pinned commit (or, without it, one built from the stale .wam)
            seed = SEED_PL2WAM
            if not os.access(seed, os.X_OK):
                raise BuildError('no seed pl2wam')
            shutil.copy(seed, f'{src}/Pl2Wam/pl2wam')
            os.utime(f'{src}/Pl2Wam/pl2wam', (now - 10800, now - 10800))
            regen('Pl2Wam')
            regen('BipsPl')
            os.remove(f'{src}/Pl2Wam/pl2wam')
            rc = _sh(make_all, src, env, log)
            if rc == 0:
                # 2. and again with the compiler just built
                regen('BipsPl')
                shutil.copy(f'{src}/Pl2Wam/pl2wam', f'{src}/Pl2Wam/pl2wam0')
                regen('Pl2Wam')
                rc = _sh(f'make -C Fd2C clean; make -C EngineFD clean; make -C BipsFD clean; {make_all}', src, env, log)
        need = ['TopComp/gprolog', 'TopComp/gplc', 'Pl2Wam/pl2wam', 'BipsFD/libbips_fd.a']
        if rc or not all(os.path.isfile(f'{src}/{n}') for n in need):
            tail = open(log, errors='replace').read()[-2000:]
            raise BuildError(f'build failed ({variant}): {tail}')
        open(f'{d}/ok', 'w').write(f'{time.time() - t0:.1f}')
        if verbose:
            print(f'built {variant} in {time.time() - t0:.1f}s', file=sys.stderr)
        return d
    finally:
        lock.close()


def harness(build_dir):
    """vgp = top level + event logger; objects for native programs. Returns the folder."""
    hh = hashlib.sha256()
    for f in sorted(glob.glob(f'{VERIF}/harness/v*')):
        hh.update(open(f, 'rb').read())
    hd = f'{build_dir}/harness-{hh.hexdigest()[:10]}'
    lock = open(f'{build_dir}/hlock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(f'{hd}/ok'):
            return hd
        os.makedirs(hd, exist_ok=True)
        env = env_for(build_dir)
        for f in glob.glob(f'{VERIF}/harness/v*'):
            shutil.copy(f, hd)
        log = f'{hd}/log'
        cf = ''
        if 'san' in os.path.basename(build_dir):
            cf = f"-C '-O1 -g' -L '{SANF}'"
        cmd = f"gplc -c vlog.pl && gplc {cf} -c vlog_c.c && gplc {cf} -o vgp vlog.o vlog_c.o"
        if _sh(cmd, hd, env, log):
            raise BuildError('harness: ' + open(log).read()[-1500:])
        open(f'{hd}/ok', 'w').close()
        return hd
    finally:
        lock.close()


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        b = build(v, True)
        print(b, harness(b))
