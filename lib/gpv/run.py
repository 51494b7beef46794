"""Runs Prolog workloads under the built system, with watchdogs."""
import ctypes, os, resource, select, shutil, signal, subprocess, tempfile, time, uuid
from . import build as B
from .terms import read_events

SCR = os.path.join(B.WORK, 'scr')


def scratch(name='w'):
    os.makedirs(SCR, exist_ok=True)
    for d in os.listdir(SCR):           # left by an interrupted run
        p = os.path.join(SCR, d)
        try:
            if time.time() - os.path.getmtime(p) > 3 * 3600:
                shutil.rmtree(p, ignore_errors=True)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix=f'{name}-', dir=SCR)


class Result:
    def __init__(self, rc, out, err, timeout, events):
        self.rc, self.out, self.err, self.timeout, self.events = rc, out, err, timeout, events

    @property
    def crashed(self):
        """killed by a signal, sanitizer report, or the engine's own report of a memory fault"""
        return (self.rc is not None and self.rc < 0 and not self.timeout) or self.sanitizer or \
            'Segmentation' in self.err or 'Segmentation' in self.out

    @property
    def sanitizer(self):
        return 'runtime error:' in self.err or 'AddressSanitizer' in self.err


_libc = ctypes.CDLL(None)
FLOOD = 24 << 20        # output beyond this ends the process


def _limits(core=True, mem=None, cpu=None):
    def f():
        _libc.prctl(1, signal.SIGKILL)      # die with the worker
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (100 << 20, 100 << 20))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def _pump(p, stdin, timeout):
    """like communicate, but a flood of output counts as a hang instead of filling the memory"""
    end = time.time() + timeout
    bufs = {p.stdout.fileno(): [], p.stderr.fileno(): []}
    size = dict.fromkeys(bufs, 0)
    po = select.poll()
    for fd in bufs:
        po.register(fd, select.POLLIN | select.POLLHUP)
    wfd = p.stdin.fileno()
    os.set_blocking(wfd, False)
    pos = 0
    if stdin:
        po.register(wfd, select.POLLOUT)
    else:
        p.stdin.close()
    open_ = set(bufs)
    to = False
    killed_at = None
    while open_:
        left = end - time.time()
        if killed_at is None and (left <= 0 or max(size.values()) > FLOOD):
            to = True
            killed_at = time.time()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        if killed_at is not None and time.time() - killed_at > 5:
            break
        if killed_at is None and p.poll() is not None and left > 2:
            end = min(end, time.time() + 2)      # output ends soon after the process
        for fd, ev in po.poll(max(10, min(500, left * 1000))):
            if fd == wfd and not p.stdin.closed:
                try:
                    pos += os.write(wfd, stdin[pos:pos + 65536])
                    fin = pos >= len(stdin)
                except BlockingIOError:
                    fin = False
                except OSError:
                    fin = True
                if fin:
                    po.unregister(wfd)
                    p.stdin.close()
                continue
            b = os.read(fd, 65536) if fd in open_ else b''
            if not b:
                if fd in open_:
                    open_.discard(fd)
                    po.unregister(fd)
                continue
            size[fd] += len(b)
            if size[fd] < FLOOD:
                bufs[fd].append(b)
    if not to:
        try:
            p.wait(max(.5, end - time.time()))
        except subprocess.TimeoutExpired:
            to = True
            p.kill()
    elif p.poll() is not None and p.returncode != -9:
        to = False
    return b''.join(bufs[p.stdout.fileno()]), b''.join(bufs[p.stderr.fileno()]), to


def run(cmd, build, cwd, stdin='', timeout=60, env=None, log=None, mem=None, cpu=None):
    e = B.env_for(build)
    if env:
        e.update(env)
    if log:
        e['VLOG'] = log
        if os.path.exists(log):
            os.remove(log)
    if isinstance(stdin, str):
        stdin = stdin.encode('latin-1')
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=_limits(mem=mem, cpu=cpu))
    try:
        out, err, to = _pump(p, stdin, timeout)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        for f in (p.stdin, p.stdout, p.stderr):
            try:
                f.close()
            except OSError:
                pass
    return Result(p.returncode, out.decode('latin-1'), err.decode('latin-1'), to, read_events(log) if log else [])


# room for the compiler when a generated clause is large (stacks are allocated lazily)
ROOMY = {'GLOBALSZ': '1000000', 'LOCALSZ': '200000', 'TRAILSZ': '200000', 'CSTRSZ': '100000'}


class Sys:
    """One built variant plus the event-logging harness."""

    def __init__(self, variant='plain'):
        self.variant = variant
        self.build = B.build(variant)
        self.h = B.harness(self.build)
        self.san = variant == 'san'
        self.cf = f"-C '-O1 -g' -L '{B.SANF}'" if self.san else ''

    def gprolog(self, cwd, args=(), stdin='', **kw):
        return run([f'{self.h}/vgp', *args], self.build, cwd, stdin, **kw)

    def consult_run(self, cwd, files, goal, timeout=60, log=None, **kw):
        """byte-code: consults files in the top level, runs goal, halts"""
        args = ['-q']
        stdin = ''
        kw['env'] = dict(ROOMY, **(kw.get('env') or {}))
        for f in files:
            stdin += "catch(consult('%s'),E__,(write(consult_error(E__)),nl)).\n" % f
        stdin += f'({goal} -> true ; true), halt.\nhalt.\nhalt.\n'
        return run([f'{self.h}/vgp', *args], self.build, cwd, stdin, timeout, log=log, **kw)

    def compile(self, cwd, files, out, opts='', timeout=120, top=False):
        """native: gplc files -> out; returns a Result"""
        tl = '' if top else '--no-top-level'
        cmd = f"gplc --no-singl-warn --no-susp-warn {self.cf} {tl} {opts} -o {out} {' '.join(files)} {self.h}/vlog.o {self.h}/vlog_c.o"
        return run(['bash', '-c', cmd], self.build, cwd, '', timeout, env=dict(ROOMY))

    def native_run(self, cwd, files, out='prog', opts='', timeout=60, log=None, args=(), stdin='', **kw):
        r = self.compile(cwd, files, out, opts)
        if r.rc != 0 or not os.path.exists(os.path.join(cwd, out)):
            r.compile_failed = True
            return r
        r2 = run([os.path.join(cwd, out), *args], self.build, cwd, stdin, timeout, log=log, **kw)
        r2.compile_failed = False
        r2.cout = r.out + r.err
        return r2


def by_case(events):
    """{case: [events]} in order; marks start an (empty) entry"""
    d = {}
    for k, e in events:
        if e is None:
            d.setdefault(k, [])
        else:
            d.setdefault(k, []).append(e)
    return d
