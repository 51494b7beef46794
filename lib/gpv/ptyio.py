"""Drives a program through a pseudo terminal: sends the next item when the expected prompt shows up."""
import os, pty, select, time, signal, fcntl, termios, struct, subprocess
from . import build as B
from .run import _limits


class Pty:
    def __init__(self, cmd, build, cwd, env=None, cols=4000, rows=50):
        e = B.env_for(build)
        e.update(env or {})
        m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))
        lim = _limits()

        def pre():
            lim()
            os.setsid()
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
        self.p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=s, stdout=s, stderr=s, preexec_fn=pre, close_fds=True)
        os.close(s)
        self.fd = m
        self.out = b''
        self.eof = False

    def read(self, timeout):
        """reads what is there within timeout; False when nothing came"""
        r, _, _ = select.select([self.fd], [], [], timeout)
        if not r:
            return False
        try:
            d = os.read(self.fd, 65536)
        except OSError:
            d = b''
        if not d:
            self.eof = True
            return False
        self.out += d
        if len(self.out) > 8 << 20:
            self.eof = True
        return True

    def until(self, pred, timeout=20):
        """reads until pred(out) is true; False on time-out or end"""
        end = time.time() + timeout
        while not pred(self.out):
            if self.eof or time.time() > end:
                return False
            self.read(min(1, max(0, end - time.time())))
        return True

    def send(self, data):
        if isinstance(data, str):
            data = data.encode('latin-1')
        while data:
            _, w, _ = select.select([self.fd], [self.fd], [], 10)
            if not w:
                return
            n = os.write(self.fd, data[:512])
            data = data[n:]

    def close(self, timeout=10):
        end = time.time() + timeout
        while not self.eof and time.time() < end and self.p.poll() is None:
            self.read(.1)
        while self.read(.05):
            pass
        if self.p.poll() is None:
            try:
                self.p.wait(timeout=max(.1, end - time.time()))
            except subprocess.TimeoutExpired:
                pass
        to = self.p.poll() is None
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        rc = self.p.wait()
        os.close(self.fd)
        return None if to else rc
