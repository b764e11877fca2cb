"""Drives harness/tcp.cpp: commands by line, outcomes as events."""
import itertools, os, socket, struct, subprocess, tempfile, threading, time, shutil
from . import common, srv
from .common import HarnessError

M = (1 << 64) - 1


class Pattern:
    """Same generator as in the harness."""
    def __init__(self, seed):
        self.s = (seed * 0x9E3779B97F4A7C15 | 1) & M
        self.rest = b''

    def take(self, n):
        out = [self.rest]
        have = len(self.rest)
        s = self.s
        while have < n:
            s ^= (s << 13) & M
            s ^= s >> 7
            s ^= (s << 17) & M
            out.append(s.to_bytes(8, 'little'))
            have += 8
        self.s = s
        b = b''.join(out)
        self.rest = b[n:]
        return b[:n]


def fnv(data):
    h = 1469598103934665603
    for x in data:
        h = ((h ^ x) * 1099511628211) & M
    return h


class Driver:
    def __init__(self, exe, env=None, seed=1):
        self.dir = tempfile.mkdtemp(prefix='lamtcp')
        self.err = open(os.path.join(self.dir, 'err'), 'wb')
        r, w = os.pipe()
        e = dict(os.environ)
        e.update(srv.SAN_ENV)
        e.update(env or {})
        self.proc = subprocess.Popen([exe, 'evfd=%d' % w, 'seed=%d' % seed], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err,
                                     env=e, cwd=self.dir, pass_fds=(w,))
        os.close(w)
        self._r = r
        self.res = {}
        self.cv = threading.Condition()
        self.closed = self.ready = self.stuck = False
        self.n = itertools.count(1)
        self.wlock = threading.Lock()
        self.thread = threading.Thread(target=self._reader, daemon=True)
        self.thread.start()
        with self.cv:
            self.cv.wait_for(lambda: self.ready or self.closed, 60)
        if not self.ready:
            self.proc.kill()
            raise HarnessError('tcp harness did not start')

    def _reader(self):
        f = os.fdopen(self._r, 'rb')
        for raw in f:
            l = raw.decode('latin1').rstrip('\n')
            with self.cv:
                if l == 'READY':
                    self.ready = True
                elif l.startswith('STUCK'):
                    self.stuck = True
                else:
                    op, rest = l.split(' ', 1)
                    self.res[op] = rest
                self.cv.notify_all()
        with self.cv:
            self.closed = True
            self.cv.notify_all()

    def start(self, *words, sync=False):
        """Starts an operation; returns its handle."""
        op = '%s%d' % ('s' if sync else 'a', next(self.n))
        with self.wlock:
            try:
                self.proc.stdin.write((' '.join([op] + [str(w) for w in words]) + '\n').encode())
                self.proc.stdin.flush()
            except OSError:
                pass
        return op

    def wait(self, op, timeout=30):
        """The outcome as (words, ms); (None, None) when there was none in time."""
        with self.cv:
            self.cv.wait_for(lambda: op in self.res or self.closed, timeout)
            if op not in self.res:
                return None, None
            w = self.res.pop(op).split(' ')
        return w[:-1], int(w[-1][3:])

    def peek(self, op):
        with self.cv:
            return op in self.res

    def do(self, *words, timeout=30):
        return self.wait(self.start(*words), timeout)

    def stat(self):
        w, _ = self.wait(self.start('stat', sync=True), 20)
        return None if w is None else dict(zip(('fds', 'threads', 'recv', 'send', 'interrupted', 'cut', 'signals'), [int(x) for x in w[1:]]))

    def alive(self):
        return self.proc.poll() is None

    def stop(self, c, what=''):
        rc = None
        if self.alive():
            try:
                self.proc.stdin.write(b'exit\n')
                self.proc.stdin.flush()
                self.proc.stdin.close()
            except OSError:
                pass
            try:
                rc = self.proc.wait(60)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
                rc = 'hang'
        rc = self.proc.returncode if rc is None else rc
        self.thread.join(5)
        self.err.close()
        err = open(self.err.name, 'rb').read().decode('latin1')
        shutil.rmtree(self.dir, ignore_errors=True)
        if any(x in err for x in ('AddressSanitizer', 'runtime error:', 'ThreadSanitizer', 'Assertion')):
            for rep in srv.split_reports(err):
                c.violation('sanitizer:' + common.sanitizer_key(rep), 'sanitizer report in the process%s:\n%s' % (what and ' (%s)' % what, common.sanitizer_report(rep)))
        elif rc == 9 or self.stuck or rc == 'hang':
            c.violation('stuck', 'operations were still pending 30 s after all connections and listeners had been ended%s' % (what and ' (%s)' % what))
        elif rc != 0:
            c.violation('died:%s:%s' % (rc, common.sanitizer_key(err)), 'the process ended with %s%s: %s' % (rc, what and ' (%s)' % what, err[-1500:]))


class Peer:
    """A client socket with helpers."""
    def __init__(self, port, rcvbuf=None, timeout=20):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(timeout)
        s.connect(('127.0.0.1', port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = s
        self.port = s.getsockname()[1]

    def recv_all(self, timeout=20, n=None):
        """(data, how): how is eof, reset or timeout (or got, when n bytes have come)"""
        out, have = [], 0
        end = time.time() + timeout
        while n is None or have < n:
            left = end - time.time()
            if left <= 0:
                return b''.join(out), 'timeout'
            self.s.settimeout(left)
            try:
                d = self.s.recv(1 << 16 if n is None else min(1 << 16, n - have))
            except socket.timeout:
                return b''.join(out), 'timeout'
            except OSError:
                return b''.join(out), 'reset'
            if not d:
                return b''.join(out), 'eof'
            out.append(d)
            have += len(d)
        return b''.join(out), 'got'

    def rst(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass
