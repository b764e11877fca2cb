"""Controls the server harness process and provides HTTP client primitives over raw sockets."""
import errno, os, queue, re, socket, struct, subprocess, tempfile, threading, time, shutil, random
from . import common
from .common import HarnessError

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=97:detect_leaks=0:max_allocation_size_mb=3000:handle_abort=1:print_legend=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4',
}
_used_ports = set()


def free_port(rng=None):
    # below the ephemeral range, so that no outgoing client socket takes it meanwhile
    r = random.Random(os.getpid() ^ int(time.time() * 1e6))
    for _ in range(2000):
        p = r.randrange(11000, 31000)
        if p in _used_ports:
            continue
        s = socket.socket()
        try:
            s.bind(('127.0.0.1', p))
        except OSError:
            continue
        finally:
            s.close()
        _used_ports.add(p)
        return p
    raise HarnessError('no free port')


class Server:
    def __init__(self, exe, env=None, start=True, **opts):
        self.exe = exe
        self.port = free_port()
        self.opts = dict(opts)
        self.opts['port'] = self.port
        self.dir = tempfile.mkdtemp(prefix='lam')
        self.out = open(os.path.join(self.dir, 'out'), 'wb')
        self.err = open(os.path.join(self.dir, 'err'), 'wb')
        self.events = []
        self.cv = threading.Condition()
        self.acks = queue.Queue()
        r, w = os.pipe()
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})

        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.opts['evfd'] = w
        self.proc = subprocess.Popen([exe] + ['%s=%s' % kv for kv in self.opts.items()], stdin=subprocess.PIPE,
                                     stdout=self.out, stderr=self.err, env=e, cwd=self.dir, preexec_fn=pre,
                                     close_fds=True, pass_fds=(w,))
        os.close(w)
        self._r = r
        self.thread = threading.Thread(target=self._reader, daemon=True)
        self.thread.start()
        if not self.wait_event(lambda l: l == 'READY', 60):
            self.kill()
            raise HarnessError('server harness did not start: ' + self.stderr()[-2000:])
        if start:
            for attempt in range(5):
                res = self.ctl('start')
                if res[0] == 'ok':
                    break
                if 'Address already in use' in res[0] or 'exception' in res[0]:
                    self.port = free_port()
                    self.ctl('set port=%d' % self.port)
                    continue
            else:
                msg = res[0]
                self.kill()
                raise HarnessError('server did not start: %s' % msg)

    def _reader(self):
        buf = b''
        while True:
            try:
                d = os.read(self._r, 1 << 16)
            except OSError:
                break
            if not d:
                break
            buf += d
            parts = buf.split(b'\n')
            buf = parts.pop()
            with self.cv:
                for p in parts:
                    l = p.decode('latin1')
                    if l.startswith('ACK '):
                        self.acks.put(l)
                    else:
                        self.events.append(l)
                self.cv.notify_all()
        with self.cv:
            self.closed = True
            self.cv.notify_all()
        self.acks.put(None)

    closed = False

    def wait_event(self, pred, timeout=30, start=0):
        end = time.time() + timeout
        i = start
        with self.cv:
            while True:
                while i < len(self.events):
                    if pred(self.events[i]):
                        return self.events[i]
                    i += 1
                left = end - time.time()
                if left <= 0 or self.closed:
                    return None
                self.cv.wait(left)

    def evs(self, prefix=None, start=0):
        with self.cv:
            return [l for l in self.events[start:] if prefix is None or l.startswith(prefix)]

    def nev(self):
        with self.cv:
            return len(self.events)

    def ctl(self, cmd, timeout=120):
        """returns (result, ms) or (None, None) if the process died / did not answer in time."""
        try:
            self.proc.stdin.write((cmd + '\n').encode())
            self.proc.stdin.flush()
        except OSError:
            return ('dead', None)
        try:
            a = self.acks.get(timeout=timeout)
        except queue.Empty:
            return ('timeout', None)
        if a is None:
            self.acks.put(None)
            return ('dead', None)
        _, c, res, ms = a.split(' ')
        if res.startswith('exception:') and res != 'exception:unknown':
            res = 'exception:' + bytes.fromhex(res[10:].replace('-', '')).decode('latin1')
        return (res, int(ms))

    def stat(self):
        r = self.ctl('stat')
        if r[0] in ('dead', 'timeout'):
            return None
        return {k: int(v) for k, v in (x.split('=') for x in r[0].split(','))}

    def stderr(self):
        self.err.flush()
        return open(self.err.name, 'rb').read().decode('latin1')

    def stdout(self):
        return open(self.out.name, 'rb').read().decode('latin1')

    def alive(self):
        return self.proc.poll() is None

    def kill(self):
        try:
            self.proc.kill()
        except OSError:
            pass
        self.proc.wait()
        self._cleanup()

    def _cleanup(self):
        self.thread.join(5)
        try:
            os.close(self._r)
        except OSError:
            pass
        for f in (self.out, self.err):
            f.close()
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def stop(self, check=None, how='exit', timeout=60, what=''):
        """Ends the process; with `check`, judges how it ended (crash, sanitizer report)."""
        rc = None
        if self.alive():
            if how == 'exit':
                try:
                    self.proc.stdin.write(b'exit\n')
                    self.proc.stdin.flush()
                    self.proc.stdin.close()
                except OSError:
                    pass
            else:
                self.ctl('quit')
            try:
                rc = self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = 'hang'
                self.proc.kill()
                self.proc.wait()
        rc = self.proc.returncode if rc != 'hang' else rc
        err = self.stderr()
        if check is not None:
            self.judge(check, rc, err, what)
        self.final_out, self.final_err = self.stdout(), err
        self._cleanup()
        return rc

    def judge(self, check, rc=None, err=None, what=''):
        if err is None:
            err = self.stderr()
        if rc is None:
            rc = self.proc.poll()
        if 'AddressSanitizer' in err or 'runtime error:' in err or 'ThreadSanitizer' in err or 'Assertion' in err:
            for rep in split_reports(err):
                check.violation('sanitizer:' + common.sanitizer_key(rep), 'sanitizer report in the server process%s:\n%s' % (what and ' (%s)' % what, common.sanitizer_report(rep)))
            return False
        if rc not in (0, None):
            if rc == 'hang':
                check.violation('server-exit-hang', 'the server process did not end within the watchdog time%s' % (what and ' (%s)' % what))
            else:
                check.violation('server-died:%s:%s' % (rc, common.sanitizer_key(err)), 'the server process ended with code %s%s; stderr tail: %s' % (rc, what and ' (%s)' % what, err[-1500:]))
            return False
        return True


def split_reports(err):
    if 'WARNING: ThreadSanitizer' in err:
        parts = re.split(r'(?==+\nWARNING: ThreadSanitizer)', err)
        return [p for p in parts if 'WARNING: ThreadSanitizer' in p]
    return [err]


# ---------------------------------------------------------------- HTTP client side

class Conn:
    def __init__(self, port, timeout=30, rcvbuf=None):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(timeout)
        s.connect(('127.0.0.1', port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = s
        self.buf = b''
        self.eof = False
        self.reset = False
        self.lport = s.getsockname()[1]

    def send(self, data):
        self.s.sendall(data)

    def send_pieces(self, data, cuts, pause=0.0):
        last = 0
        for c in sorted(set(cuts)) + [len(data)]:
            if c <= last:
                continue
            self.s.sendall(data[last:c])
            last = c
            if pause:
                time.sleep(pause)

    def fill(self, timeout=None):
        """reads more; returns False at EOF/reset. Raises socket.timeout."""
        if self.eof:
            return False
        if timeout is not None:
            self.s.settimeout(timeout)
        try:
            d = self.s.recv(1 << 16)
        except ConnectionResetError:
            self.eof = self.reset = True
            return False
        except BrokenPipeError:
            self.eof = self.reset = True
            return False
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True

    def response(self, head=False, timeout=30):
        """Parses one response strictly. Returns Resp, or None on EOF before any byte. Raises BadResponse."""
        end = time.time() + timeout
        while b'\r\n\r\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise socket.timeout('no response')
            if not self.fill(left):
                if not self.buf:
                    return None
                raise BadResponse('EOF inside header: ' + common.show(self.buf))
        hdr, rest = self.buf.split(b'\r\n\r\n', 1)
        lines = hdr.split(b'\r\n')
        m = re.fullmatch(rb'HTTP/1\.1 (\d{3})(?: ([^\r\n]*))?', lines[0])
        if not m:
            raise BadResponse('bad status line ' + common.show(lines[0]))
        headers = []
        for l in lines[1:]:
            if b':' not in l:
                raise BadResponse('bad header line ' + common.show(l))
            k, v = l.split(b':', 1)
            if not k or k != k.strip() or not re.fullmatch(rb"[!#$%&'*+.^_`|~0-9A-Za-z-]+", k):
                raise BadResponse('bad header name ' + common.show(l))
            headers.append((k.lower().decode('latin1'), v.strip().decode('latin1')))
        r = Resp(int(m.group(1)), (m.group(2) or b'').decode('latin1'), headers)
        cls = r.all('content-length')
        r.cl = None
        if cls:
            if len(set(cls)) != 1 or not cls[0].isdigit():
                raise BadResponse('bad content-length ' + repr(cls))
            r.cl = int(cls[0])
        self.buf = rest
        if head or r.code < 200 or r.code in (204, 304) or r.get('content-type', '').startswith('text/event-stream'):
            return r
        n = r.cl if r.cl is not None else 0
        if len(self.buf) < n:
            chunks, have = [self.buf], len(self.buf)
            self.buf = b''
            while have < n:
                left = end - time.time()
                if left <= 0:
                    raise socket.timeout('response body incomplete: have %d of %d' % (have, n))
                if not self.fill(left):
                    raise BadResponse('EOF inside body: have %d of %d' % (have, n))
                chunks.append(self.buf)
                have += len(self.buf)
                self.buf = b''
            self.buf = b''.join(chunks)
        r.body, self.buf = self.buf[:n], self.buf[n:]
        return r

    def read_all(self, timeout=30):
        end = time.time() + timeout
        while self.fill(max(0.01, end - time.time())):
            pass
        d, self.buf = self.buf, b''
        return d

    def at_eof(self, wait=10):
        """True if the peer closed; waits up to `wait` for it."""
        if self.buf:
            return False
        try:
            return not self.fill(wait)
        except socket.timeout:
            return False

    def rst(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


class BadResponse(Exception):
    pass


class Resp:
    def __init__(self, code, text, headers):
        self.code, self.text, self.headers, self.body = code, text, headers, b''

    def get(self, k, d=''):
        for a, b in self.headers:
            if a == k:
                return b
        return d

    def all(self, k):
        return [b for a, b in self.headers if a == k]


class Echo:
    """Parsed dump of what the handler saw."""
    def __init__(self, body):
        head, self.body = body.split(b'\n\n', 1)
        self.q, self.h = [], []
        uh = lambda x: b'' if x == '-' else bytes.fromhex(x)
        for l in head.decode('latin1').split('\n'):
            w = l.split(' ')
            if w[0] == 'N':
                self.n = int(w[1])
            elif w[0] == 'M':
                self.method = w[1]
            elif w[0] == 'P':
                self.path = uh(w[1])
            elif w[0] == 'U':
                self.user, self.password, self.host, self.hostname, self.port = [uh(x) for x in w[1:6]]
            elif w[0] == 'Q':
                self.q.append((uh(w[1]), uh(w[2])))
            elif w[0] == 'H':
                self.h.append((uh(w[1]), uh(w[2])))
            elif w[0] == 'I':
                self.ctx, self.req = w[1], w[2]
            elif w[0] == 'R':
                self.raddr, self.rport = w[1], int(w[2])
            elif w[0] == 'L':
                self.blen = int(w[1])


def req(method='GET', target='/', headers=(), body=None, host='localhost', version='HTTP/1.1', cl=True):
    out = ('%s ' % method).encode() + (target if isinstance(target, bytes) else target.encode('latin1')) + (' %s\r\n' % version).encode()
    hs = list(headers)
    if host is not None:
        hs.insert(0, ('Host', host))
    if body is not None and cl:
        hs.append(('Content-Length', str(len(body))))
    for k, v in hs:
        k = k if isinstance(k, bytes) else k.encode('latin1')
        v = v if isinstance(v, bytes) else v.encode('latin1')
        out += k + b': ' + v + b'\r\n'
    return out + b'\r\n' + (body or b'')


def unhexb(x):
    return b'' if x == '-' else bytes.fromhex(x)


def spec(code=200, text=None, headers=(), body=b'', kind='full', cookies=(), append=()):
    hx = lambda b: (b if isinstance(b, bytes) else b.encode('latin1')).hex() or '-'
    s = 'S %d%s\nK %s\n' % (code, '' if text is None else ' ' + hx(text), kind)
    for k, v in headers:
        s += 'H %s %s\n' % (hx(k), hx(v))
    for k, v in append:
        s += 'A %s %s\n' % (hx(k), hx(v))
    for k, v in cookies:
        s += 'C %s %s\n' % (hx(k), hx(v))
    return s.encode() + b'\n' + body


def canary(port, tag, timeout=30):
    """A valid request on a fresh connection; returns None if served correctly, else a description."""
    try:
        c = Conn(port, timeout)
        body = b'canary-' + tag.encode()
        c.send(req('POST', '/echo/canary?tag=' + tag, [('X-Canary', tag)], body))
        r = c.response(timeout=timeout)
        c.close()
        if r is None:
            return 'connection closed without response'
        if r.code != 200:
            return 'status %d' % r.code
        e = Echo(r.body)
        if e.body != body or e.path != b'/echo/canary' or (b'x-canary', tag.encode()) not in e.h:
            return 'wrong content'
        return None
    except (OSError, BadResponse, ValueError) as ex:
        return repr(ex)
