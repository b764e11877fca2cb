"""Calls the instrumented non-network parts of the library through harness/pure.cpp."""
import os, re, struct, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from . import common, srv


def enc(args):
    out = [struct.pack('<I', len(args))]
    for a in args:
        if isinstance(a, str):
            a = a.encode('utf-8', 'surrogateescape')
        elif isinstance(a, int):
            a = b'%d' % a
        out.append(struct.pack('<I', len(a)))
        out.append(bytes(a))
    return b''.join(out)


def unpack(b):
    n, = struct.unpack_from('<I', b, 0)
    i, out = 4, []
    for _ in range(n):
        k, = struct.unpack_from('<I', b, i)
        out.append(b[i + 4:i + 4 + k])
        i += 4 + k
    return out


def step(b):
    """(status letter, list) of one script step."""
    return chr(b[0]), unpack(b[1:])


class Gone(Exception):
    pass


class Pure:
    def __init__(self, exe, limit=20, env=None, cwd=None):
        self.exe, self.limit, self.env, self.cwd = exe, limit, env, cwd
        self.p = None

    def start(self):
        e = dict(os.environ)
        e.update(srv.SAN_ENV)
        e.update(self.env or {})
        self.err = tempfile.TemporaryFile()

        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.exe, str(self.limit)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=self.cwd, preexec_fn=pre, bufsize=1 << 16)

    def _read(self, n):
        b = self.p.stdout.read(n)
        if len(b) < n:
            raise Gone()
        return b

    def _result(self):
        n, = struct.unpack('<I', self._read(4))
        out = []
        for _ in range(n):
            k, = struct.unpack('<I', self._read(4))
            out.append(self._read(k))
        return out

    def ended(self):
        """After Gone: (exit code, stderr text)."""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.stdout.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = self.p.wait()
        self.err.seek(0)
        t = self.err.read().decode('latin1')
        self.err.close()
        self.p = None
        return rc, t

    def close(self):
        if self.p:
            return self.ended()

    def batch(self, calls):
        """Yields (index, result list or None); None: the process ended there (result of ended() in self.last)."""
        i = 0
        while i < len(calls):
            if not self.p:
                self.start()
            stop = [False]
            p = self.p

            def feed(i0):
                try:
                    for a in calls[i0:]:
                        if stop[0]:
                            return
                        p.stdin.write(enc(a))
                        p.stdin.flush()
                except (OSError, ValueError):
                    pass
            t = threading.Thread(target=feed, args=(i,), daemon=True)
            t.start()
            try:
                while i < len(calls):
                    r = self._result()
                    yield i, r
                    i += 1
            except Gone:
                stop[0] = True
                self.last = self.ended()
                yield i, None
                i += 1
            stop[0] = True
            t.join(10)


def judge_end(c, last, call, what=''):
    """Reports how the driver died on `call`."""
    rc, err = last
    if rc == 99 or 'HARNESS: ' in err and 'HANG' not in err:
        raise common.HarnessError('pure driver: ' + err[-300:])
    desc = '%s%s' % (what, common.show([a if isinstance(a, (bytes, str, int)) else str(a) for a in call], 300))
    op = str(call[0] if call[0] != 'leak' else call[2])
    if 'HANG' in err and rc == 98:
        c.violation('hang:' + op, 'call did not end within its limit: ' + desc, call=desc)
    elif any(s in err for s in ('AddressSanitizer', 'runtime error:', 'ThreadSanitizer', 'Assertion', 'terminate called')):
        c.violation('sanitizer:%s:%s' % (op, common.sanitizer_key(err)), 'sanitizer report on %s\n%s' % (desc, common.sanitizer_report(err)), call=desc)
    else:
        c.violation('died:%s:%s' % (op, rc), 'process ended with %s on %s; %s' % (rc, desc, err[-800:]), call=desc)


def run(c, exe, calls, judge, workers=8, limit=20, max_bad=6, env=None, cwd=None):
    """Runs all calls (lists of arguments; or (args, context) tuples) and judge(args, result, context) on each result.
    result[0] is b'K' (value), b'E' (std::exception) or b'X'. A call that ends the process is a violation."""
    calls = [x if isinstance(x, tuple) else (x, None) for x in calls]
    if not calls:
        return
    workers = max(1, min(workers, (len(calls) + 19) // 20))
    chunks = [calls[i::workers] for i in range(workers)]
    bad = [0]
    errs = []

    def work(ch):
        d = Pure(exe, limit, env, cwd)
        try:
            for i, r in d.batch([x[0] for x in ch]):
                if r is None:
                    judge_end(c, d.last, ch[i][0])
                    with c.lock:
                        bad[0] += 1
                    if bad[0] >= max_bad:
                        return
                    continue
                if r[0] == b'X':
                    c.violation('unknown-exception:' + str(ch[i][0][0]), 'an exception that is not a std::exception came out of %s' % common.show(ch[i][0]))
                judge(ch[i][0], r, ch[i][1])
                if len(c.viol) >= 25:
                    return
            rc, err = d.close() or (0, '')
            if rc != 0:
                judge_end(c, (rc, err), ['exit'], 'at exit ')
        finally:
            if d.p:
                d.p.kill()
                d.close()
    with ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(work, ch) for ch in chunks]:
            f.result()
    c.count('driver_calls', len(calls))


def leaks(c, exe, calls, workers=8, limit=20, env=None, cwd=None):
    """Runs the calls again and again in one process; later passes must leave no more memory allocated than the first.
    (Something that grows once in a while, such as a buffer that is kept, is no leak: every pass has to add to it.)"""
    if not calls:
        return
    workers = max(1, min(workers, (len(calls) + 19) // 20))

    def work(ch):
        d = Pure(exe, limit, env, cwd)
        try:
            seq = (ch + [['mem']]) * 4
            mem = []
            for i, r in d.batch(seq):
                if r is None:
                    judge_end(c, d.last, seq[i])
                    return
                if seq[i] == ['mem']:
                    mem.append(int(r[1]))
            c.count('leak_checked_calls', len(ch))
            if mem[0] < mem[1] < mem[2] < mem[3]:
                for i, r in d.batch([['leak', 5] + list(x) for x in ch]):
                    if r is None:
                        judge_end(c, d.last, ch[i])
                        return
                    if int(r[1]) >= 40:
                        c.violation('leak:%s' % ch[i][0], 'every call leaves %d bytes allocated: %s' % (int(r[1]) // 5, common.show(ch[i])), call=common.show(ch[i]))
                        return
                c.violation('leak', 'every further pass over %d calls leaves %d more bytes allocated' % (len(ch), mem[3] - mem[2]))
        finally:
            if d.p:
                d.p.kill()
                d.close()
    with ThreadPoolExecutor(workers) as ex:
        for f in [ex.submit(work, calls[i::workers]) for i in range(workers)]:
            f.result()
