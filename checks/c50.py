"""C50: moving the system clock does not disturb connections."""
import email.utils, random, socket, threading, time
from checks import c10
from vlib import build, srv, ws
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: the wall clock of the instrumented server process (ASan+UBSan, TSan) is moved forward, back and to and fro while timeouts, slow requests, slow readers, WebSockets and event streams are under way; every outcome and its time compared with the same clock-independent expectations'
NOTE = 'The clock is moved by interposing clock_gettime, time and gettimeofday (CLOCK_REALTIME); waits inside the kernel on absolute times of the wall clock are not moved. A WebSocket client that answers no pings may be dropped at any time from 14 to 45 s.'

JUMPS = [0, 1, -1, 2, -3, 5, -6, 10, -20, 60, -60, 3600, -3600, 86400, -86400, 30000000, -30000000, 1500000000, -1500000000, 5000000000]


class Mover:
    """Moves the clock of a server until told to stop."""
    def __init__(self, s, how, key):
        self.s, self.how, self.rng, self.n, self.at = s, how, random.Random(key), 0, 0
        self.over = threading.Event()
        self.t = threading.Thread(target=self.go)
        self.t.start()

    def go(self):
        step = 3607 if 'forward' in self.how else -3607 if 'back' in self.how else 0
        while not self.over.wait(0.3 if step else self.rng.choice([0.001, 0.01, 0.05, 0.3])):
            self.at = self.at + step if step else self.rng.choice(JUMPS)
            if self.s.ctl('clock %d' % self.at)[0] in ('dead', 'timeout'):
                return
            self.n += 1

    def stop(self):
        self.over.set()
        self.t.join(60)


def polite(c, port, key, seconds):
    """Answers pings and echoes now and then; must be neither dropped nor flooded with pings."""
    rng = random.Random(key)
    w = ws.Ws(port, '/ws?mode=echo&tag=polite', timeout=60)
    pings, n, t0 = 0, 0, time.time()
    nxt = t0
    try:
        while time.time() - t0 < seconds:
            if time.time() >= nxt:
                nxt = time.time() + rng.choice([0.05, 0.3, 2.5])
                n += 1
                w.send(ws.frame(ws.TEXT, b'm%d' % n, m=rng.randbytes(4)))
                want = b'm%d' % n
            else:
                want = None
            while True:
                try:
                    f = w.next(10 if want else max(0.01, min(nxt - time.time(), 0.5)))
                except socket.timeout:
                    if want:
                        return 'ws-lost', 'message %d was not echoed within 10 s' % n
                    break
                if f is None or f[1] == ws.CLOSE:
                    return 'ws-dropped', 'a WebSocket whose client answers pings was closed after %.1f s' % (time.time() - t0)
                if f[1] == ws.PING:
                    pings += 1
                    w.send(ws.frame(ws.PONG, f[2], m=rng.randbytes(4)))
                    continue
                if want is None or f != (1, ws.TEXT, want):
                    return 'ws-content', 'got %r instead of %r' % (f, want)
                break
        took = time.time() - t0
        if pings > took / 5 + 1:
            return 'ws-pings', '%d pings within %.1f s' % (pings, took)
        if took > 13 and pings < 1:
            return 'ws-no-pings', 'no ping within %.1f s' % took
        c.count('pings_answered', pings)
        c.count('messages_echoed', n)
        w.send(ws.frame(ws.CLOSE, b'\x03\xe8'))
    finally:
        w.close()


def silent(c, port, key, seconds):
    w = ws.Ws(port, '/ws?mode=record&tag=silent', timeout=60)
    t0 = time.time()
    try:
        while True:
            f = w.next(45)
            if f is None or f[1] == ws.CLOSE:
                break
    except socket.timeout:
        return 'silent-kept', 'a client that answered no pings was not dropped within 45 s'
    except (OSError, ws.BadFrame):
        pass
    finally:
        w.close()
    took = time.time() - t0
    if took < 14:
        return 'silent-early', 'a client that answered no pings was dropped after %.1f s' % took
    c.note_max('silent_dropped_after_s', round(took, 1))
    c.count('silent_dropped')


def events(c, port, key, seconds):
    k = srv.Conn(port, 30)
    try:
        k.send(srv.req('POST', '/sse?mode=loop&us=20000'))
        r = k.response(head=True)
        got, t0 = 0, time.time()
        while time.time() - t0 < min(seconds, 6):
            if not k.fill(10):
                return 'events-ended', 'an event stream ended after %.1f s' % (time.time() - t0)
        lines = [x for x in k.buf.split(b'\n') if x.startswith(b'data: tick ')]
        for j, l in enumerate(lines[:-1]):
            if l.strip() != b'data: tick %d' % j:
                return 'events-content', 'event %d came as %r' % (j, l)
        if len(lines) < 10:
            return 'events-few', 'only %d events in %d s' % (len(lines), min(seconds, 6))
        c.count('events', len(lines))
    finally:
        k.close()


def download(c, port, key, seconds):
    """A client that reads slowly, but never pauses for as long as the send timeout."""
    rng = random.Random(key)
    size, seed = 12000000, rng.randrange(1, 1000)
    k = srv.Conn(port, 30, rcvbuf=16384)
    try:
        k.send(srv.req('GET', '/big?size=%d&seed=%d' % (size, seed)))
        # all pauses together stay below the send timeout of 1.5 s
        for _ in range(6):
            time.sleep(0.15)
            k.fill(10)
        r = k.response(timeout=60)
        if r is None or r.code != 200 or len(r.body) != size:
            return 'download', 'a slow reader got %r of %d bytes' % (r and len(r.body), size)
        c.count('downloads')
    finally:
        k.close()


def dead_reader(c, port, key, seconds):
    """A client that does not read until long after the send timeout must not get the whole response."""
    k = srv.Conn(port, 30, rcvbuf=16384)
    try:
        k.send(srv.req('GET', '/big?size=30000000&seed=7'))
        time.sleep(8)
        try:
            n = len(k.read_all(30))
        except OSError:
            n = 0
        if n >= 30000000:
            return 'dead-reader', 'a client that did not read for 8 s got its 30 MB, the send timeout is 1.5 s'
        c.count('dead_readers')
    finally:
        k.close()


def date(c, s):
    """The Date header follows the clock, on new connections and on one that is kept."""
    kept = srv.Conn(s.port, 30)
    try:
        for at in (0, 400000000, -400000000, 86400 * 365 * 20, 59, 3600, -3600, 0):
            s.ctl('clock %d' % at)
            for k in (srv.Conn(s.port, 30), kept):
                k.send(srv.req('GET', '/echo/d'))
                r = k.response()
                if k is not kept:
                    k.close()
                d = email.utils.parsedate_to_datetime(r.get('date')).timestamp() if r.get('date') else None
                if d is None or abs(d - (time.time() + at)) > 2.5:
                    return 'date', 'with the clock moved by %d s the Date header says %r, which is off by %r s%s' % (at, r.get('date'), d and round(d - time.time() - at, 1), ' (kept connection)' if k is kept else '')
                c.count('dates')
    finally:
        kept.close()


def phase(c, variant, exe, how, per, seconds):
    s = srv.Server(exe, rxto=1500 if 'forward' in how else 900, txto=1500, threadlist=0 if how == 'to-and-fro' else 1, maxconn=2000, **({'sigstorm': 3000} if 'signals' in how else {}))
    to = 1500 if 'forward' in how else 900
    name = '%s/%s' % (variant, how)
    m = Mover(s, how, '%s/%s' % (c.seed, name))
    late = []
    jobs = [(polite, 0), (polite, 1), (silent, 0), (events, 0), (events, 1), (download, 0), (download, 1), (dead_reader, 0)]
    jobs += [((c10.pace if i % 3 == 2 else c10.stall), i) for i in range(per)]

    def one(j):
        fn, i = j
        key = 'c50/%d/%s/%s/%d' % (c.seed, name, fn.__name__, i)
        try:
            if fn in (c10.pace, c10.stall):
                # the machine may be busy, so a late close counts when it is repeated
                for attempt in range(3):
                    res = fn(c, random.Random('%s/%d' % (key, attempt)), s.port, to, ('pc%d' if fn is c10.pace else 'st%d') % i, late)
                    if not res or not s.alive():
                        break
            else:
                res = fn(c, s.port, key, seconds)
        except (OSError, srv.BadResponse, ws.BadFrame, AttributeError) as e:
            res = 'client-error', '%s: %r' % (fn.__name__, e)
        c.case(key, sample=key)
        if res and s.alive():
            c.violation('clock:' + res[0], '%s (clock moved %s; %s)' % (res[1], how, key))
        return bool(res)
    parallel(c, jobs, one, workers=20, alive=s.alive, max_bad=3)
    m.stop()
    c.count('clock_moves', m.n)
    if late and s.alive():
        c.note_max('max_of_least_lateness_ms', int(min(late) - to))
        if len(late) > 10 and min(late) > to + 300:
            c.violation('clock:late', 'every one of %d stalled connections was closed late: the earliest after %d ms, the timeout is %d ms (%s)' % (len(late), min(late), to, how))
    if s.alive() and not c.viol:
        try:
            res = date(c, s)
        except (OSError, srv.BadResponse, AttributeError, ValueError) as e:
            res = 'client-error', 'date: %r' % e
        if res:
            c.violation('clock:' + res[0], '%s (%s)' % (res[1], name))
    s.stop(c, what=name)


def run(c):
    c.rule = 'stalled and pacing clients, slow and dead readers, polite and silent WebSocket clients and event streams, each while the clock is moved forward, back, or to and fro'
    exes = {v: build.build(v, ['server'])['server'] for v in ('asan', 'tsan')}
    jobs = [('asan', 'forward'), ('asan', 'back, with signals'), ('asan', 'to-and-fro'), ('tsan', 'to-and-fro'), ('asan', 'forward, with signals')]
    parallel(c, jobs, lambda j: phase(c, j[0], exes[j[0]], j[1], c.scale(30, 200), c.scale(17, 60)), workers=5)
    if not c.viol:
        c.require('clock_moves', 200)
        c.require('pings_answered', 8)
        c.require('silent_dropped', 4)
        c.require('events', 200)
        c.require('downloads', 4)
        c.require('dead_readers', 4)
        c.require('dates', 20)
        c.require('paced_served', 10)
