"""C10: receive timeouts."""
import random, socket, time, threading
from vlib import build, srv
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: stalling and pacing clients with timing oracle against the instrumented server; handler-log monitor for incomplete requests'
NOTE = 'Scheduling slack: a close is accepted from 40 ms before to 1.5 s after the configured timeout, and the least late of all closes with one timeout at most 300 ms after it; pacing clients pause at most 75% of the timeout. A timing miss is repeated twice before it is reported.'


def stall(c, rng, port, to, tag, seen):
    body = rng.randbytes(rng.choice([10, 5000]))
    data = srv.req('POST', '/echo/' + tag, [('X-T', tag)], body)
    hdr = data.index(b'\r\n\r\n') + 4
    where = rng.choice(['nothing', 'header', 'header', 'last-header-byte', 'before-body', 'body', 'idle', 'second-header', 'second-body'])
    cut = {'nothing': 0, 'header': rng.randrange(1, hdr - 1), 'last-header-byte': hdr - 1, 'before-body': hdr, 'body': rng.randrange(hdr + 1, len(data)), 'idle': 0,
           'second-header': rng.randrange(1, hdr - 1), 'second-body': rng.randrange(hdr, len(data))}[where]
    conn = srv.Conn(port, timeout=30)
    try:
        if where in ('idle', 'second-header', 'second-body'):
            conn.send(srv.req('GET', '/echo/first'))
            if conn.response().code != 200:
                return 'framing', 'normal request refused'
        t0 = time.time()
        if cut:
            conn.send(data[:cut])
            t0 = time.time()
        try:
            got = conn.fill(to / 1000 + 4)
        except socket.timeout:
            return 'not-closed', 'stalled (%s) for %.1f s with a receive timeout of %d ms and was not closed' % (where, time.time() - t0, to)
        dt = (time.time() - t0) * 1000
        if got:
            return 'answered', 'a stalled incomplete request (%s) was answered: %r' % (where, conn.buf[:60])
        if dt < to - 40:
            return 'early', 'stalled (%s) connection closed after %d ms, timeout is %d ms' % (where, dt, to)
        if dt > to + 1500:
            return 'late', 'stalled (%s) connection closed only after %d ms, timeout is %d ms' % (where, dt, to)
        c.note_max('max_lateness_ms', int(dt - to))
        seen.append(dt)
        c.count('stalls_' + where)
        # what came after the timeout must not complete the request
        try:
            conn.send(data[cut:])
        except OSError:
            pass
    finally:
        conn.close()


def pace(c, rng, port, to, tag, seen):
    body = rng.randbytes(rng.choice([20, 3000]))
    data = srv.req('POST', '/echo/' + tag, [('X-T', tag), ('X-Pad', 'p' * 50)], body)
    n = rng.choice([2, 3, 5])
    cuts = sorted(rng.sample(range(1, len(data)), n))
    frac = rng.choice([0.5, 0.7, 0.75])
    conn = srv.Conn(port, timeout=30)
    try:
        for rep in range(rng.choice([1, 2])):
            last = 0
            for x in cuts + [len(data)]:
                conn.send(data[last:x])
                last = x
                if x != len(data):
                    time.sleep(to / 1000 * frac)
            r = conn.response()
            if r is None:
                return 'cut-off', 'client pausing %d ms between pieces was cut off, timeout is %d ms' % (to * frac, to)
            if r.code != 200 or srv.Echo(r.body).body != body:
                return 'cut-off', 'paced request answered %d' % r.code
            if rep == 0:
                time.sleep(to / 1000 * frac)
        c.count('paced_served')
    except (BrokenPipeError, ConnectionResetError):
        return 'cut-off', 'client pausing %d ms between pieces was cut off, timeout is %d ms' % (to * frac, to)
    finally:
        conn.close()


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'receive timeouts 150..2900 ms x stall positions (nothing, inside header, before the last byte, before/inside body, idle, second request) x pacing clients, thread-list and detached mode; non-trivial: distinct (timeout, client script) cases'
    tos = [150, 400, 650, 900, 1000, 1400, 1600, 1900, 2500] + ([1001, 2900, 3700] if c.thorough else [])
    per = c.scale(45, 300)
    ts = []

    def for_timeout(to):
        seen = []
        s = srv.Server(exe, rxto=to, txto=15000, threadlist=to % 2 if to > 1000 else 1, maxconn=2000)

        def one(i):
            key = 'c10/%d/%d/%d' % (c.seed, to, i)
            for attempt in range(3):
                rng = random.Random(key)
                tag = 'stall%d' % i
                try:
                    res = (stall if i % 3 else pace)(c, rng, s.port, to, ('%s%d' % ('st' if i % 3 else 'pc', i)), seen)
                except (OSError, srv.BadResponse, AttributeError) as e:
                    res = 'client-error', repr(e)
                if not res or not s.alive():
                    break
            if res and s.alive():
                c.violation('timeout:%s' % res[0], res[1], case=key)
            c.case(key, sample=key)
            return bool(res)
        parallel(c, range(per), one, workers=12, alive=s.alive, max_bad=3)
        # the load of the machine delays some closes, but not all of them
        if len(seen) > 10:
            c.note_max('max_of_least_lateness_ms', int(min(seen) - to))
            if min(seen) > to + 300:
                c.violation('timeout:late', 'every one of %d stalled connections was closed late: the earliest after %d ms, the timeout is %d ms' % (len(seen), min(seen), to))
        for l in s.evs('IN '):
            p = bytes.fromhex(l.split(' ')[5])
            if p.startswith(b'/echo/st'):
                c.violation('timeout:handler-called', 'the handler saw an incomplete request %r (timeout %d)' % (p, to))
        s.stop(c)
    for group in (tos[:5], tos[5:]):
        ts = [threading.Thread(target=for_timeout, args=(t,)) for t in group]
        [t.start() for t in ts]
        [t.join() for t in ts]
    if not c.viol:
        for k in ('stalls_nothing', 'stalls_header', 'stalls_body', 'stalls_idle', 'stalls_second-body', 'stalls_last-header-byte'):
            c.require(k, 4)
        c.require('paced_served', 60)
