"""C05: size limits."""
import random, socket, time
from vlib import build, srv
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: boundary-value request streams against the instrumented server with a size oracle; handler-log monitor, process peak-memory monitor'
NOTE = 'Sizes are counted as the client sends them: header including the blank line, plus the declared body. Peak memory is VmHWM of the ASan build, judged with 150 MB slack.'

BADLEN = ['abc', '-1', '-0', '12abc', '1e3', '0x10', '+5', '5 5', '5,5', '5, 5', '5;', '99999999999999999999999999', '18446744073709551615', '18446744073709551616',
          '18446744073709551617', '18446744073709550000', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '1.5', '٣', '5\x005']


def header(tag, size, cl, rng):
    """A request header of exactly `size` bytes (terminator included)."""
    h = b'POST /echo/' + tag + b' HTTP/1.1\r\nHost: h\r\n' + (b'Content-Length: %d\r\n' % cl if cl is not None else b'')
    pad = size - len(h) - 2
    if pad == 0:
        return h + b'\r\n'
    style = rng.randrange(3)
    if 200 <= pad < 60000 and style == 0:
        # many header lines
        out = b''
        i = 0
        while pad - len(out) > 120:
            out += b'X-%05d: %s\r\n' % (i, b'v' * rng.randrange(1, 60))
            i += 1
        rest = pad - len(out)
        return h + out + b'X-P: ' + b'p' * (rest - 7) + b'\r\n\r\n'
    return h + b'X-P: ' + b'p' * (pad - 7) + b'\r\n\r\n'


def within(c, rng, port, limit, tag, before):
    hs = rng.choice([120, 200, min(limit, 1000), limit, limit - 1, rng.randrange(120, limit + 1)] if limit < 1000000 else [120, 5000, 100000])
    room = limit - hs
    bl = rng.choice([room, room, max(0, room - 1), rng.randrange(0, room + 1), None]) if room >= 0 else None
    data = header(tag, hs, bl, rng) + b'b' * (bl or 0)
    conn = srv.Conn(port)
    try:
        if before:
            conn.send(srv.req('GET', '/echo/warm') + data)
            if conn.response().code != 200:
                return 'within-rejected', 'small request refused'
        else:
            conn.send_pieces(data, [rng.randrange(1, len(data)) for _ in range(rng.choice([0, 1, 3]))])
        r = conn.response()
        if r is None or r.code != 200:
            return 'within-rejected', 'limit %d, header %d + body %s (total %d) answered %s' % (limit, hs, bl, len(data), r and r.code)
        e = srv.Echo(r.body)
        if e.blen != (bl or 0):
            return 'within-body', 'limit %d, header %d + body %s: handler saw %d body bytes' % (limit, hs, bl, e.blen)
        c.count('within_served')
        c.count('exactly_at_limit', int(len(data) == limit))
    finally:
        conn.close()


def over(c, rng, port, limit, tag, before):
    kind = rng.choice(['header', 'header', 'total', 'total', 'total', 'huge', 'endless', 'badlen', 'badlen'])
    must413 = True
    if kind == 'header':
        data = header(tag, limit + rng.choice([1, 1, 2, 3, 4, 5, 100, 5000]), None, rng)
    elif kind == 'total':
        hs = rng.choice([120, min(1000, limit), limit - 1, limit])
        extra = rng.choice([1, 1, 2, 100, 100000])
        bl = limit - hs + extra
        data = header(tag, hs, bl, rng)
        if rng.random() < 0.5:
            data += b'b' * min(bl, 200000)
    elif kind == 'huge':
        data = header(tag, 120, rng.choice([1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 10, 1 << 40, (1 << 63) - 1, limit * 1000]), rng)
    elif kind == 'endless':
        data = b'GET /echo/' + tag + b' HTTP/1.1\r\nX-P: ' + b'e' * (limit + rng.choice([1, 3000, 200000]))
    else:
        v = rng.choice(BADLEN)
        hs = [('Content-Length', v.encode('utf8'))]
        if rng.random() < 0.15:
            v = 'duplicate 5/7'
            hs = [('Content-Length', '5'), ('Content-Length', '7')]
        data = srv.req('POST', b'/echo/' + tag, hs) + rng.choice([b'', b'hello', b'hello' * 40])
        must413 = False
    conn = srv.Conn(port)
    try:
        if before:
            conn.send(srv.req('GET', '/echo/warm'))
            if conn.response().code != 200:
                return 'within-rejected', 'small request refused'
        t0 = time.time()
        try:
            conn.send_pieces(data, [rng.randrange(1, len(data)) for _ in range(rng.choice([0, 1, 3]))])
        except OSError:
            pass    # refused and closed while we were still sending
        try:
            r = conn.response(timeout=6)
        except srv.BadResponse:
            r = None
        except OSError:
            return 'over-no-answer', 'limit %d, %s (%d bytes sent, head %r): neither answered nor closed within 6 s (receive timeout is 60 s)' % (limit, kind, len(data), data[:80])
        if r is not None:
            if (must413 and r.code != 413) or not 400 <= r.code < 600:
                return 'over-status', 'limit %d, %s: answered %d; %r' % (limit, kind, r.code, data[:120])
            if not conn.at_eof(6):
                return 'over-not-closed', 'limit %d, %s: connection stays open after %d' % (limit, kind, r.code)
            c.count('answered_%d' % r.code)
        else:
            c.count('closed_silently')
        c.count('over_' + kind)
    finally:
        conn.close()


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'requests with header / header+body sizes at and around the limit (off by 1 and more), huge, negative and non-numeric lengths, endless headers, on fresh and reused connections, for 4 limits; non-trivial: distinct requests judged'
    for limit in (300, 4096, 100000, 26214400):
        s = srv.Server(exe, env={'ASAN_OPTIONS': srv.SAN_ENV['ASAN_OPTIONS'] + ':quarantine_size_mb=2'}, rxto=60000, txto=60000, **({} if limit == 26214400 else {'maxreq': limit}))
        n = c.scale(350, 3500) if limit < 1000000 else c.scale(40, 300)
        s.ctl('resethwm')
        before = s.stat()
        over_phase = [True]

        def one(i):
            key = 'c05/%d/%d/%d%s' % (c.seed, limit, i, over_phase[0])
            rng = random.Random(key)
            tag = ('%s%d' % ('over' if over_phase[0] else 'within', i)).encode()
            try:
                res = (over if over_phase[0] else within)(c, rng, s.port, limit, tag, rng.random() < 0.3)
            except (OSError, srv.BadResponse, AttributeError) as e:
                if not s.alive():
                    return True
                res = 'client-error', '%r (limit %d, %s)' % (e, limit, tag)
            if res:
                c.violation('size:' + res[0], res[1], case=key)
            c.case(key, sample=key)
            return bool(res)
        parallel(c, range(n), one, alive=s.alive)
        if s.alive():
            st = s.stat()
            grown = (st['hwm'] - before['rss']) // 1024
            c.note_max('peak_growth_mb_refusing', grown)
            if grown > 150 + (8 * 4 * 26 if limit > 1000000 else 0):
                c.violation('size:allocation', 'refusing over-limit requests (limit %d) raised peak memory by %d MB' % (limit, grown))
            over_phase[0] = False
            parallel(c, range(n), one, alive=s.alive)
            for l in s.evs('IN '):
                p = bytes.fromhex(l.split(' ')[5])
                if p.startswith(b'/echo/over'):
                    c.violation('size:handler-called', 'the handler was called for a request that had to be refused: %r (limit %d) body=%s' % (p, limit, l.split(' ')[6]))
        s.stop(c)
    if not c.viol:
        for k in ('within_served', 'exactly_at_limit', 'over_header', 'over_total', 'over_huge', 'over_badlen', 'over_endless', 'answered_413'):
            c.require(k, 20)
