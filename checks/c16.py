"""C16: server-sent events arrive exactly as pushed."""
import random, re, socket, time
from vlib import build, srv, httpgen
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: generated event sequences pushed by the live instrumented server, decoded at the client by an independent implementation of the event-stream format; disconnect and stall histories with the handler-side failure log'
NOTE = 'Line breaks within data (LF, CR or CRLF) count as equal, as the format cannot tell them apart. Event names and ids are without line breaks; a push that contains one may be refused but must not produce other events.'


def parse_stream(data):
    """WHATWG event stream interpretation; returns list of (event, data, id, retry-at-that-point)."""
    text = data.decode('utf-8', 'surrogateescape')
    if text.startswith('\ufeff'):
        text = text[1:]
    out, buf, etype, last_id, retry = [], None, '', '', None
    lines = re.split('\r\n|\r|\n', text)
    complete = lines[:-1]
    for l in complete:
        if l == '':
            if buf is not None:
                out.append((etype or 'message', buf[:-1] if buf.endswith('\n') else buf, last_id, retry))
            buf, etype, retry = None, '', None
            continue
        if l.startswith(':'):
            continue
        k, _, v = l.partition(':')
        if v.startswith(' '):
            v = v[1:]
        if k == 'data':
            buf = (buf or '') + v + '\n'
        elif k == 'event':
            etype = v
        elif k == 'id':
            if '\0' not in v:
                last_id = v
        elif k == 'retry':
            if v.isascii() and v.isdigit():
                retry = int(v)
    return out, lines[-1] != '' or buf is not None


PIECES = ['', ' ', '  x', ':', 'data: y', 'event: z', 'id:', '\t', 'a', 'hello world', '{"a":[1,2]}', 'ü€😀', 'retry: 1', '\u2028', '\x0b', '\x0c', '\x1e', '\x85', 'z' * 300]


def gen_text(rng, breaks):
    n = rng.choice([0, 1, 1, 2, 3, 6])
    out = ''
    for _ in range(n):
        out += rng.choice(PIECES) if rng.random() < 0.7 else ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(1, 32), rng.randrange(160, 0x2000)])) for _ in range(rng.randrange(1, 20)))
        if breaks and rng.random() < 0.5:
            out += rng.choice(['\n', '\r', '\r\n', '\n\n', '\r\r', '\n\r', '\r\n\r\n'])
    if not breaks:
        out = out.replace('\r', 'r').replace('\n', 'n')
    return out


def gen_event(rng):
    if rng.random() < 0.03:
        d = gen_text(rng, True) * 5 + 'L' * rng.choice([5000, 100000])
    else:
        d = gen_text(rng, rng.random() < 0.5)
    e = gen_text(rng, False) if rng.random() < 0.4 else None
    i = gen_text(rng, False).replace('\0', '') if rng.random() < 0.4 else None
    r = rng.choice([0, 1, 3000, 2147483647, 2147483648, 4294967295, rng.randrange(1 << 32)]) if rng.random() < 0.3 else None
    return d, e, i, r


def enc(events):
    hx = lambda x: '~' if x is None else (x.encode().hex() or '-')
    return '\n'.join('E %s %s %s %s' % (hx(d), hx(e), hx(i), '~' if r is None else r) for d, e, i, r in events) + '\n\n'


def expect(events, closed):
    out, last = [], ''
    for d, e, i, r in events:
        if i is not None:
            last = i
        out.append((e or 'message', re.sub('\r\n|\r', '\n', d), last, r))
    if closed:
        out.append(('close', '', last, None))
    return out


def sequence(c, rng, s, i):
    events = [gen_event(rng) for _ in range(rng.choice([0, 1, 2, 5, 20]))]
    closing = rng.random() < 0.4
    refuse = None
    if rng.random() < 0.1 and events:
        k = rng.randrange(len(events))
        bad = rng.choice(['a\nb', '\r', 'x\r\ndata: injected\r\n\r\n', '\n\ndata: z\n\n'])
        d, e, ii, r = events[k]
        events[k] = (d, bad, ii, r) if rng.random() < 0.5 else (d, e, bad, r)
        refuse = k
    hs = []
    if rng.random() < 0.3:
        hs.append(('Accept-Encoding', 'gzip, br, deflate'))
    if rng.random() < 0.2:
        hs.append(('Connection', rng.choice(['close', 'keep-alive'])))
    origin = None
    if rng.random() < 0.2:
        origin = 'http://o%d.example' % i
        hs.append(('Origin', origin))
    k = srv.Conn(s.port)
    try:
        for _ in range(rng.choice([0, 0, 1, 2]) if s.opts.get('reuse', 1) else 0):
            k.send(srv.req('GET', '/echo/before', [('Accept-Encoding', 'gzip')]))
            k.response()
        k.send(srv.req('POST', '/sse' + ('?mode=close' if closing else ''), hs, enc(events).encode()))
        t_end = time.time() + 30
        while b'\r\n\r\n' not in k.buf:
            if not k.fill(30):
                return 'header', 'connection ended before a response header: %r' % k.buf[:100]
        head, rest = k.buf.split(b'\r\n\r\n', 1)
        lines = head.decode('latin1').split('\r\n')
        hd = {}
        for l in lines[1:]:
            a, b = l.split(':', 1)
            hd.setdefault(a.strip().lower(), []).append(b.strip())
        if not lines[0].startswith('HTTP/1.1 200'):
            return 'status', 'answered %r' % lines[0]
        if len(hd.get('content-type', [])) != 1 or hd['content-type'][0].split(';')[0].strip().lower() != 'text/event-stream':
            return 'content-type', 'content type %r' % hd.get('content-type')
        if 'content-encoding' in hd or 'content-length' in hd or 'transfer-encoding' in hd:
            return 'framing', 'event stream response announces %r' % {x: hd[x] for x in hd if x.startswith('content-') or x.startswith('transfer')}
        if hd.get('access-control-allow-origin') not in ([origin], None if origin is None else ['*']):
            return 'origin', 'a request from the origin %r was answered with the allowed origin %r' % (origin, hd.get('access-control-allow-origin'))
        parts = [rest]
        k.buf = b''
        while k.fill(max(0.1, t_end - time.time())):
            parts.append(k.buf)
            k.buf = b''
        if k.reset:
            return 'reset', 'the event stream was reset by the server'
        got, partial = parse_stream(b''.join(parts))
        if partial:
            return 'partial', 'the stream ends inside an event'
        if refuse is not None:
            bad_ev = events[refuse]
            rest_ev = events[:refuse] + events[refuse + 1:]
            # ids: a refused event leaves no trace; an accepted one must be what was pushed, which cannot be expressed
            if got != expect(rest_ev, closing):
                return 'injection', 'an event whose name or id has a line break turned into other events: pushed %r, got %r' % (bad_ev, got)
            c.count('line_breaks_in_names_refused')
            return None
        want = expect(events, closing)
        if got != want:
            for n, (a, b) in enumerate(zip(got, want)):
                if a != b:
                    f = [x for x in range(4) if a[x] != b[x]]
                    return 'event-' + ('name', 'data', 'id', 'retry')[f[0]], 'event %d of %d arrived as %r instead of %r' % (n, len(want), tuple(str(x)[:80] for x in a), tuple(str(x)[:80] for x in b))
            return 'count', '%d events arrived, %d were pushed' % (len(got), len(want))
        c.count('events', len(want))
        c.count('multiline', sum(1 for e in events if '\n' in e[0] or '\r' in e[0]))
    except socket.timeout as e:
        return 'timeout', repr(e)
    except (OSError, ValueError) as e:
        return 'framing', repr(e)
    finally:
        k.close()


def gone(c, rng, s, i):
    """the client disappears: the handler is told, and later pushes fail"""
    how = rng.choice(['close', 'rst', 'stall'] if i % 5 == 0 else ['close', 'rst'])
    k = srv.Conn(s.port, rcvbuf=4096 if how == 'stall' or rng.random() < 0.3 else None)
    seen = s.nev()
    try:
        k.send(srv.req('POST', '/sse?mode=loop&us=%d&pad=%d' % (*((0, 20000) if how == 'stall' else (rng.choice([0, 100, 2000]), 0)),)))
        while k.buf.count(b'tick') < rng.choice([0, 1, 5, 30]):
            if not k.fill(20):
                return 'early-end', 'the stream ended although the client was reading'
    except socket.timeout as e:
        return 'timeout', repr(e)
    except OSError as e:
        return 'early-end', repr(e)
    me = s.wait_event(lambda l: l.startswith('IN ') and l.split(' ')[-1] == str(k.lport), 20, seen)
    if not me:
        k.close()
        return 'timeout', 'handler log entry missing'
    n = me.split(' ')[1]
    t0 = time.time()
    if how == 'close':
        k.close()
    elif how == 'rst':
        k.rst()
    # 'stall': stays connected but reads nothing, the send timeout (3 s) applies
    e = s.wait_event(lambda l: l.startswith('SSEEND %s ' % n) or l == 'OUT %s' % n, 30)
    k.close()
    if e and e.startswith('OUT '):
        # the client was gone before the stream could be opened at all: opening it has failed
        if 'SSEOPEN %s' % n in s.evs('SSEOPEN'):
            return 'crash', 'the handler of an event stream ended by an exception'
        c.count('gone_before_opening')
        return None
    if e is None:
        return 'not-told', 'the handler was still pushing 30 s after the client was gone (%s)' % how
    c.note_max('slowest_failure_ms_' + how, int((time.time() - t0) * 1000))
    if e.split(' ')[4] != '1':
        return 'late-push', 'a push after the client was gone (%s) reported no failure' % how
    c.count('gone_' + how)


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'event sequences with data, names, ids and retry values containing line breaks, field-like text, control and non-ASCII characters and large data, under short writes and earlier requests on the connection; clients that close, reset or stall in the middle; non-trivial: distinct sequences judged'
    for opts in (dict(), dict(delayus=200, compress=0, reuse=0)):
        s = srv.Server(exe, seed=c.seed, rxto=30000, txto=3000, maxconn=0, **opts)

        def one(i):
            key = 'c16/%d/%s/%d' % (c.seed, opts, i)
            f = gone if i % 8 == 7 else sequence
            r = None
            for att in range(2):
                r = f(c, random.Random(key), s, i)
                if not r or r[0] != 'timeout':
                    break
            if not s.alive():
                return True
            c.case(key, sample=key)
            if r:
                c.violation('sse:' + r[0], r[1] + ' (%s)' % key)
                return True
        parallel(c, range(c.scale(800, 10000)), one, alive=s.alive)
        if s.alive():
            x = srv.canary(s.port, 'end')
            if x:
                c.violation('canary', 'requests are not served after event streams: ' + x)
        s.stop(c)
    if not c.viol:
        for k, m in (('events', 3000), ('multiline', 500), ('gone_close', 40), ('gone_rst', 40), ('gone_stall', 5), ('line_breaks_in_names_refused', 20)):
            c.require(k, m)
