"""C44: values cannot turn into header lines, responses or events of their own."""
import random, re, socket, time
from vlib import build, srv, ws
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: handlers of the live instrumented server answer with header values, names, cookies and status texts full of line breaks and forged headers, clients send requests that carry such bytes; the header block on the wire is split by every kind of line break and compared with what the handler and the server set'
NOTE = 'How a line break in a value is made harmless (replaced, left out, the response refused with an error or the connection closed) is not judged. Everything up to the offending characters that is kept must be unaltered.'

BREAKS = ['\r\n', '\n', '\r', '\n\r', '\r\n\r\n', '\n\n', '\r\r\n', '\0', '\r\n ', '\r\n\t', '\0\r\n', '\x0b\r\n']
FORGED = ['X-Forged: yes', 'Set-Cookie: forged=1', 'Content-Length: 0', 'Transfer-Encoding: chunked', 'Connection: close',
          'HTTP/1.1 200 OK', 'Location: http://evil.example/', '<html>forged</html>', 'Content-Length: 5\r\n\r\nforged', ': empty', 'data: forged']
OWN = {'date', 'server', 'content-length', 'x-request-id', 'connection', 'content-type', 'content-encoding'}


def hostile(rng):
    v = rng.choice(['', 'a', 'value', 'text/html', 'http://localhost/x?y=1'])
    for _ in range(rng.choice([1, 1, 2, 5])):
        v += rng.choice(BREAKS) + rng.choice(FORGED + ['', 'b'])
    if rng.random() < 0.3:
        v += rng.choice(BREAKS)
    return v


def raw_head(k, timeout=30):
    end = time.time() + timeout
    while b'\r\n\r\n' not in k.buf:
        if not k.fill(max(0.01, end - time.time())):
            return None
    h, k.buf = k.buf.split(b'\r\n\r\n', 1)
    return h


def check_head(h, names, status=None):
    """None, or what is wrong. names: multiset of header names that may appear besides the server's own."""
    lines = h.split(b'\r\n')
    if any(ch in h.replace(b'\r\n', b'') for ch in (b'\r', b'\n', b'\0')):
        return 'bare-break', 'a bare line break or zero byte within the header: %r' % h[:300]
    m = re.fullmatch(rb'HTTP/1\.1 (\d{3}) .*', lines[0])
    if not m:
        return 'status-line', 'status line %r' % lines[0][:200]
    if int(m.group(1)) >= 500:
        names = []          # an error page instead
    elif status is not None and int(m.group(1)) != status:
        return 'status', 'status %r instead of %d' % (m.group(1), status)
    left = list(names)
    seen = set()
    for l in lines[1:]:
        n = l.split(b':', 1)[0].decode('latin1').lower().strip()
        if n in left:
            left.remove(n)
        elif n in OWN and n not in seen:
            seen.add(n)
        else:
            return 'forged-header', 'header line %r which nobody set' % l[:200]
    return None


def answer(rng, port, c, key):
    """The handler's values."""
    where = rng.choice(['value', 'value', 'append', 'cookie', 'cookie-name', 'status', 'name', 'content-type', 'location'])
    body = b'body of ' + key.encode()
    v = hostile(rng)
    hs, ap, ck, text, names, kind = [], [], [], None, [], 'full'
    code = rng.choice([200, 302, 404])
    if where == 'value':
        hs, names = [('X-Value', v), ('X-Other', 'fine')], ['x-value', 'x-other']
    elif where == 'append':
        ap, names = [('X-Value', 'fine'), ('X-Value', v), ('X-Value', 'fine')], ['x-value'] * 3
    elif where in ('cookie', 'cookie-name'):
        kind = 'cookies'
        ck = [('a', v)] if where == 'cookie' else [('n' + v, 'value')]
        names = ['set-cookie']
    elif where == 'status':
        text = v or 'x'
    elif where == 'name':
        hs, names = [('X-Name' + v, 'value')], None
    elif where == 'content-type':
        hs = [('Content-Type', v)]
    else:
        hs, names = [('Location', v)], ['location']
    k = srv.Conn(port, 30)
    try:
        k.send(srv.req('POST', '/resp/x', [], srv.spec(code=code, text=text, headers=hs, append=ap, cookies=ck, kind=kind, body=body)))
        h = raw_head(k)
        if h is None:
            c.count('refused_by_closing')
            return None
        if names is None:
            # the name itself is broken: its line may read in any way, but there is only one of it
            first = [l for l in h.split(b'\r\n')[1:] if l.lower().startswith(b'x-name')]
            if len(first) > 1:
                return 'forged-header', 'a broken header name gave %d lines: %r' % (len(first), first)
            names = [first[0].split(b':', 1)[0].decode('latin1').lower().strip()] if first else []
        bad = check_head(h, names, code)
        if bad:
            return bad[0] + ':' + where, '%s (handler set %r)' % (bad[1], (hs + ap + ck or text))
        # whatever follows is the body and then the answer to the next request, nothing else
        n = int(re.search(rb'(?i)\r\ncontent-length: (\d+)', h + b'\r\n').group(1))
        while len(k.buf) < n:
            if not k.fill(20):
                return 'body:' + where, 'the connection ended within the body'
        got, k.buf = k.buf[:n], k.buf[n:]
        if int(h[9:12]) < 500 and got != body:
            return 'body:' + where, 'the body %r came as %r' % (body, got[:200])
        if re.search(rb'(?i)\r\nconnection: close', h):
            return None
        k.send(srv.req('POST', '/echo/next', [], b'next'))
        r = k.response(timeout=30)
        if r is None or r.code != 200 or srv.Echo(r.body).body != b'next' or k.buf:
            return 'next:' + where, 'after the value %r the next request got %r' % (v, r and (r.code, r.body[:100]))
        c.count('answers_' + where.replace('-', '_'))
        return None
    finally:
        k.close()


def reflect(rng, port, c, key):
    """Bytes of a request which the server itself puts into its answer or takes for something else."""
    where = rng.choice(['origin', 'origin', 'ws-key', 'connection', 'any-header', 'any-header', 'target', 'method', 'cookie'])
    v = hostile(rng).encode('latin1')
    v = v.replace(b'\r\n', rng.choice([b'\n', b'\r', b'\n\r', b'\0']))       # a real line break would just be another header
    if b'\n' not in v and b'\r' not in v and b'\0' not in v:
        v += b'\nX-Forged: yes'
    h = {'origin': (b'POST /sse HTTP/1.1\r\nContent-Length: 0\r\nOrigin: http://a' + v),
         'ws-key': (b'GET /ws?mode=nowait HTTP/1.1\r\nUpgrade: websocket\r\nConnection: upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: chat' + v),
         'connection': (b'GET /echo/r HTTP/1.1\r\nConnection: keep-alive' + v),
         'any-header': (b'GET /echo/r HTTP/1.1\r\nX-Any: a' + v),
         'cookie': (b'GET /echo/r HTTP/1.1\r\nCookie: a=b; c=' + v),
         'target': (b'GET /echo/r?x=' + v.replace(b' ', b'') + b' HTTP/1.1'),
         'method': (b'GET' + v.replace(b' ', b'') + b' /echo/r HTTP/1.1')}[where]
    k = srv.Conn(port, 30)
    try:
        k.send(h + b'\r\nHost: x\r\n\r\n')
        head = raw_head(k)
        if head is None:
            c.count('requests_closed_on')
            return None
        names = ['access-control-allow-origin', 'cache-control', 'upgrade', 'sec-websocket-accept', 'sec-websocket-protocol']
        bad = check_head(head, names)
        if bad:
            return 'reflected-%s:%s' % (bad[0], where), '%s (request %r)' % (bad[1], h[:300])
        if head[9:12] == b'200' and where not in ('origin', 'ws-key'):
            n = int(re.search(rb'(?i)\r\ncontent-length: (\d+)', head + b'\r\n').group(1))
            while len(k.buf) < n and k.fill(20):
                pass
            e = srv.Echo(k.buf[:n])
            forged = [x for x in e.h if x[0] in (b'x-forged', b'set-cookie', b'transfer-encoding', b'location')]
            if forged:
                return 'request-header:' + where, 'the handler saw %r which nobody sent (request %r)' % (forged, h[:300])
            if any(ch in x for x in [e.path] + [y for q in e.q + e.h for y in q] for ch in (b'\n', b'\r', b'\0')):
                return 'request-break:' + where, 'the handler got line breaks or zero bytes within one header or the target: %r' % h[:300]
        c.count('requests_%s_%s' % (where.replace('-', '_'), 'served' if head[9:10] == b'2' else 'refused'))
        return None
    finally:
        k.close()


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'a handler value (header value, repeated header, cookie, cookie name, status text, header name) or a request part (Origin, WebSocket headers, any header, target, method) with line breaks and forged lines in it'
    for compress, et in ((1, 'html'), (0, 'json')):
        s = srv.Server(exe, compress=compress, errtype=et, seed=c.seed, rxto=20000, txto=20000, maxconn=0)

        def one(i):
            key = 'c44/%d/%d/%d' % (c.seed, compress, i)
            rng = random.Random(key)
            f = reflect if i % 3 == 2 else answer
            try:
                bad = f(rng, s.port, c, key)
            except (OSError, srv.BadResponse, AttributeError, ValueError) as e:
                bad = 'framing:' + f.__name__, repr(e)
            if bad:
                c.violation('structure:' + bad[0], '%s (%s)' % (bad[1], key))
                return True
            c.case(key)
        parallel(c, range(c.scale(1500, 20000)), one, workers=8, alive=s.alive, max_bad=25)
        s.stop(c)
    if not c.viol:
        c.require('answers_value', 100)
        c.require('answers_cookie', 50)
        c.require('answers_status', 50)
