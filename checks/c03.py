"""C03: announced connection persistence equals performed persistence, and follows the policy."""
import random, socket, threading, time
from vlib import build, srv
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: ASan/UBSan-instrumented server under generated request histories; client-side monitor compares each announced persistence with the observed fate of the connection and with a policy model'
NOTE = 'A client that goes on sending after the request that the server closes on may see a reset, so such answers are small. Trusts: kernel loopback sockets; a close is observed as EOF/reset within 10 s. Contradictory Connection lists and non-persistence tokens are judged for announce=perform only.'

CLIENT = [None, None, None, 'keep-alive', 'Keep-Alive', 'KEEP-ALIVE', 'close', 'Close', 'CLOSE', 'cLoSe', 'close, TE', 'TE, close', 'keep-alive, TE', 'Upgrade', 'TE', 'x-foo']


def wants(h):
    if h is None:
        return 'keep-alive'
    toks = [t.strip().lower() for t in h.split(',')]
    if 'close' in toks:
        return 'close'
    if 'keep-alive' in toks:
        return 'keep-alive'
    return None


def gen(rng, last):
    g = {'conn': rng.choice(CLIENT), 'handler': None, 'kind': rng.choice(['echo', 'echo', 'resp', 'resp', 'throw', 'none', 'head', 'big'])}
    if not last and rng.random() < 0.75:
        g['conn'] = rng.choice([None, 'keep-alive', 'Keep-Alive', None])
    if g['kind'] == 'resp' and rng.random() < 0.35:
        g['handler'] = rng.choice(['close', 'Close', 'keep-alive', 'Keep-Alive', 'CLOSE', 'close, TE', 'TE, Close', 'X-Foo,close', 'Keep-Alive, TE'])
    if g['kind'] == 'resp':
        g['status'], g['body'] = rng.choice([(200, b'body'), (200, b''), (204, b''), (304, b''), (404, b''), (301, b'moved'), (500, b'err'), (200, b'z' * 70000)])
    return g


def brief(gs):
    return [{k: (v if k != 'body' else len(v)) for k, v in g.items()} for g in gs]


def request_of(g, i):
    hs = [('Connection', g['conn'])] if g['conn'] else []
    k = g['kind']
    if k == 'echo':
        return srv.req('POST', '/echo/%d' % i, hs, b'x' * (i * 37 % 200))
    if k == 'head':
        return srv.req('HEAD', '/echo/%d' % i, hs)
    if k == 'throw':
        return srv.req('POST', '/throw?kind=runtime', hs, b'boom')
    if k == 'none':
        return srv.req('GET', '/throw?kind=none', hs)
    if k == 'big':
        return srv.req('GET', '/big?size=400000&seed=%d' % i, hs)
    return srv.req('POST', '/resp', hs, srv.spec(g['status'], None, [('Connection', g['handler'])] if g['handler'] else [], g['body']))


def conversation(c, rng, port, reuse):
    n = rng.choice([1, 2, 3, 5, 9])
    gs = [gen(rng, i == n - 1) for i in range(n)]
    idle = rng.random() < 0.2
    pipe = rng.random() < 0.3
    if pipe:
        # requests that are never read make the kernel reset the connection, a large answer before them can be lost by that
        closing = [i for i, g in enumerate(gs[:-1]) if wants(g['handler'] or g['conn']) != 'keep-alive' or not reuse]
        for g in gs[:closing[0] + 1] if closing else []:
            if g['kind'] == 'big':
                g['kind'] = 'echo'
            if len(g.get('body', b'')) > 10000:
                g['body'] = b'body'
    conn = srv.Conn(port, timeout=30)
    try:
        if pipe:
            data = b''.join(request_of(g, i) for i, g in enumerate(gs))
            t = threading.Thread(target=lambda: quiet(conn.send, data), daemon=True)
            t.start()
        for i, g in enumerate(gs):
            if not pipe:
                conn.send(request_of(g, i))
            r = conn.response(head=g['kind'] == 'head' or g.get('status') in (204, 304))
            if r is None:
                return 'closed-early', 'no response to request %d of %r although the previous one said keep-alive' % (i, brief(gs))
            a = r.all('connection')
            a = wants(a[0]) if len(a) == 1 else None
            if not a or (not g['handler'] and r.get('connection').lower() != a):
                return 'announcement', 'response %d announces %r; %r' % (i, r.all('connection'), brief(gs))
            exp = wants(g['handler']) if g['handler'] else ('close' if not reuse else wants(g['conn']))
            if exp and a != exp:
                return 'policy:%s-for-%s' % (a, exp), 'response %d announces %s, expected %s (reuse=%d); %r' % (i, a, exp, reuse, brief(gs))
            c.count('announced_' + a.replace('-', '_'))
            if a == 'close':
                if not conn.at_eof(10):
                    return 'not-closed', 'said close but the connection stayed open or carried more data %r; %r' % (conn.buf[:100], brief(gs))
                c.count('closes_verified')
                return None
            if idle:
                time.sleep(0.05)
        try:
            conn.fill(0.05)
        except socket.timeout:
            pass
        if conn.eof or conn.buf:
            return 'closed-after-keepalive', 'said keep-alive but then EOF=%s data=%r; %r' % (conn.eof, conn.buf[:60], brief(gs))
        conn.send(srv.req('GET', '/echo/final', [('Connection', 'close')]))
        r = conn.response()
        if r is None or r.code != 200:
            return 'closed-after-keepalive', 'final request on a kept-alive connection was not served; %r' % brief(gs)
        if not conn.at_eof(10):
            return 'not-closed', 'final close not performed; %r' % brief(gs)
        c.count('keepalive_verified')
    except socket.timeout as e:
        return 'timeout', '%s; %r' % (e, brief(gs))
    except (OSError, srv.BadResponse) as e:
        return 'framing', '%r; %r' % (e, brief(gs))
    finally:
        conn.close()
    return None


def malformed(c, rng, port):
    """Error responses produced by the server itself must also perform what they announce."""
    bad = rng.choice([b'GET\r\n\r\n', b'GET / HTTP/1.1\r\nbroken header\r\n\r\n', b'GET / HTTP/1.1\r\n: x\r\n\r\n',
                      b'GET / HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\n', srv.req('GET', '/ws')])
    conn = srv.Conn(port, timeout=30)
    try:
        for i in range(rng.randrange(0, 3)):
            conn.send(srv.req('GET', '/echo/ok'))
            if conn.response().code != 200:
                return 'framing', 'valid request refused'
            if conn.eof:
                return None
        conn.send(bad)
        r = conn.response()
        if r is None:
            c.count('malformed_closed_silently')
            return None
        if r.get('connection').lower() != 'close':
            return 'error-keepalive', 'error response %d announces %r after %r' % (r.code, r.get('connection'), bad)
        if not conn.at_eof(10):
            return 'not-closed', 'error response said close but the connection stayed open after %r' % bad
        c.count('error_closes_verified')
    except socket.timeout as e:
        return 'timeout', '%s after %r' % (e, bad)
    except (OSError, srv.BadResponse) as e:
        return 'framing', '%r after %r' % (e, bad)
    finally:
        conn.close()
    return None


def quiet(f, *a):
    try:
        f(*a)
    except OSError:
        pass


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'random histories of up to 9 requests with random Connection headers, handler-set Connection headers, failing handlers, HEAD and large responses, sequential or pipelined, for both reuse settings; non-trivial: distinct histories followed to their end'
    for reuse in (1, 0):
        s = srv.Server(exe, reuse=reuse, rxto=60000, txto=60000)
        n = c.scale(1200, 12000) if reuse else c.scale(250, 2500)

        def one(i):
            key = 'c03/%d/%d/%d' % (c.seed, reuse, i)
            rng = random.Random(key)
            f = (lambda r: malformed(c, r, s.port)) if reuse and i % 10 == 9 else (lambda r: conversation(c, r, s.port, reuse))
            res = f(rng)
            if res and res[0] == 'timeout':
                res = f(random.Random(key))
            if res:
                c.violation('persistence:' + res[0], res[1], history=key)
            c.case(key, sample=key)
            return bool(res)
        parallel(c, range(n), one, alive=s.alive)
        s.stop(c)
    if not c.viol:
        for k in ('closes_verified', 'keepalive_verified', 'error_closes_verified', 'announced_keep_alive'):
            c.require(k, 30)
