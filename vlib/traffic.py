"""Concurrent client behaviours used by C07, C08 and C11; every answer is compared with the request it belongs to."""
import random, socket, time
from . import srv, codecs

_big = {}


def big_bytes(seed, n, limit=300000):
    if seed not in _big:
        x, out = (2463534242 + seed) & 0xffffffff, bytearray()
        for _ in range(limit):
            x ^= (x << 13) & 0xffffffff
            x ^= x >> 17
            x ^= (x << 5) & 0xffffffff
            out.append(x & 255)
        _big[seed] = bytes(out)
    return _big[seed][:n]


class Mixed(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Ids:
    """What one connection's answers said about ids; the caller compares across connections."""
    def __init__(self):
        self.ctx, self.pairs = None, []


def check_id(ids, r, e=None):
    x = r.get('x-request-id')
    if len(r.all('x-request-id')) != 1 or len(x) != 17 or x[8] != '-' or any(ch not in '0123456789abcdef' for ch in x[:8] + x[9:]):
        raise Mixed('id-format', 'x-request-id %r is not two 8-digit ids' % r.all('x-request-id'))
    a, b = x.split('-')
    if ids.ctx is None:
        ids.ctx = a
    elif ids.ctx != a:
        raise Mixed('id-connection', 'the connection id changed on one connection: %s then %s' % (ids.ctx, a))
    if e is not None and (e.ctx, e.req) != (a, b):
        raise Mixed('id-mismatch', 'response carries id %s-%s but the handler saw %s-%s' % (a, b, e.ctx, e.req))
    ids.pairs.append((a, b))


def mk(rng, tag, i):
    """One request and its judge (function of the response)."""
    k = rng.choice(['echo', 'echo', 'echo', 'resp', 'resp', 'big', 'throw', 'head', 'sleep'])
    t = '%s.%d' % (tag, i)
    if k in ('echo', 'sleep'):
        body = (t + '|').encode() * rng.choice([0, 1, 7, 300, 3000])
        path = '/echo/' + t if k == 'echo' else '/sleep/' + t
        q = '?tag=' + t + ('&ms=%d' % rng.choice([0, 1, 3, 10]) if k == 'sleep' else '')

        def judge(r, lport, ids):
            if r.code != 200:
                raise Mixed('status', 'status %d for %s' % (r.code, path))
            e = srv.Echo(r.body)
            if e.path.decode('latin1') != path or e.body != body or (b'x-tag', t.encode()) not in e.h or (b'tag', t.encode()) not in e.q:
                raise Mixed('foreign-content', 'asked %s, the handler saw path %r tag %r body %r...' % (path, e.path, [v for n, v in e.h if n == b'x-tag'], e.body[:60]))
            if len([1 for n, v in e.h if n == b'x-tag']) != 1:
                raise Mixed('foreign-content', 'duplicated header seen by the handler for %s' % path)
            if e.rport != lport:
                raise Mixed('foreign-peer', 'handler saw peer port %d, the client uses %d' % (e.rport, lport))
            check_id(ids, r, e)
        return k, srv.req('POST', path + q, [('X-Tag', t)], body), judge
    if k == 'resp':
        body = (t + ' text ').encode() * rng.choice([0, 1, 40, 2000])
        enc = rng.choice(['', 'br', 'gzip', 'deflate', 'gzip, deflate, br'])
        code = rng.choice([200, 201, 404, 500])
        sp = srv.spec(code=code, headers=[('X-Back', t), ('Content-Type', rng.choice(['text/plain', 'application/octet-stream']))], body=body)
        hs = [('X-Tag', t)] + ([('Accept-Encoding', enc)] if enc else [])

        def judge(r, lport, ids):
            if r.code != code or r.all('x-back') != [t]:
                raise Mixed('foreign-response', 'asked for status %d tag %s, got %d %r' % (code, t, r.code, r.all('x-back')))
            got = r.body
            ce = r.get('content-encoding')
            if ce:
                if ce not in enc:
                    raise Mixed('foreign-encoding', 'content-encoding %s for accept-encoding %r' % (ce, enc))
                got, why = codecs.decode(ce, got)
                if got is None:
                    raise Mixed("foreign-encoding", "body of %s does not decode: %s" % (t, why))
            if got != body:
                raise Mixed('foreign-content', 'body of %s differs: %r...' % (t, got[:80] if got else got))
            check_id(ids, r)
        return k, srv.req('POST', '/resp/' + t, hs, sp), judge
    if k == 'big':
        seed, n = rng.randrange(4), rng.choice([1, 5000, 70000, 300000])

        def judge(r, lport, ids):
            if r.code != 200 or r.body != big_bytes(seed, n):
                raise Mixed('foreign-content', 'big body (seed %d, %d bytes) differs: status %d, %d bytes' % (seed, n, r.code, len(r.body)))
            check_id(ids, r)
        return k, srv.req('GET', '/big/%s?size=%d&seed=%d' % (t, n, seed)), judge
    if k == 'throw':
        def judge(r, lport, ids):
            if r.code != 500 or ('failure of ' + t).encode() not in r.body:
                raise Mixed('foreign-content', 'error response for %s: %d %r' % (t, r.code, r.body[:300]))
            check_id(ids, r)
        return k, srv.req('POST', '/throw/x?kind=' + rng.choice(['runtime', 'custom']), [], ('failure of ' + t).encode()), judge

    def judge(r, lport, ids):
        if r.code != 200 or r.body:
            raise Mixed('foreign-content', 'HEAD answered %d with %d body bytes' % (r.code, len(r.body)))
        check_id(ids, r)
    return k, srv.req('HEAD', '/echo/' + t, [('X-Tag', t)]), judge


def own_id(rng, data):
    """Some clients bring ids of their own."""
    if rng.random() > 0.25:
        return data
    i = data.index(b'\r\n') + 2
    return data[:i] + b'X-Request-Id: ' + rng.choice([b'mine', b'', b'00000001-00000001', b'%08x-%08x' % (rng.getrandbits(32), rng.getrandbits(32))]) + b'\r\n' + data[i:]


def client(rng, port, tag, kinds=None, timeout=60):
    """A well-behaved client with several requests; returns (number judged, Ids, kinds used). Raises Mixed."""
    ids = Ids()
    conn = srv.Conn(port, timeout)
    try:
        rs = [mk(rng, tag, i) for i in range(rng.choice([1, 2, 5, 12]))]
        rs = [(k, own_id(rng, d), j) for k, d, j in rs]
        pipe = rng.random() < 0.4 and not any(r[0] == 'big' for r in rs)
        if pipe:
            conn.send(b''.join(r[1] for r in rs))
        for k, data, judge in rs:
            if not pipe:
                if rng.random() < 0.2 and len(data) < 5000:
                    conn.send_pieces(data, [rng.randrange(len(data)) for _ in range(3)], rng.choice([0, 0.001]))
                else:
                    conn.send(data)
            if rng.random() < 0.1:
                time.sleep(rng.random() * 0.02)
            r = conn.response(head=k == 'head', timeout=timeout)
            if r is None:
                raise Mixed('closed', 'connection closed instead of answering')
            judge(r, conn.lport, ids)
        return len(rs), ids, [r[0] for r in rs]
    finally:
        conn.close()


def disturber(rng, port, tag):
    """Misbehaving neighbours: resets, truncated requests, garbage, unread responses."""
    k = rng.choice(['rst-mid-header', 'rst-mid-body', 'rst-mid-response', 'garbage', 'half-close', 'no-data', 'unread'])
    try:
        conn = srv.Conn(port, 10)
        if k == 'rst-mid-header':
            conn.send(b'GET /echo/bad/' + tag.encode() + b' HTTP/1.1\r\nX-A: ')
        elif k == 'rst-mid-body':
            conn.send(b'POST /echo/bad/' + tag.encode() + b' HTTP/1.1\r\nContent-Length: 5000\r\n\r\n' + b'x' * rng.randrange(4000))
        elif k == 'rst-mid-response':
            conn.send(srv.req('GET', '/big/x?size=300000&seed=1'))
            conn.fill(5)
        elif k == 'garbage':
            conn.send(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 400))) + b'\r\n\r\n')
            conn.fill(5)
        elif k == 'half-close':
            conn.send(srv.req('GET', '/echo/half'))
            conn.s.shutdown(socket.SHUT_WR)
            conn.fill(5)
        elif k == 'unread':
            conn.send(srv.req('GET', '/big/x?size=300000&seed=2') * 3)
            time.sleep(0.02)
        if rng.random() < 0.6:
            conn.rst()
        else:
            conn.close()
    except OSError:
        pass
    return k
