"""Generator of well-formed HTTP/1.1 requests together with what the handler must see."""
import string
from .srv import req

TOKEN = string.ascii_letters + string.digits + "!#$%&'*+-.^_`|~"
PATHCH = string.ascii_letters + string.digits + "-._~!$&'()*+,;=:@%/"
QKEY = string.ascii_letters + string.digits + "-._~!$'()*+,;:@/%[]"
QVAL = QKEY + '?='
HVAL = ''.join(chr(c) for c in range(0x21, 0x7f)) + ' \t' + ''.join(chr(c) for c in range(0xa0, 0x100))
METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'TRACE', 'CONNECT']
# names with a meaning to the server itself are set deliberately, never at random
RESERVED = {'content-length', 'transfer-encoding', 'connection', 'host', 'authorization', 'upgrade', 'accept-encoding', 'expect'}


class Req:
    pass


def rand_body(rng, maxsize):
    k = rng.random()
    if k < 0.35:
        return None
    if k < 0.40:
        return b''
    n = rng.choice([1, 2, 3, 10, 100, 1000, 2047, 2048, 2049, 4096, 5000, rng.randrange(1, 70000), rng.randrange(1, 300000)])
    n = min(n, maxsize)
    t = rng.random()
    if t < 0.3:
        return bytes(rng.getrandbits(8) for _ in range(min(n, 3000)))
    if t < 0.55:
        # looks like protocol text: the delimiter itself, complete requests, numbers
        unit = rng.choice([b'\r\n\r\n', b'GET / HTTP/1.1\r\nHost: x\r\n\r\n', b'\r\n', b'0\r\n\r\n', b'POST /echo/evil HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc'])
        return (unit * (n // len(unit) + 1))[:n]
    if t < 0.65:
        return b'\0' * n
    return rng.randbytes(n)


def gen_request(rng, prefix='/echo', maxbody=300000, tag=None, methods=METHODS, plain_header=False):
    r = Req()
    r.method = rng.choice(methods)
    path = prefix
    for _ in range(rng.randrange(0, 4)):
        path += '/' + ''.join(rng.choice(PATHCH) for _ in range(rng.choice([0, 1, 3, 8, 20])))
    if rng.random() < 0.03:
        path += '/' + 'p' * rng.choice([500, 1500, 2040, 2048, 4000])
    r.path = path
    q = []
    seen = set()
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])):
        k = ''.join(rng.choice(QKEY) for _ in range(rng.choice([1, 2, 5, 12])))
        if k.lower() in seen:
            continue
        seen.add(k.lower())
        q.append((k, ''.join(rng.choice(QVAL) for _ in range(rng.choice([1, 2, 5, 30])))))
    if tag is not None:
        q.append(('reqtag', tag))
    r.query = q
    target = path + ('?' + '&'.join(k + '=' + v for k, v in q) if q else '')
    # a fragment is no part of either
    if rng.random() < 0.06:
        fragment = '#' + ''.join(rng.choice(QVAL + '#/=&?') for _ in range(rng.choice([0, 1, 5, 30])))
        target += fragment if q else fragment.replace('?', '')
    r.target = target
    headers = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 12]) if not plain_header else 0):
        name = ''.join(rng.choice(TOKEN) for _ in range(rng.choice([1, 2, 6, 15])))
        if rng.random() < 0.25:
            name = rng.choice(['X-A', 'x-a', 'Cookie', 'Accept', 'ACCEPT', 'User-Agent', 'X-Request-Id', 'Date', 'Server', 'Content-Type', 'Origin'])
        if name.lower() in RESERVED:
            continue
        ln = rng.choice([1, 1, 5, 20, 60]) if rng.random() > 0.02 else rng.choice([1000, 2000, 2048, 5000])
        v = ''.join(rng.choice(HVAL) for _ in range(ln)).strip(' \t')
        if not v:
            v = 'v'
        headers.append((name, v))
    r.headers = headers
    r.body = rand_body(rng, maxbody)
    return r


def wire(rng, r, extra=(), host='localhost'):
    """Serialises with varied legal whitespace and header-name case."""
    lines = [r.method + ' ' + r.target + ' HTTP/1.1']
    hs = list(r.headers) + list(extra)
    if host is not None:
        hs.insert(rng.randrange(len(hs) + 1), ('Host', host))
    if r.body is not None:
        hs.insert(rng.randrange(len(hs) + 1), (rng.choice(['Content-Length', 'content-length', 'CONTENT-LENGTH', 'Content-length']), str(len(r.body))))
    for k, v in hs:
        pre = rng.choice(['', ' ', ' ', ' ', '  ', '\t', ' \t '])
        post = rng.choice(['', '', '', ' ', '\t'])
        lines.append(k + ':' + pre + v + post)
    r.host = host
    r.all_headers = hs
    return ('\r\n'.join(lines) + '\r\n\r\n').encode('latin1') + (r.body or b'')


def compare_echo(e, r):
    """Returns None if the handler saw exactly request r, else (key, description)."""
    if e.method != r.method:
        return 'method', 'method %r seen as %r' % (r.method, e.method)
    if e.path != r.path.encode('latin1'):
        return 'path', 'path %r seen as %r' % (r.path[:200], e.path[:200])
    want = sorted((k.lower().encode('latin1'), v.encode('latin1')) for k, v in r.query)
    if sorted(e.q) != want:
        return 'query', 'query %r seen as %r' % (want, sorted(e.q))
    ws, gs = {}, {}
    for k, v in r.all_headers:
        ws.setdefault(k.lower().encode('latin1'), []).append(v.encode('latin1'))
    for k, v in e.h:
        gs.setdefault(k, []).append(v)
    if ws != gs:
        diff = [(k, ws.get(k), gs.get(k)) for k in sorted(set(ws) | set(gs)) if ws.get(k) != gs.get(k)]
        return 'headers', 'headers differ (name, sent, seen): %r' % (diff[:3],)
    b = r.body or b''
    if e.blen != len(b) or e.body != b:
        return 'body', 'body of %d bytes seen as %d bytes%s' % (len(b), len(e.body), '' if len(b) != len(e.body) else ' with different content')
    return None


def cuts_for(rng, data, marks):
    """Random segmentation, biased to borders of interest."""
    n = len(data)
    k = rng.random()
    if k < 0.15 or n < 2:
        return []
    if k < 0.30:
        return [rng.randrange(1, n)]
    if k < 0.60:
        c = []
        for m in marks:
            for d in (-3, -2, -1, 0, 1, 2):
                if 0 < m + d < n and rng.random() < 0.35:
                    c.append(m + d)
        return c[:40] or [n // 2]
    if k < 0.75 and n < 400:
        return list(range(1, n))
    if k < 0.9:
        return [rng.randrange(1, n) for _ in range(rng.randrange(2, 12))]
    step = rng.choice([2048, 2047, 4096, 1000, 7777])
    return list(range(step, n, step))[:60]
