"""C02: what arrives at the client equals what the handler returned."""
import random, re, socket, string, threading
from vlib import build, srv, codecs
from vlib.common import show
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: response specs executed by the live server, wire-level response oracle with independent decoders, ASan+UBSan'
NOTE = ('Exploration over random response specs x request histories x configurations; every response is parsed strictly and compared. '
        'Trusts the harness handler, Python zlib and the system brotli decoder.')

OWNED = {'date', 'server', 'x-request-id', 'content-length', 'connection', 'content-encoding', 'content-type'}
TYPES = [None, 'text/plain', 'text/html; charset=utf-8', 'application/json', 'application/xml', 'TEXT/CSS', 'application/javascript',
         'image/png', 'application/octet-stream', 'video/mp4', 'font/woff2']
COMPRESSIBLE = ('text', 'html', 'json', 'xml', 'javascript')
ACCEPT = [None, None, 'gzip', 'br', 'deflate', 'gzip, deflate, br', 'gzip, deflate', 'deflate, gzip', 'identity', 'gzip,deflate', 'br;q=0.5, gzip', 'br;q=0', 'compress, x-foo',
          'gzip;q=0, deflate;q=0', 'zstd', 'gzipx', 'xbr, foo']
CODES = [100, 102, 200, 200, 200, 201, 202, 204, 206, 301, 302, 304, 400, 401, 403, 404, 405, 418, 429, 500, 501, 503]
COMMON = ['Vary', 'ETag', 'Last-Modified', 'Cache-Control', 'Location', 'Set-Cookie', 'WWW-Authenticate', 'Content-Language', 'Content-Disposition', 'Accept-Ranges',
          'Retry-After', 'Allow', 'Access-Control-Allow-Origin', 'Strict-Transport-Security', 'Link', 'Age', 'Expires', 'Pragma', 'Via', 'Trailer', 'Content-Range', 'Transfer-Info', 'Keep-Alive', 'Upgrade-Info', 'Host', 'Accept-Encoding']
HV = ''.join(chr(c) for c in range(0x21, 0x7f)) + ' '


def listed(accept):
    out = set()
    for part in (accept or '').split(','):
        t = part.strip().split(';')
        q = [p.strip() for p in t[1:] if p.strip().startswith('q=')]
        if q and float(q[0][2:]) == 0:
            continue
        out.add(t[0].strip().lower())
    return out


def plain_list(accept):
    return set(accept.split(', ')) if accept and re.fullmatch(r'[a-z]+(, [a-z]+)*', accept) else set()


def gen_body(rng):
    k = rng.random()
    n = rng.choice([0, 1, 2, 50, 1000, 16384, rng.randrange(1, 60000)])
    if rng.random() < 0.01:
        n = rng.randrange(1 << 20, 5 << 20)
    if k < 0.4:
        return (b'<p>The quick brown fox %d</p>\r\n' % rng.randrange(1000) * (n // 20 + 1))[:n]
    if k < 0.7:
        return rng.randbytes(n)
    if k < 0.8:
        return b'\0' * n
    return (b'HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n' * (n // 30 + 1))[:n]


def gen(rng):
    g = {}
    g['method'] = rng.choice(['GET', 'POST', 'POST', 'PUT', 'HEAD', 'DELETE', 'PATCH'])
    g['kind'] = rng.choice(['full', 'full', 'full', 'assign', 'string', 'bytes', 'cstr', 'body', 'status', 'statushdr', 'statusbody'])
    g['code'] = rng.choice(CODES)
    g['text'] = None
    if rng.random() < 0.15:
        g['code'] = rng.choice([200, 299, 499, 599, 250])
        g['text'] = ''.join(rng.choice(string.ascii_letters + ' -') for _ in range(rng.randrange(1, 15))).strip() or 'X'
    g['body'] = gen_body(rng)
    g['ctype'] = rng.choice(TYPES)
    g['cenc'] = None
    if rng.random() < 0.08:
        g['cenc'] = rng.choice(['gzip', 'br', 'x-custom'])
    hs, ap = [], []
    names = set()
    for _ in range(rng.choice([0, 1, 2, 6])):
        nme = 'X-' + ''.join(rng.choice(string.ascii_letters + string.digits + '-_') for _ in range(rng.randrange(1, 12)))
        if rng.random() < 0.4:
            nme = rng.choice(COMMON)
        if nme.lower() in OWNED or nme.lower() in names:
            continue
        names.add(nme.lower())
        val = ''.join(rng.choice(HV) for _ in range(rng.choice([0, 1, 5, 40, 300]))).strip()
        if rng.random() < 0.7:
            hs.append((nme, val))
        else:
            for j in range(rng.randrange(1, 4)):
                ap.append((nme, val + str(j)))
    g['headers'], g['append'] = hs, ap
    # what belongs to the server stays the server's
    g['owned'] = [(rng.choice([o, o.title(), o.upper()]), v) for o, v in (('content-length', rng.choice(['0', '5', '100000', 'x'])), ('date', 'never'), ('server', 'other'), ('x-request-id', 'forged'))
                  if rng.random() < 0.06]
    g['accept'] = rng.choice(ACCEPT)
    if g['kind'] == 'cstr':
        g['body'] = g['body'].split(b'\0')[0]
    return g


def bodiless(g):
    """The answer ends with its header whatever the handler put into it (RFC 9110 15.3.5, 15.4.5)."""
    return g['method'] == 'HEAD' or ((g['code'] < 200 or g['code'] in (204, 304)) and g['kind'] not in ('string', 'cstr', 'body', 'bytes'))


def request_of(g):
    hs = list(g['headers']) + g['owned']
    if g['ctype']:
        hs.append(('Content-Type', g['ctype']))
    if g['cenc']:
        hs.append(('Content-Encoding', g['cenc']))
    sp = srv.spec(g['code'], g['text'], hs, g['body'], g['kind'], append=g['append'])
    rh = [('Accept-Encoding', g['accept'])] if g['accept'] else []
    return srv.req(g['method'], '/resp', rh, sp)


def judge(g, r, compress):
    kind = g['kind']
    code, hdrs, body, ctype, cenc, text = g['code'], g['headers'] + g['append'], g['body'], g['ctype'], g['cenc'], g['text']
    if kind in ('string', 'cstr', 'body', 'bytes'):
        code, hdrs, ctype, cenc, text = 200, [], None, None, None
        if kind == 'bytes':
            ctype = 'application/octet-stream'
    elif kind == 'status':
        hdrs, ctype, cenc, body = [], None, None, b''
    elif kind == 'statushdr':
        body = b''
    elif kind == 'statusbody':
        hdrs, ctype, cenc = [], None, None
    if r.code != code:
        return 'status', 'status %d arrived as %d' % (code, r.code)
    if text is not None and r.text != text:
        return 'status-text', 'status text %r arrived as %r' % (text, r.text)
    want, got = {}, {}
    for k, v in hdrs:
        want.setdefault(k.lower(), []).append(v)
    for k, v in r.headers:
        if k not in OWNED:
            got.setdefault(k, []).append(v)
    if want != got:
        return 'headers', 'handler headers %r arrived as %r' % (want, got)
    ct = r.all('content-type')
    if ctype is not None and ct != [ctype]:
        return 'content-type', 'content type %r arrived as %r' % (ctype, ct)
    for one in ('content-length', 'x-request-id', 'connection', 'date', 'server'):
        if len(r.all(one)) != 1 and not (one == 'content-length' and (r.code < 200 or r.code == 204) and not r.all(one)):
            return 'header-missing', '%s appears %d times' % (one, len(r.all(one)))
    if r.get('date') == 'never' or r.get('x-request-id') == 'forged':
        return 'owned-header', 'the handler value of a header that the server owns arrived: date %r, x-request-id %r' % (r.get('date'), r.get('x-request-id'))
    ce = r.all('content-encoding')
    if len(ce) > 1:
        return 'content-encoding', 'content-encoding repeated: %r' % ce
    ce = ce[0] if ce else None
    if bodiless(g):
        return None
    applied = None
    if cenc is not None:
        if ce != cenc:
            return 'content-encoding', 'handler-set content-encoding %r arrived as %r' % (cenc, ce)
    elif ce is not None:
        applied = ce
        if not compress:
            return 'compress-disabled', 'content-encoding %r although compression is disabled' % ce
        if ce not in listed(g['accept']):
            return 'unaccepted-encoding', 'content-encoding %r but this request accepts %r' % (ce, g['accept'])
        if ctype is not None and not any(t in ctype.lower() for t in COMPRESSIBLE):
            return 'compress-type', 'content type %r was compressed' % ctype
    if applied:
        dec, why = codecs.decode(applied, r.body)
        if dec is None:
            return 'undecodable', '%s body does not decode: %s' % (applied, why)
    else:
        dec = r.body
        if compress and cenc is None and body and (plain_list(g['accept']) & {'br', 'gzip', 'deflate'}) and \
                (ctype is None or any(t in ctype.lower() for t in COMPRESSIBLE)):
            return 'not-compressed', 'textual body of %d bytes not compressed though the request accepts %r' % (len(body), g['accept'])
    if dec != body:
        return 'body', 'body of %d bytes arrived as %d bytes%s: %s' % (len(body), len(dec), ' (content differs)' if len(dec) == len(body) else '', show(dec[:100]))
    return None


def conversation(c, rng, port, compress):
    n = rng.choice([1, 2, 4, 10])
    gs = [gen(rng) for _ in range(n)]
    pipe = rng.random() < 0.4
    conn = srv.Conn(port, timeout=40)
    try:
        if pipe:
            data = b''.join(request_of(g) for g in gs)
            t = threading.Thread(target=lambda: _quiet(conn.send, data))
            t.start()
        for i, g in enumerate(gs):
            if not pipe:
                conn.send(request_of(g))
            head = g['method'] == 'HEAD'
            r = conn.response(head=bodiless(g), timeout=40)
            if r is None:
                return 'closed', 'connection closed instead of response %d to %r' % (i, brief(g)), gs
            d = judge(g, r, compress)
            if d:
                return d[0], 'response %d on the connection, spec %r: %s' % (i, brief(g), d[1]), gs
            c.count('responses_checked')
            if g['owned']:
                c.count('handlers_that_set_owned_headers')
            if any(not v for _, v in g['headers'] + g['append']):
                c.count('empty_header_values')
            if r.get('content-encoding'):
                c.count('encoded_' + re.sub('[^a-z]', '', r.get('content-encoding')))
            if head:
                c.count('head_responses')
            elif bodiless(g) and g['body']:
                c.count('bodiless_statuses_with_a_body')
        try:
            conn.fill(0.01)
        except socket.timeout:
            pass
        if conn.buf:
            return 'stray-bytes', 'unexpected bytes after the last response to %r: %s' % (brief(gs[-1]), show(conn.buf)), gs
    except socket.timeout as e:
        return 'timeout', 'no (complete) response: %s; specs %r' % (e, [brief(g) for g in gs]), gs
    except (srv.BadResponse, OSError) as e:
        return 'framing', '%r; specs %r' % (e, [brief(g) for g in gs]), gs
    finally:
        if pipe:
            t.join(5)
        conn.close()
    return None


def _quiet(f, *a):
    try:
        f(*a)
    except OSError:
        pass


def brief(g):
    return {k: (v if k != 'body' else len(v)) for k, v in g.items() if k in ('method', 'kind', 'code', 'ctype', 'cenc', 'accept', 'body', 'owned')}


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'random response specs (all construction forms, statuses, header sets, bodies up to 5 MB) on keep-alive connections with varying Accept-Encoding; non-trivial: distinct conversations fully compared'
    total = c.scale(900, 9000)
    for compress in (1, 0):
        s = srv.Server(exe, compress=compress, seed=c.seed, rxto=60000, txto=60000)
        n = total if compress else total // 5

        def one(i):
            key = 'c02/%d/%d/%d' % (c.seed, compress, i)
            res = conversation(c, random.Random(key), s.port, compress)
            if res and res[0] == 'timeout':
                res = conversation(c, random.Random(key), s.port, compress)
            if res:
                c.violation('response:' + res[0], res[1], conversation=key)
                c.case()
            else:
                c.case(key, sample=key)
            return bool(res)
        parallel(c, range(n), one, alive=s.alive)
        s.stop(c)
    if not c.viol:
        for k in ('responses_checked', 'encoded_br', 'encoded_gzip', 'encoded_deflate', 'head_responses', 'bodiless_statuses_with_a_body', 'handlers_that_set_owned_headers', 'empty_header_values'):
            c.require(k, 20)
