"""C33: URLs and query strings."""
import random
from vlib import build, pure, srv, common
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: generated URLs and arbitrary strings through the URL and query parsers built with ASan+UBSan and library assertions, components compared with the parts they were composed from, also after serialising and parsing again; the same for requests seen by the handler of the live server'
NOTE = 'User name and password are given both or not at all, a path starts with a slash, query names and values are non-empty, without surrounding whitespace, and kept verbatim (not percent-decoded), names are unique regardless of case.'

PATHCH = "abcXYZ019-._~!$&'()*+,;=:@%"
QCH = "abcXYZ019-._~!$'()*+,;:@/?%{}|^ \"<>"
FIELDS = ['protocol', 'username', 'password', 'host', 'hostname', 'port', 'pathname', 'hash']


def word(rng, alpha, lo, hi):
    return ''.join(rng.choice(alpha) for _ in range(rng.randrange(lo, hi + 1)))


def gen_query(rng):
    q, seen = [], set()
    for _ in range(rng.choice([0, 0, 1, 2, 3, 8])):
        k = word(rng, QCH.replace(' ', '') + 'é', 1, 8)
        v = word(rng, QCH + '=é', 1, 12).strip() or 'v'
        if '=' in k or k.lower() in seen or not k.strip():
            continue
        seen.add(k.lower())
        q.append((k, v))
    return q


def lower(s):
    return ''.join(chr(ord(x) + 32) if 'A' <= x <= 'Z' else x for x in s)


def gen_host(rng):
    host = rng.choice(['example.com', 'localhost', 'a', '127.0.0.1', 'sub.domain-1.co.uk', 'UPPER.Case', 'xn--bcher-kva.ch', word(rng, 'abc.-09', 1, 40), '[::1]', '[2001:db8::ff00:42:8329]', '[::ffff:1.2.3.4]', '[fe80::1%25eth0]'])
    port = rng.choice(['', '', '80', '443', '8080', '65535', '1'])
    return host, port


def gen(rng):
    host, port = gen_host(rng)
    f = dict(protocol=rng.choice(['http', 'https', 'ws', 'wss', 'ftp', 'svn+ssh', 'x', 'HTTP']), username='', password='', hostname=host, port=port, host=host + (':' + port if port else ''), pathname='/', hash='')
    cred = ''
    if rng.random() < 0.4:
        kind = rng.randrange(6)
        if kind != 0:
            f['username'] = word(rng, "abcZ019-._~!$&'()*+,;=%", 1, 10)
        if kind not in (1, 2):
            f['password'] = word(rng, "abcZ019-._~!$&'()*+,;=%:", 1, 10)
        cred = f['username'] + (':' + f['password'] if f['password'] or kind == 2 else '') + '@'
    q = []
    url = f['protocol'] + '://' + cred + f['host']
    if rng.random() < 0.9:
        f['pathname'] = '/' + '/'.join(word(rng, PATHCH + 'é', 0, 8) for _ in range(rng.randrange(0, 5)))
        if rng.random() < 0.1:
            f['pathname'] += rng.choice(['://', '//', '@', ':80', '/..', '/http://x.y/z'])
        q = gen_query(rng)
        url += f['pathname'] + ('?' + '&'.join(k + '=' + v for k, v in q) if q else '')
        if rng.random() < 0.4:
            f['hash'] = '#' + word(rng, QCH + '=&#', 1, 12)
            url += f['hash']
    return url, f, q


def junk(rng):
    pieces = ['http', ':', '//', '://', '/', '@', '?', '#', '&', '=', '[', ']', '%', 'a', 'host', '80', ' ', '\0', '\n', 'é', '::', '[::1', '[]', ']:', 'user:pass@', '?a=b', '#f', '&&', '==', '%zz', '😀', ';', '.']
    k = rng.random()
    if k < 0.15:
        return rng.randbytes(rng.randrange(40))
    if k < 0.3:
        u = bytearray(gen(rng)[0].encode())
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(len(u))
            if rng.random() < 0.5:
                del u[i:i + rng.randrange(1, 6)]
            else:
                u[i:i] = rng.choice(pieces).encode()
            if not u:
                break
        return bytes(u)
    return ''.join(rng.choice(pieces) for _ in range(rng.randrange(12))).encode()


def run(c):
    exes = build.build('asan', ['pure', 'server'])
    c.rule = 'a URL composed of known parts, or a query string, identified by its text'
    calls = []
    for i in range(c.scale(12000, 200000)):
        url, f, q = gen(random.Random('%s/%d' % (c.seed, i)))
        calls.append(([('url', 'urlc', 'urlcopy')[i % 3], url], ('parts', f, q)))
        calls.append((['href', url], ('href', f, q)))
        if i % 4 == 0 and f['hash'] != '#':
            doc = url[len(f['protocol']) + 3:]
            k = doc.find('/')
            if k >= 0:
                calls.append((['url', doc[k:]], ('parts', dict(f, protocol='', username='', password='', host='', hostname='', port=''), q)))
    for i in range(c.scale(4000, 60000)):
        rng = random.Random('%s/q%d' % (c.seed, i))
        q = gen_query(rng)
        s = '&'.join(k + '=' + v for k, v in q)
        if '?' in s or rng.random() < 0.5:
            s = '?' + s
        probes = []
        for k, v in q:
            probes += [k, ''.join(rng.choice([x.lower(), x.upper()]) if x.isascii() else x for x in k)]
        calls.append((['params', s] + probes + ['nope-nope'], ('params', q, probes)))
    for i in range(c.scale(15000, 300000)):
        rng = random.Random('%s/j%d' % (c.seed, i))
        op = rng.choice(['url', 'url', 'urlcopy', 'href', 'params'])
        calls.append(([op, junk(rng)] + (['a', ''] if op == 'params' else []), ('junk',)))
    again = []

    def check_parts(args, got, f, q, key):
        g = [x.decode('utf8', 'surrogateescape') for x in got]
        for n, x in zip(FIELDS, g):
            if x != f[n]:
                c.violation('%s:%s' % (key, n), '%s: %s is %r instead of %r' % (common.show(args), n, x, f[n]))
        gq = sorted(zip(g[8::2], g[9::2]))
        if gq != sorted((lower(k), v) for k, v in q):
            c.violation(key + ':query', '%s: query is %r instead of %r' % (common.show(args), gq, q))

    def judge(args, r, x):
        kind = x[0]
        if kind == 'junk':
            c.count('arbitrary_strings')
            c.case()
            return
        if r[0] != b'K':
            c.violation(kind + ':rejected', '%s was rejected: %r' % (common.show(args), r[1:]))
            return
        c.case(args[0] + str(args[1]), str(args[1]) if kind == 'parts' else None)
        c.count(kind)
        if kind in ('parts', 'again'):
            check_parts(args, r[1:], x[1], x[2], kind)
        elif kind == 'href':
            again.append((['url', r[1]], ('again', x[1], x[2])))
        else:
            q, probes = x[1], x[2]
            text, size = r[1].decode(), int(r[2])
            d = {lower(k): v for k, v in q}
            got = r[3:]
            for p in probes + ['nope-nope']:
                has, val, allv = int(got[0]), got[1].decode(), [y.decode() for y in pure.unpack(got[2])]
                got = got[3:]
                want = d.get(lower(p))
                if has != (want is not None) or val != (want or '') or allv != ([want] if want is not None else []):
                    c.violation('params:lookup', '%s: looking up %r gives has=%d, %r, %r instead of %r' % (common.show(args[:2]), p, has, val, allv, want))
            es = [y.decode() for y in pure.unpack(got[0])]
            if sorted(zip(es[::2], es[1::2])) != sorted(d.items()) or size != len(d):
                c.violation('params:entries', '%s: entries %r, size %d' % (common.show(args[:2]), es, size))
            back = sorted(tuple(y.split('=', 1)) for y in text.split('&')) if text else []
            if back != sorted(d.items()):
                c.violation('params:stringify', '%s serialises to %r' % (common.show(args[:2]), text))
    pure.run(c, exes['pure'], calls, judge)
    nx = list(again)
    again.clear()
    pure.run(c, exes['pure'], nx, judge)
    served(c, exes['server'])
    c.require('parts', 5000)
    c.require('href', 5000)
    c.require('params', 2000)
    c.require('arbitrary_strings', 5000)
    if not c.viol:
        c.require('again', 5000)
        c.require('served', 300)


def served(c, exe):
    """The request URL seen by the handler."""
    s = srv.Server(exe, maxconn=200)

    def one(i):
        rng = random.Random('%s/s%d' % (c.seed, i))
        conn = srv.Conn(s.port)
        try:
            for _ in range(5):
                host, port = gen_host(rng)
                hh = host + (':' + port if port else '')
                path = '/echo/' + word(rng, PATHCH.replace('%', '') + '/', 0, 20)
                q = [(k, v.replace(' ', '_')) for k, v in gen_query(rng)]
                q = [(k.encode().decode('latin1'), v.encode().decode('latin1')) for k, v in q if '#' not in k + v]
                conn.send(srv.req('GET', path + ('?' + '&'.join(k + '=' + v for k, v in q) if q else ''), host=hh))
                r = conn.response()
                if r is None or r.code != 200:
                    c.violation('served:status', 'no good response for path %r host %r: %s' % (path, hh, r and r.code))
                    return True
                e = srv.Echo(r.body)
                got = (e.path.decode('latin1'), e.host.decode('latin1'), e.hostname.decode('latin1'), e.port.decode('latin1'), sorted((k.decode('latin1'), v.decode('latin1')) for k, v in e.q))
                want = (path, hh, host, port, sorted((lower(k), v) for k, v in q))
                c.count('served')
                c.case('served' + repr(want))
                if got != want:
                    c.violation('served:url', 'request %r with Host %r was seen as %r' % (path, hh, got))
                    return True
        except (srv.BadResponse, OSError) as e:
            c.violation('served:response', repr(e))
            return True
        finally:
            conn.close()
    parallel(c, range(c.scale(100, 1500)), one, 8, s.alive)
    s.stop(c, what='urls')
