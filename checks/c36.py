"""C36: basic credentials."""
import base64, random
from vlib import build, pure, srv, common
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: generated Authorization values parsed by the library built with ASan+UBSan, and sent to the live server whose handler reports the request URL it saw; compared with the credentials they were made from'
NOTE = 'The scheme name is case-insensitive. Base64 without padding or with non-zero padding bits, are not judged. The empty user name with an empty password is covered by direct calls only, as the request URL cannot tell it from none.'


def rtext(rng, colon):
    alpha = rng.choice(['abcXYZ019', 'abc:@/?#%=&+ ', 'é日本🗿', '\x01\x7f\xff', ''.join(chr(x) for x in range(256))])
    s = ''.join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20, 100])))
    return s if colon else s.replace(':', '')


def cred(rng):
    enc = rng.choice(['utf8', 'utf8', 'latin1'])
    u, p = rtext(rng, False), rtext(rng, True)
    if p and rng.random() < 0.3:
        p = rng.choice([':' + p, p + ':', '::', p + ':' + p])
    return u.encode(enc, 'ignore'), p.encode(enc, 'ignore')


def scheme(rng):
    return rng.choice(['Basic', 'Basic', 'basic', 'BASIC', 'bAsIc', 'Basic ', 'basic  '])


def other(rng):
    """An Authorization value that carries no basic credentials."""
    u, p = cred(rng)
    b = base64.b64encode(u + b':' + p).decode()
    nocolon = base64.b64encode((u + b'x').replace(b':', b'')).decode()
    return rng.choice([
        'Bearer ' + b, 'Digest username="a"', 'Basi ' + b, 'Basicx ' + b, 'Basic', 'Basic' + b, 'basic=' + b, 'Negotiate ' + b, b, 'xBasic ' + b, 'Bearer Basic ' + b, 'Basic:' + b,
        'Basic ' + nocolon, 'Basic ' + nocolon, 'Basic ' + b + '*', 'Basic *' + b, 'Basic ' + b[:2] + '-' + b[2:], 'Basic ' + b[:3] + '%' + b[3:], 'Basic ' + b[:1] + ' ' + b[1:], 'Basic ' + b + ' realm', 'Basic A', 'Basic =', 'Basic ==', 'Basic ====', 'Basic =' + b,
        'Basic ' + b[:4] + '=' + b[4:] if len(b) > 4 and not b.endswith('==') else 'Basic !', 'Basic ' + b.rstrip('=') + '===' , 'Basic user:password', 'Basic é', 'Basic \t~', '=', ',', '  '.strip() or '-', 'Basic ' + 'A' * rng.choice([1, 5, 9, 4001])])


def run(c):
    exes = build.build('asan', ['pure', 'server'])
    c.rule = 'an Authorization value that carries credentials, or one that must not give any, identified by its text'
    calls = []
    for i in range(c.scale(10000, 150000)):
        rng = random.Random('%s/%d' % (c.seed, i))
        if rng.random() < 0.6:
            u, p = cred(rng)
            calls.append((['auth', scheme(rng) + ' ' + base64.b64encode(u + b':' + p).decode()], (u, p)))
        else:
            calls.append((['auth', other(rng)], 'none'))
    for i in range(c.scale(6000, 100000)):
        rng = random.Random('%s/j%d' % (c.seed, i))
        s = bytearray((scheme(rng) + rng.choice([' ', '', '  ', '\t', '\0']) + base64.b64encode(b':'.join(cred(rng))).decode()).encode())
        for _ in range(rng.randrange(1, 4)):
            k = rng.randrange(len(s) + 1)
            s[k:k + rng.randrange(3)] = rng.randbytes(rng.randrange(3))
        calls.append((['auth', bytes(s)], 'any'))

    def judge(args, r, x):
        if r[0] != b'K':
            c.violation('exception', '%s threw %r' % (common.show(args), r[1:]))
            return
        if x == 'any':
            c.count('arbitrary')
            c.case()
            return
        c.case(args[1], args[1][:80])
        c.count('none' if x == 'none' else 'credentials')
        want = [b'0'] if x == 'none' else [b'1', x[0], x[1]]
        if r[1:] != want:
            c.violation('value:' + ('none' if x == 'none' else 'credentials'), '%s gave %r instead of %r' % (common.show(args), r[1:], want))
    pure.run(c, exes['pure'], calls, judge)
    s = srv.Server(exes['server'], maxconn=200)

    def one(i):
        rng = random.Random('%s/s%d' % (c.seed, i))
        conn = srv.Conn(s.port)
        try:
            for _ in range(8):
                body = rng.randbytes(20)
                want = (b'', b'')
                hs = [('X-Other', 'kept')]
                k = rng.random()
                if k < 0.55:
                    want = cred(rng)
                    hs.append(('Authorization', scheme(rng) + ' ' + base64.b64encode(want[0] + b':' + want[1]).decode()))
                elif k < 0.9:
                    hs.append((rng.choice(['Authorization', 'AUTHORIZATION']), other(rng).encode('utf8')))
                rng.shuffle(hs)
                conn.send(srv.req('POST', '/echo/auth?q=1', hs, body))
                r = conn.response()
                if r is None or r.code != 200:
                    c.violation('http:disturbed', 'request with %r got %s' % (hs, r and r.code))
                    return True
                e = srv.Echo(r.body)
                c.count('http_requests')
                c.case('http' + repr(hs))
                if (e.user, e.password) != want:
                    c.violation('http:credentials', 'request with %r was seen with credentials %r instead of %r' % (hs, (e.user, e.password), want))
                    return True
                if e.body != body or e.path != b'/echo/auth' or e.q != [(b'q', b'1')] or (b'x-other', b'kept') not in e.h:
                    c.violation('http:request', 'request with %r was changed: %r' % (hs, (e.path, e.q, e.body)))
                    return True
        except (srv.BadResponse, OSError) as ex:
            c.violation('http:response', repr(ex))
            return True
        finally:
            conn.close()
    parallel(c, range(c.scale(120, 2000)), one, 8, s.alive)
    s.stop(c, what='authorization')
    c.require('credentials', 3000)
    c.require('none', 2000)
    if not c.viol:
        c.require('http_requests', 800)
