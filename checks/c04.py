"""C04: hostile byte streams and disconnects against the ASan/UBSan server."""
import base64, random, socket, threading, time
from vlib import build, srv, httpgen
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: mutation-based hostile HTTP streams, disconnects and resets against the ASan+UBSan-instrumented server; monitors for sanitizer reports, process death, stuck workers, wrong canary answers and handler calls for malformed requests'
NOTE = 'Exploration of generated and mutated streams only. Memory errors are observed by ASan/UBSan/libstdc++ assertions; a hang is a worker still busy well after its connection is gone.'

HOST = b'Host: x\r\n'


def definitely_malformed(rng, tag):
    """Streams that contain no valid request at all: the handler must never see them."""
    p = b'/echo/bad/' + tag
    return rng.choice([
        b'GET\r\n\r\n',
        p + b'\r\n\r\n',
        b'GET ' + p + b' HTTP/1.1\r\nno colon here\r\n\r\n',
        b'GET ' + p + b' HTTP/1.1\r\n: value\r\n\r\n',
        b'GET ' + p + b' HTTP/1.1\r\n   : value\r\n\r\n',
        b'GET ' + p + b' HTTP/1.1\r\n' + HOST,                                  # header never finished
        b'GET ' + p + b' HTTP/1.1\r\n' + HOST + b'\r',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: 10\r\n\r\n12345',            # body never finished
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: abc\r\n\r\n',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: 5abc\r\n\r\n12345',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: 5, 6\r\n\r\n123456',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: 0x5\r\n\r\n12345',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\n123456',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: -5\r\n\r\n',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: 99999999999999999999999999\r\n\r\n',
        b'POST ' + p + b' HTTP/1.1\r\nContent-Length: 18446744073709551615\r\n\r\n',
        b'BREW ' + p + b' HTTP/1.1\r\n' + HOST + b'\r\n',                       # unknown method
        b'get ' + p + b' HTTP/1.1\r\n\r\n' if False else b'G\0T ' + p + b' HTTP/1.1\r\n\r\n',
        b'\r\n\r\n',
        b' \r\n\r\n',
        b'\0' * rng.randrange(1, 5000),
        # the bytes of a chunked body are no request of their own
        b'POST /echo/te HTTP/1.1\r\n' + HOST + b'Transfer-Encoding: ' + rng.choice([b'chunked', b'Chunked', b'gzip, chunked']) + b'\r\n\r\n' +
        rng.choice([b'', b'%x\r\n' % (len(p) + 17)]) + b'GET ' + p + b' HTTP/1.1\r\n\r\n\r\n0\r\n\r\n',
    ])


AUTH = [b'Basic', b'Basic ', b'basic =', b'Basic A', b'Basic AA', b'Basic AAA', b'Basic AAAA', b'Basic ====', b'Basic \xff\xfe', b'Basic YTpi', b'Basic Og==',
        b'Bearer basic x', b'Basic  ', b'Basic ' + b'A' * 5001, b'Basic ' + b'QUFB' * 700 + b'Q']


def weird(rng, tag):
    """Valid start lines with odd but bounded contents: may be served or refused."""
    k = rng.randrange(9)
    t = b'/echo/odd/' + tag
    if k == 0:
        return b'GET ' + t + b'?' + bytes(rng.choice(b'%=&?#abcA1 ;+\xff') for _ in range(rng.randrange(0, 60))).replace(b' ', b'+') + b' HTTP/1.1\r\n\r\n'
    if k == 1:
        return b'GET ' + t + b' HTTP/1.1\r\nAuthorization: ' + rng.choice(AUTH) + b'\r\n\r\n'
    if k == 2:
        return b'GET ' + t + b' HTTP/1.1\r\nAuthorization: Basic ' + bytes(rng.choice(b'ABCDabcd0123+/=-_ \x80') for _ in range(rng.randrange(0, 40))) + b'\r\n\r\n'
    if k == 3:
        return b'GET ' + t + b' HTTP/1.1\r\n' + b''.join(b'X-%d:%s\r\n' % (i, b' ' * rng.randrange(4)) for i in range(rng.randrange(0, 300))) + b'\r\n'
    if k == 4:
        return b'GET ' + t + b' HTTP/1.1\r\nHost:' + rng.choice([b'', b':', b'a:', b':80', b'a:b:c', b'[::1]:80', b'\xff']) + b'\r\n\r\n'
    if k == 5:
        return b'GET ' + t + b' HTTP/1.1\r\nAccept-Encoding: ' + rng.choice([b',', b', ', b'gzip,', b', gzip', b'br' * 500, b'*;q=0']) + b'\r\nConnection: ' + rng.choice([b'', b',', b'keep-alive, close', b'\0']) + b'\r\n\r\n'
    if k == 6:
        return b'GET ' + rng.choice([b'?', b'#', b'', b'*', b'?a=b', b'#a?b=c', b'http://h/p?q=1#f', b'//', b'/%', b'/%zz%']) + b' HTTP/1.1\r\n\r\n'
    if k == 7:
        return b'GET ' + t + b' HTTP/1.1\r\nCookie: ' + bytes(rng.choice(b'=;, ab"\0') for _ in range(rng.randrange(0, 50))) + b'\r\n\r\n'
    return b'HEAD ' + t + b' HTTP/1.1\r\nUpgrade: websocket\r\nSec-WebSocket-Key: \r\n\r\n'


def mutate(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4, 10])):
        if not d:
            break
        # mostly within the header area
        lim = min(len(d), 400)
        i = rng.randrange(lim)
        k = rng.randrange(8)
        if k == 0:
            d[i] = rng.getrandbits(8)
        elif k == 1:
            del d[i:i + rng.choice([1, 2, 5, 50])]
        elif k == 2:
            d[i:i] = bytes([rng.choice(b'\r\n :\0?&=%#\t,;\xff')]) * rng.choice([1, 2, 3, 40])
        elif k == 3:
            j = rng.randrange(lim)
            d[i:i] = d[j:j + rng.randrange(1, 60)]
        elif k == 4:
            del d[rng.randrange(len(d)):]
        elif k == 5:
            d[i] ^= 1 << rng.randrange(8)
        elif k == 6:
            d[i:i] = rng.choice([b'\r\n\r\n', b'\n\n', b'\r\n', b'HTTP/1.1', b'Content-Length: 7\r\n', b'Connection: close\r\n', b'Authorization: Basic A\r\n', b'A' * 5000])
        else:
            d[i:i] = rng.randbytes(rng.randrange(1, 40))
    return bytes(d)


def stream(rng, tag):
    k = rng.random()
    if k < 0.25:
        return 'malformed', definitely_malformed(rng, tag)
    if k < 0.30:
        return 'random', rng.randbytes(rng.choice([1, 4, 50, 3000, 20000]))
    if k < 0.50:
        return 'weird', weird(rng, tag)
    if k < 0.58:
        return 'bigresp', srv.req('GET', '/big?size=%d&seed=1' % rng.choice([1000000, 8000000]))
    out = b''
    for i in range(rng.choice([1, 1, 2, 3])):
        r = httpgen.gen_request(rng, '/echo/m', maxbody=3000)
        out += httpgen.wire(rng, r, extra=[('Authorization', 'Basic ' + base64.b64encode(rng.randbytes(rng.randrange(0, 20))).decode())] if rng.random() < 0.3 else [])
    return 'mutated', mutate(rng, out)


def attack(c, rng, port, tag):
    kind, data = stream(rng, tag.encode())
    conn = srv.Conn(port, timeout=10)
    try:
        cuts = httpgen.cuts_for(rng, data, [0, len(data) // 2]) if len(data) > 1 and rng.random() < 0.5 else []
        conn.send_pieces(data, cuts[:30], 0.0003 if rng.random() < 0.2 else 0)
        end = rng.random()
        if kind == 'bigresp':
            try:
                conn.s.settimeout(2)
                conn.s.recv(rng.choice([1, 100, 70000]))
            except OSError:
                pass
            (conn.rst if end < 0.5 else conn.close)()
            c.count('disconnects_while_writing')
            return kind
        if end < 0.2:
            conn.rst()
            c.count('resets')
        elif end < 0.4:
            conn.close()
            c.count('disconnects')
        elif end < 0.6:
            conn.s.shutdown(socket.SHUT_WR)
            conn.read_all(5)
            c.count('half_closes')
        else:
            conn.s.settimeout(0.12)
            try:
                while conn.fill():
                    pass
            except socket.timeout:
                pass
            for part in conn.buf.split(b'HTTP/1.1 ')[1:]:
                c.count('status_%sxx' % part[:1].decode('latin1'))
    except OSError:
        pass
    finally:
        conn.close()
    return kind


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'streams: known-malformed, random bytes, odd header values, mutations of generated valid requests, large responses abandoned mid-write; random segmentation; ended by reading, close, half-close or reset; a canary request on another connection after every 25 streams; non-trivial: distinct hostile streams delivered'
    for mode in ('threadlist', 'detached'):
        n = c.scale(4000, 60000) if mode == 'threadlist' else c.scale(1200, 15000)
        s = srv.Server(exe, rxto=2000, txto=2000, threadlist=int(mode == 'threadlist'), maxconn=5000, errtype='html' if mode == 'threadlist' else 'json', logreq=int(mode == 'detached'), logtransport=int(mode == 'detached'))
        base = s.stat()

        def one(i):
            if not s.alive():
                return True
            tag = '%s%d' % (mode[0], i)
            key = 'c04/%d/%s' % (c.seed, tag)
            kind = attack(c, random.Random(key), s.port, tag)
            c.count('streams_' + kind)
            c.case(key, sample=key)
            if i % 25 == 0:
                w = srv.canary(s.port, tag)
                if w and s.alive():
                    w = srv.canary(s.port, tag)
                if w:
                    if s.alive():
                        c.violation('canary', 'a valid request on another connection was not served correctly during hostile traffic: ' + w, near=key)
                    return True
                c.count('canaries_ok')
            return False
        parallel(c, range(n), one, workers=10, alive=s.alive)
        if s.alive():
            bad = [l for l in s.evs('IN ') if bytes.fromhex(l.split(' ')[5].replace('-', '')).startswith(b'/echo/bad/')]
            if bad:
                c.violation('invented-request', 'the handler was called for a malformed request: %s path %r' % (bad[0], bytes.fromhex(bad[0].split(' ')[5])))
            end = time.time() + 15
            st = s.stat()
            while st and st['active'] and time.time() < end:
                time.sleep(0.2)
                st = s.stat()
            if st and st['active']:
                c.violation('stuck-handler', '%d handler calls still running 15 s after every hostile client is gone' % st['active'])
            # every worker must be gone after its receive timeout
            end = time.time() + 20
            while st and st['threads'] > base['threads'] + 2 and time.time() < end:
                srv.canary(s.port, 'gc')
                time.sleep(0.3)
                st = s.stat()
            if st and st['threads'] > base['threads'] + 2:
                c.violation('stuck-worker', '%d threads (started with %d) 20 s after every hostile client is gone' % (st['threads'], base['threads']))
            w = srv.canary(s.port, 'last')
            if w:
                c.violation('canary', 'valid request not served after hostile traffic: ' + w)
        s.stop(c, what=mode)
    if not c.viol:
        for k, m in (('canaries_ok', 50), ('disconnects_while_writing', 100), ('resets', 100), ('streams_mutated', 500), ('streams_malformed', 300)):
            c.require(k, m)
