"""C12: WebSocket handshake."""
import base64, os, random, socket, string
from vlib import build, srv, ws, httpgen
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: generated handshakes against the live instrumented server, RFC 6455 digest oracle at the client, handler log for switched connections'
NOTE = 'Keys are any non-empty header values without surrounding blanks. Frames sent together with the handshake may be refused with a 400-class answer or delivered, but not lost.'

KEYCH = string.ascii_letters + string.digits + '+/='


def gen_key(rng):
    k = rng.random()
    if k < 0.5:
        return base64.b64encode(bytes(rng.randrange(256) for _ in range(16)))
    if k < 0.8:
        # around the block size of the hash: the digest input is the key plus 36 bytes
        n = rng.choice([1, 2, 18, 19, 20, 27, 28, 29, 82, 83, 84, 91, 92, 93]) if rng.random() < 0.6 else rng.randrange(1, 400)
        return ''.join(rng.choice(KEYCH) for _ in range(n)).encode()
    b = bytes(rng.choice([x for x in range(33, 127)] + [0xe9, 0xff]) for _ in range(rng.randrange(1, 60)))
    return b


def spell(rng, s):
    return ''.join(ch.upper() if rng.random() < 0.5 else ch.lower() for ch in s) if rng.random() < 0.6 else s


def good(c, rng, s, i):
    key = gen_key(rng)
    tag = 'g%d' % i
    hs = [(spell(rng, 'Upgrade'), spell(rng, 'websocket')), (spell(rng, 'Connection'), rng.choice(['Upgrade', 'keep-alive, Upgrade', 'upgrade'])),
          (spell(rng, 'Sec-WebSocket-Key'), rng.choice([b'', b' ', b'  ']) + key + rng.choice([b'', b' '])), ('Sec-WebSocket-Version', '13')]
    if rng.random() < 0.3:
        hs.append(('Accept-Encoding', 'gzip, br'))
    if rng.random() < 0.3:
        hs.append(('X-Other', 'x' * rng.randrange(1, 3000)))
    rng.shuffle(hs)
    data = srv.req('GET', '/ws?mode=record&tag=' + tag, hs)
    extra = rng.random() < 0.25
    msg = b'first-' + tag.encode()
    frames = ws.frame(ws.TEXT, msg)
    k = srv.Conn(s.port)
    try:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            k.send(srv.req('GET', '/echo/before'))
            if k.response().code != 200:
                return 'before', 'plain request before the handshake failed'
        if extra:
            k.send_pieces(data + frames, rng.choice([[], [len(data)], [len(data) - 3], [len(data) + 3]]), 0)
        else:
            k.send_pieces(data, httpgen.cuts_for(rng, data, [len(data) - 2]), rng.choice([0, 0.0005]))
        r = k.response()
        if r is None:
            return 'closed', 'connection closed instead of a handshake answer (key %r)' % key
        if extra and 400 <= r.code < 500:
            c.count('frames_with_handshake_refused')
            if not k.at_eof(10):
                return 'refused-open', 'handshake with extra data refused with %d but the connection was not closed' % r.code
            if any(l.startswith('WSOPEN ' + tag) for l in s.evs('WSOPEN ' + tag)):
                return 'refused-switched', 'handler got a WebSocket although %d was answered' % r.code
            return None
        if r.code != 101:
            return 'status', 'valid handshake answered %d (key %r)' % (r.code, key)
        if r.all('sec-websocket-accept') != [ws.accept_of(key)]:
            return 'accept', 'key %r answered with %r instead of %r' % (key, r.all('sec-websocket-accept'), ws.accept_of(key))
        if [x.lower() for x in r.all('upgrade')] != ['websocket'] or 'upgrade' not in r.get('connection').lower():
            return 'headers', 'upgrade headers %r %r' % (r.all('upgrade'), r.all('connection'))
        if not extra:
            k.send(frames)
        # exactly the messages sent arrive, and the stream goes on with valid frames
        if not s.wait_event(lambda l: l.startswith('WSMSG %s ' % tag), 20):
            return 'first-lost', 'the first message%s was not delivered' % (' sent with the handshake' if extra else '')
        w = ws.Ws.__new__(ws.Ws)
        w.c = k
        k.send(ws.frame(ws.PING, b'p'))
        f = w.next(20)
        if f != (1, ws.PONG, b'p'):
            return 'stream', 'after the handshake expected a pong, got %r' % (f,)
        got = [l.split(' ')[4] for l in s.evs('WSMSG %s ' % tag)]
        if got != [msg.hex()]:
            return 'first-altered', 'delivered %r' % got
        c.count('switched')
        if extra:
            c.count('frames_with_handshake_delivered')
    except socket.timeout as e:
        return 'timeout', repr(e)
    except (OSError, srv.BadResponse, ws.BadFrame) as e:
        return 'framing', repr(e)
    finally:
        k.close()


def bad(c, rng, s, i):
    tag = 'b%d' % i
    key = gen_key(rng)
    up, kh, method = ('Upgrade', 'websocket'), ('Sec-WebSocket-Key', key), 'GET'
    why = rng.choice(['no-upgrade', 'wrong-upgrade', 'no-key', 'empty-key', 'method'])
    hs = [('Connection', 'Upgrade'), ('Sec-WebSocket-Version', '13')]
    if why == 'wrong-upgrade':
        up = ('Upgrade', rng.choice(['h2c', 'websockets', 'web socket', 'TLS/1.0', 'websocke', 'xwebsocket', '13']))
    if why != 'no-upgrade':
        hs.append(up)
    if why == 'empty-key':
        hs.append(('Sec-WebSocket-Key', rng.choice(['', ' '])))
    elif why != 'no-key':
        hs.append(kh)
    if why == 'method':
        method = rng.choice(['POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS', 'PATCH'])
    rng.shuffle(hs)
    # sometimes the handler deals with the failed switch itself
    own = rng.choice(['', '', '200', '426', '503', 'rethrow'])
    k = srv.Conn(s.port)
    try:
        k.send(srv.req(method, '/ws?mode=record&tag=' + tag + ('&own=' + own if own else ''), hs))
        r = k.response(head=method == 'HEAD')
        if r is None:
            return 'bad-closed', '%s: closed without an answer' % why
        if own:
            want = 500 if own == 'rethrow' else int(own)
            if r.code != want or (want != 500 and method != 'HEAD' and r.body != b'own answer ' + tag.encode()):
                return 'own-answer', '%s: the handler refused with its own answer (%s), the client got %d %r' % (why, own, r.code, r.body[:60])
            c.count('refused_by_handler')
        elif not 400 <= r.code < 500:
            return 'bad-status', '%s (%s): answered %d; headers %r' % (why, method, r.code, hs)
        if r.get('sec-websocket-accept'):
            return 'bad-accept', '%s: error carries an accept digest' % why
        if any(l.split(' ')[1] == tag for l in s.evs('WSOPEN ' + tag)):
            return 'bad-switched', '%s: the handler was given a WebSocket' % why
        c.count('refused')
        # the connection is not a WebSocket afterwards
        if r.get('connection').lower() == 'close':
            if not k.at_eof(10):
                return 'bad-open', '%s: connection not closed after close was announced' % why
        else:
            k.send(srv.req('GET', '/echo/after'))
            if k.response().code != 200:
                return 'bad-after', '%s: the kept-alive connection is unusable' % why
    except socket.timeout as e:
        return 'timeout', '%s: %r' % (why, e)
    except (OSError, srv.BadResponse) as e:
        return 'framing', '%s: %r' % (why, e)
    finally:
        k.close()


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'handshakes with random keys (lengths around the hash block size, any characters), header spellings, orders and segmentations, some with frames in the same segment; and handshakes lacking one requirement; non-trivial: distinct handshakes judged'
    for sr in (0, 4):
        s = srv.Server(exe, shortreads=sr, seed=c.seed, rxto=60000, txto=60000, maxconn=0)

        def one(i):
            key = 'c12/%d/%d/%d' % (c.seed, sr, i)
            rng = random.Random(key)
            f = bad if i % 3 == 2 else good
            r = f(c, rng, s, i)
            if r and r[0] == 'timeout':
                r = f(c, random.Random(key), s, i + 1000000)
            c.case(key, sample=key)
            if r:
                c.violation('handshake:' + r[0], r[1] + ' (%s)' % key)
                return True
        parallel(c, range(c.scale(400, 4000)), one, alive=s.alive)
        s.stop(c)
    if not c.viol:
        c.require('switched', 300)
        c.require('refused', 150)
        c.require('refused_by_handler', 40)
