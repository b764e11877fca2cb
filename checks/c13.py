"""C13: client WebSocket messages arrive once, in order, unaltered."""
import os, random, socket, struct, threading, time
from vlib import build, srv, ws, httpgen
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: generated frame streams (fragmentation, masks, interleaved control frames, segmentation, short reads) against the live instrumented server; the recorded delivery log is compared with the sent history'
NOTE = 'Fragments may be delivered as separate pieces; judged on the concatenated pieces, their order, their type and the partial flag. Message size limit is taken as frame size (header included) not above the maximum request size.'


def gen_size(rng, limit):
    k = rng.random()
    if k < 0.15:
        return 0
    if k < 0.45:
        return rng.randrange(1, 40)
    if k < 0.75:
        return max(0, min(limit, rng.choice([125, 126, 127, 128, 242, 246, 250, 256, 508, 512, 1024, 4096, 65535, 65536, 65540]) + rng.randrange(-3, 4)))
    if k < 0.95:
        return min(limit, rng.randrange(0, 6000))
    return rng.randrange(0, limit + 1)


def payload(rng, n, text):
    if text:
        return bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789 {}[]:,') for _ in range(min(n, 300))) * 1 + b't' * max(0, n - 300)
    return rng.randbytes(n)


def mkmask(rng):
    k = rng.random()
    return b'\0\0\0\0' if k < 0.1 else b'\xff\xff\xff\xff' if k < 0.2 else rng.randbytes(4)


def control(rng, pings):
    if rng.random() < 0.6:
        p = rng.randbytes(rng.choice([0, 1, 4, 124, 125, rng.randrange(126)]))
        pings.append(p)
        return ws.frame(ws.PING, p, m=mkmask(rng))
    return ws.frame(ws.PONG, rng.choice([b'', b'x', b'ping/lambda/ws', b'ping/lambda/wsx', b'ping/lambda/ws' + b'\0' * 60, rng.randbytes(100)]), m=mkmask(rng))


def build_stream(rng, limit, nmax, marks):
    """returns (bytes, messages, pings)"""
    out, msgs, pings = [], [], []
    pos = 0

    def put(b):
        nonlocal pos
        out.append(b)
        pos += len(b)
        marks.append(pos)
    pctl = rng.choice([0, 0.1, 0.5])
    for i in range(rng.randrange(1, nmax)):
        text = rng.random() < 0.5
        n = gen_size(rng, limit)
        if rng.random() < 0.3 and i:
            n = min(n, 30)
        data = payload(rng, n, text)
        nf = rng.choice([1, 1, 1, 2, 3, rng.randrange(2, 9)])
        cuts = sorted(rng.randrange(len(data) + 1) for _ in range(nf - 1))
        pieces = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        for j, p in enumerate(pieces):
            while rng.random() < pctl:
                put(control(rng, pings))
            op = (ws.TEXT if text else ws.BIN) if j == 0 else ws.CONT
            f = ws.frame(op, p, fin=j == len(pieces) - 1, m=mkmask(rng))
            marks.append(pos + rng.randrange(1, min(15, len(f)) + 1))
            put(f)
        msgs.append(('T' if text else 'B', data))
    return b''.join(out), msgs, pings


def judge_log(lines, msgs):
    """lines: WSMSG events of one connection. Returns None or (key, what)."""
    got, cur, kind = [], b'', None
    for l in lines:
        w = l.split(' ')
        d = b'' if w[4] == '-' else bytes.fromhex(w[4])
        if kind is not None and w[2] != kind:
            return 'type', 'piece of a fragmented message has another type'
        cur += d
        kind = w[2]
        if w[3] == 'F':
            got.append((kind, cur))
            cur, kind = b'', None
    if kind is not None:
        return 'partial', 'the last piece of a message is marked partial'
    for i, (a, b) in enumerate(zip(got, msgs)):
        if a != b:
            if a[1] == b[1]:
                return 'type', 'message %d of %d: type %s instead of %s' % (i, len(msgs), a[0], b[0])
            return 'content', 'message %d of %d: delivered %d bytes %r..., sent %d bytes %r...' % (i, len(msgs), len(a[1]), a[1][:30], len(b[1]), b[1][:30])
    if len(got) != len(msgs):
        return ('lost' if len(got) < len(msgs) else 'extra'), 'delivered %d of %d messages' % (len(got), len(msgs))


def one(c, rng, s, i, limit):
    tag = 'm%d_%d' % (i, rng.randrange(1 << 30))
    marks = []
    data, msgs, pings = build_stream(rng, limit, 12, marks)
    mode = 'late&ms=%d' % rng.choice([20, 150]) if rng.random() < 0.25 else 'record'
    ending = 'close' if mode != 'record' or rng.random() < 0.5 else '!close'
    if ending == '!close':
        data += ws.frame(ws.TEXT, b'!close', m=mkmask(rng))
        msgs = msgs + [('T', b'!close')]
    else:
        data += ws.frame(ws.CLOSE, rng.choice([b'', b'\x03\xe8', b'\x03\xe9bye']), m=mkmask(rng))
    how = rng.random()
    if how < 0.25:
        cuts = []
    elif how < 0.5:
        cuts = sorted(set(x for x in marks if x < len(data) and rng.random() < 0.5))[:200]
    elif how < 0.7 and len(data) < 3000:
        cuts = list(range(1, len(data), 1 if len(data) < 400 else 7))
    else:
        cuts = httpgen.cuts_for(rng, data, marks[:50])
    try:
        w = ws.Ws(s.port, '/ws?mode=%s&tag=%s' % (mode, tag))
    except (ws.BadFrame, socket.timeout, OSError) as e:
        return 'open', 'handshake failed: %r' % e
    err = []
    # stalls longer than the server's internal receive timeout, in the middle of frames
    slow = set(rng.sample(cuts, min(len(cuts), 3))) if rng.random() < 0.2 else ()
    pause = 0.0003 if rng.random() < 0.3 and len(cuts) < 60 else 0

    def sender():
        try:
            if slow:
                last = 0
                for x in sorted(slow) + [len(data)]:
                    w.c.send_pieces(data[last:x], [y - last for y in cuts if last < y < x], pause)
                    last = x
                    time.sleep(0.16)
                c.count('stalled_streams')
            else:
                w.c.send_pieces(data, cuts, pause)
        except OSError as e:
            err.append(e)
    t = threading.Thread(target=sender)
    t.start()
    pongs, closed = [], False
    try:
        while True:
            f = w.next(40)
            if f is None:
                break
            if f[1] == ws.PONG:
                pongs.append(f[2])
            elif f[1] == ws.CLOSE:
                closed = True
            elif f[1] == ws.PING:
                pass
            else:
                return 'stream', 'unexpected frame %r' % (f[:2],)
    except socket.timeout as e:
        return 'timeout', 'no reaction: %r; delivered %d of %d' % (e, len(s.evs('WSMSG %s ' % tag)), len(msgs))
    except OSError as e:
        err.append(e)
    except ws.BadFrame as e:
        # the socket was torn down with unread data behind a close; judged by the log
        err.append(e)
    finally:
        t.join(40)
        w.close()
    end = s.wait_event(lambda l: l.startswith('WSEND %s ' % tag), 30)
    if end is None:
        return 'timeout', 'the handler was not told about the end of the connection'
    bad = judge_log(s.evs('WSMSG %s ' % tag), msgs)
    if bad:
        return bad[0], bad[1] + ' (%d segments, mode %s, ending %s, client errors %r)' % (len(cuts) + 1, mode, ending, err[:1])
    if not err and pongs != pings:
        return 'pongs', '%d pings, pongs %s' % (len(pings), 'differ' if len(pongs) == len(pings) else len(pongs))
    c.count('messages', len(msgs))
    c.count('bytes', sum(len(m[1]) for m in msgs))
    c.count('segments', len(cuts) + 1)
    c.count('control_frames', len(pings))
    if closed:
        c.count('closed_cleanly')


def run(c):
    asan = build.build('asan', ['server'])['server']
    tsan = build.build('tsan', ['server'])['server']
    c.rule = 'random message histories (sizes around the length-encoding and buffer borders up to the size limit, random fragmentation, masks, control frames in between), random segmentation at and around frame borders, with and without short reads; non-trivial: distinct histories judged complete'
    confs = [dict(limit=60000, shortreads=0, maxreq=60014), dict(limit=3000000, shortreads=0, maxreq=3000014), dict(limit=60000, shortreads=3, maxreq=60014), dict(limit=100000, shortreads=8, maxreq=100014, delayus=200), dict(limit=60000, shortreads=0, maxreq=60014, delayus=150, tsan=1)]
    for ci, conf in enumerate(confs):
        limit, onts = conf.pop('limit'), conf.pop('tsan', 0)
        s = srv.Server(tsan if onts else asan, env={'LAMBDA_LOCKDELAY': '300'} if onts else None, seed=c.seed, rxto=60000, txto=60000, maxconn=0, **conf)

        def work(i):
            key = 'c13/%d/%d/%d' % (c.seed, ci, i)
            r = one(c, random.Random(key), s, i, limit)
            if r and r[0] == 'timeout':
                r = one(c, random.Random(key), s, i, limit)
            c.case(key, sample=key)
            if r:
                c.violation('delivery:' + r[0], r[1] + ' (%s)' % key)
                return True
        # the largest message that is allowed must arrive too

        def border(i):
            rng = random.Random('c13b/%d/%d' % (ci, i))
            tag = 'lim%d_%d' % (ci, i)
            data = rng.randbytes(limit - i)
            try:
                w = ws.Ws(s.port, '/ws?mode=record&tag=' + tag)
                w.send(ws.frame(ws.BIN, data, m=rng.randbytes(4)))
                w.send(ws.frame(ws.CLOSE, b'\x03\xe8'))
                while w.next(40) is not None:
                    pass
                w.close()
            except (OSError, ws.BadFrame) as e:
                c.violation('delivery:border', 'message of %d bytes with the limit at %d: %r' % (limit - i, limit + 14, e))
                return True
            s.wait_event(lambda l: l.startswith('WSEND %s ' % tag), 30)
            bad = judge_log(s.evs('WSMSG %s ' % tag), [('B', data)])
            c.case('border/%d/%d' % (limit, i))
            if bad:
                c.violation('delivery:border', 'message of %d bytes with the limit at %d: %s' % (limit - i, limit + 14, bad[1]))
                return True
            c.count('border_sizes')
        if not conf['shortreads'] and not onts:
            parallel(c, range(4), border, alive=s.alive)
        parallel(c, range(c.scale(120, 2000) if onts else c.scale(220, 3000)), work, alive=s.alive)
        s.stop(c)
    if not c.viol:
        c.require('messages', 2000)
        c.require('control_frames', 500)
