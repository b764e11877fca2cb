"""C14: server WebSocket frames form a valid stream under concurrency."""
import random, socket, threading, time
from vlib import build, srv, ws
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: strict RFC 6455 frame parser and per-thread history checker at the client while several handler threads send and pings are answered, under ThreadSanitizer, AddressSanitizer and injected delays'
NOTE = 'Fragmented sending is only judged with a single sending thread. Messages a handler sends after the connection was closed are not expected to arrive.'


def expected(ident, size):
    b = bytearray(ident + b'|')
    k = len(ident)
    while len(b) < size:
        b.append(97 + (len(b) * 7 + k) % 26)
    return bytes(b)


class Stream:
    """Assembles messages from frames and checks the frame-sequence rules."""
    def __init__(self):
        self.cur = None
        self.msgs, self.pongs, self.pings, self.close = [], [], 0, None

    def feed(self, f):
        fin, op, p = f
        if self.close is not None:
            return 'frame (opcode %d) after the close frame' % op
        if op == ws.CLOSE:
            if len(p) == 1:
                return 'close frame with 1 byte of payload'
            self.close = p
        elif op == ws.PONG:
            self.pongs.append(p)
        elif op == ws.PING:
            self.pings += 1
        elif op == ws.CONT:
            if self.cur is None:
                return 'continuation frame without a message'
            self.cur = (self.cur[0], self.cur[1] + p)
            if fin:
                self.msgs.append(self.cur)
                self.cur = None
        else:
            if self.cur is not None:
                return 'new message inside a fragmented one'
            if fin:
                self.msgs.append((op, p))
            else:
                self.cur = (op, p)


def senders(c, rng, s, i, tsan, closing=False):
    tag = 's%d_%d' % (i, rng.randrange(1 << 30))
    T = rng.choice([1, 2, 4, 6])
    N = rng.choice([5, 20, 40]) if tsan else rng.choice([5, 30, 80])
    size = rng.choice([50, 300, 3000, 20000, 250000])
    if size > 20000:
        N = 5
    slow = rng.random() < 0.3
    ending = rng.choice(['!close', '!close', '!return', '!throw', 'both', 'both', 'client', 'nowait', 'abrupt'])
    if closing:     # both sides close at (nearly) the same moment
        T, N, size, slow, ending = rng.choice([1, 2]), 5, 50, False, 'both'
    mode = 'nowait' if ending == 'nowait' else 'record'
    w = ws.Ws(s.port, '/ws?mode=%s&tag=%s&threads=%d&msgs=%d&size=%d' % (mode, tag, T, N, size), rcvbuf=4096 if slow else None, timeout=60)
    if any(k.lower() == 'content-length' and v.strip() not in ('', '0') for k, v in w.resp.headers if isinstance(k, str)):
        return 'handshake', 'handshake response with a body'
    sent, stop = [], threading.Event()
    serr = []

    def pinger():
        r = random.Random(tag)
        try:
            while not stop.is_set() and len(sent) < 300:
                p = b'%d/' % len(sent) + r.randbytes(r.choice([0, 3, 60, 118]))
                sent.append(p)
                w.send(ws.frame(ws.PING, p, m=r.randbytes(4)))
                if r.random() < 0.7:
                    time.sleep(r.random() * 0.004)
        except OSError as e:
            serr.append(e)
    t = threading.Thread(target=pinger)
    t.start()
    st = Stream()
    want = T * N
    ended = False
    early = rng.randrange(want) if ending in ('client', 'abrupt') and rng.random() < 0.7 else want
    try:
        while True:
            if slow and rng.random() < 0.2:
                time.sleep(0.004)
            f = w.next(60)
            if f is None:
                break
            bad = st.feed(f)
            if bad:
                return 'sequence', bad
            if len(st.msgs) >= early and not ended:
                stop.set()
                if ending == 'nowait':
                    ended = True
                    continue
                if ending == 'abrupt':
                    w.close()
                    break
                t.join(60)
                if early == want and len(st.pongs) < len(sent) and not serr:
                    continue
                ended = True
                w.send(ws.frame(ws.CLOSE, b'\x03\xe8') if ending == 'client' else ws.frame(ws.TEXT, b'!close') + ws.frame(ws.CLOSE, b'\x03\xe8') if ending == 'both'
                       else ws.frame(ws.TEXT, ending.encode()))
    except socket.timeout:
        return 'timeout', '%d of %d messages, %d of %d pongs arrived (ending %s)' % (len(st.msgs), want, len(st.pongs), len(sent), ending)
    except ws.BadFrame as e:
        if not (ending in ('client', 'abrupt', 'nowait') and 'EOF inside' in str(e)):
            return 'frame', '%s after %d frames (ending %s)' % (e, len(st.msgs) + len(st.pongs), ending)
    except OSError as e:
        if ending not in ('client', 'abrupt', 'nowait'):
            return 'frame', repr(e)
    finally:
        stop.set()
        t.join(60)
        w.close()
    # history
    last, seen = {}, 0
    for op, p in st.msgs:
        ident = p.split(b'|', 1)[0]
        w4 = ident.split(b':')
        if len(w4) != 5 or w4[0] != tag.encode():
            return 'content', 'message that was not sent: %r' % p[:60]
        if expected(ident, int(w4[4])) != p:
            return 'content', 'message %r altered: %d bytes instead of %s' % (ident, len(p), w4[4])
        if (op == ws.TEXT) != (w4[3] == b'T'):
            return 'type', 'message %r arrived with opcode %d' % (ident, op)
        if int(w4[2]) != last.get(w4[1], -1) + 1:
            return 'order', 'thread %s: message %s after %d' % (w4[1].decode(), w4[2].decode(), last.get(w4[1], -1))
        last[w4[1]] = int(w4[2])
        seen += 1
    cut = ending in ('client', 'abrupt')
    if not cut and ending != 'nowait' and seen != want:
        return 'lost', '%d of %d messages arrived (ending %s)' % (seen, want, ending)
    if st.pongs != sent[:len(st.pongs)]:
        return 'pong', 'pong payloads do not match the pings in order'
    if not cut and ending != 'nowait':
        if len(st.pongs) != len(sent) and not serr:
            return 'pong-lost', '%d pings, %d pongs' % (len(sent), len(st.pongs))
        if st.close is None:
            return 'no-close', 'the handler ended (%s) without a close frame' % ending
    if ending == 'nowait' and seen != want and st.close is not None:
        return 'lost', '%d of %d messages arrived before the close frame' % (seen, want)
    if st.close is not None:
        c.count('close_frames')
    if ending == '!close' and st.close[:2] != b'\x03\xe8':
        return 'close-code', 'close frame payload %r instead of 1000' % st.close
    c.count('messages', seen)
    c.count('pongs', len(st.pongs))
    c.count('ending_' + ending.strip('!'))


def echo(c, rng, s, i):
    """the handler sends back what it gets, keeping the fragmentation"""
    w = ws.Ws(s.port, '/ws?mode=echo&tag=e%d' % i, timeout=60)
    msgs, out, pings = [], [], []
    for k in range(rng.randrange(1, 10)):
        op = rng.choice([ws.TEXT, ws.BIN])
        n = rng.choice([0, 1, 100, 125, 126, 127, 1000, 65535, 65536, 70000, rng.randrange(5000)])
        data = rng.randbytes(n) if op == ws.BIN else b'e' * n
        nf = rng.choice([1, 1, 2, 3, 5])
        cuts = sorted(rng.randrange(n + 1) for _ in range(nf - 1))
        for j, (a, b) in enumerate(zip([0] + cuts, cuts + [n])):
            out.append(ws.frame(op if j == 0 else ws.CONT, data[a:b], fin=j == nf - 1, m=rng.randbytes(4)))
            if rng.random() < 0.4:
                pings.append(rng.randbytes(rng.randrange(126)))
                out.append(ws.frame(ws.PING, pings[-1], m=rng.randbytes(4)))
        msgs.append((op, data))
    err = []

    def snd():
        try:
            for f in out:
                w.send(f)
                if rng.random() < 0.2:
                    time.sleep(0.002)
        except OSError as e:
            err.append(e)
    t = threading.Thread(target=snd)
    t.start()
    st = Stream()
    closing = False
    try:
        while True:
            f = w.next(60)
            if f is None:
                break
            bad = st.feed(f)
            if bad:
                return 'sequence', 'echo: ' + bad
            if len(st.msgs) == len(msgs) and len(st.pongs) == len(pings) and not closing:
                closing = True
                t.join(60)
                w.send(ws.frame(ws.TEXT, b'!close'))
    except socket.timeout:
        return 'timeout', 'echo: %d of %d messages, %d of %d pongs' % (len(st.msgs), len(msgs), len(st.pongs), len(pings))
    except (OSError, ws.BadFrame) as e:
        return 'frame', 'echo: %r' % e
    finally:
        t.join(60)
        w.close()
    if st.msgs[:-1] != msgs or st.msgs[-1] != (ws.TEXT, b'!close'):
        return 'echo', 'echoed messages differ from the sent ones: %r instead of %r' % ([(o, len(d)) for o, d in st.msgs], [(o, len(d)) for o, d in msgs])
    if st.pongs != pings:
        return 'pong', 'echo: pongs differ from pings'
    if st.close is None:
        return 'no-close', 'closed by the handler without a close frame'
    c.count('echoed', len(msgs))
    c.count('close_frames')


def run(c):
    asan = build.build('asan', ['server'])['server']
    tsan = build.build('tsan', ['server'])['server']
    c.rule = 'connections on which up to 6 handler threads send (sizes around the length-encoding borders) while the client pings, with slow readers and every kind of ending, plus echo of fragmented messages; non-trivial: distinct connection histories judged'
    for exe, opts, n in ((tsan, dict(delayus=300), c.scale(70, 1500)), (tsan, {}, c.scale(60, 1500)), (asan, dict(delayus=100, shortreads=5), c.scale(120, 3000)), (asan, dict(lockdelay=2500), c.scale(80, 1500)), (asan, dict(lockdelay=3000, delayus=3000), c.scale(220, 3000))):
        opts = dict(opts)
        lockdelay = opts.pop('lockdelay', 0)
        closing = lockdelay == 3000
        s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': str(lockdelay)}, seed=c.seed, rxto=60000, txto=60000, maxconn=0, **opts)
        name = 'tsan' if exe == tsan else 'asan'

        def work(i):
            key = 'c14/%d/%s/%s/%d/%d' % (c.seed, name, opts, lockdelay, i)
            f = (lambda k: echo(c, random.Random(key), s, k)) if i % 4 == 3 and not closing else (lambda k: senders(c, random.Random(key), s, k, exe == tsan, closing))
            r = None
            for att in range(2):
                try:
                    r = f(i + att * 1000000)
                except (OSError, ws.BadFrame) as e:
                    r = 'timeout', 'could not open a connection: %r' % e
                if not r or r[0] != 'timeout':
                    break
            c.case(key, sample=key)
            if r:
                c.violation('frames:' + r[0], r[1] + ' (%s)' % key)
                return True
        parallel(c, range(n), work, alive=s.alive)
        s.stop(c)
    if not c.viol:
        c.require('messages', 3000)
        c.require('pongs', 2000)
        c.require('close_frames', 60)
        c.require('echoed', 100)
