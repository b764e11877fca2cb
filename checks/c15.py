"""C15: hostile or vanishing WebSocket peers are contained."""
import random, socket, struct, threading, time
from vlib import build, srv, ws, httpgen
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: hostile frame streams, truncations and disconnects against the ASan+UBSan server; monitors for sanitizer reports, process death, memory high-water mark, bounded handler notification, canaries on other connections and shutdown with open WebSockets'
NOTE = 'A peer that vanishes without closing its socket is one that answers no pings for 15 s (the interval built into the library); it must be dropped within 45 s.'


#   peers that answer no pings, and what they say instead
SILENT = [('silent', None), ('emptypong', lambda: ws.frame(ws.PONG, b'')), ('otherpong', lambda: ws.frame(ws.PONG, random.choice([b'p', b'ping', b'pong', b'ping/lambda/w', b'PING/LAMBDA/WS', b'ping/lambda/ws!', random.randbytes(14), random.randbytes(125)]))),
          ('messages', lambda: ws.frame(ws.TEXT, b'still here')), ('pings', lambda: ws.frame(ws.PING, b'ping/lambda/ws'))]


def rnd_frames(rng, n):
    out = b''
    for _ in range(n):
        op = rng.choice([ws.TEXT, ws.BIN, ws.PING, ws.PONG])
        out += ws.frame(op, rng.randbytes(rng.randrange(100)), m=rng.randbytes(4))
    return out


def hostile(rng):
    """(name, bytes)"""
    m = rng.randbytes(4)
    p = rng.randbytes(rng.choice([0, 1, 5, 125, 126, 300]))
    k = rng.randrange(16)
    if k == 0:
        return 'opcode', ws.frame(rng.choice([3, 4, 5, 6, 7, 11, 12, 13, 14, 15]), p, m=m)
    if k == 1:
        return 'rsv', ws.frame(rng.choice([0, 1, 2, 8, 9, 10]), p[:125], m=m, rsv=rng.randrange(1, 8), fin=rng.random() < 0.8)
    if k == 2:
        return 'unmasked', ws.frame(rng.choice([1, 2, 8, 9]), p[:125], m=None)
    if k == 3:
        return 'long-control', ws.frame(rng.choice([8, 9, 10]), rng.randbytes(rng.choice([126, 127, 1000, 65536, 70000])), m=m)
    if k == 4:
        return 'split-control', ws.frame(rng.choice([8, 9, 10]), p[:125], m=m, fin=False)
    if k == 5:
        return 'stray-continuation', ws.frame(0, p, m=m, fin=rng.random() < 0.5)
    if k == 6:
        return 'nested', ws.frame(1, p, m=m, fin=False) + ws.frame(rng.choice([1, 2]), p, m=m, fin=rng.random() < 0.5)
    if k in (7, 8):
        n = rng.choice([1 << 32, (1 << 40) + 3, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 14, (1 << 64) - 2, rng.getrandbits(64), 1 << 31, 1 << 24])
        return 'declared', bytes([0x80 | rng.choice([1, 2, 0, 9, 8]), rng.choice([0xff, 0xff, 0x7f])]) + struct.pack('>Q', n) + m + rng.randbytes(rng.choice([0, 1, 500, 5000]))
    if k == 9:
        return 'close-payload', ws.frame(8, rng.choice([b'', b'\x03', b'\0\0', b'\xff\xff', b'\x03\xe8\xff\xfe', b'\x03\xed', rng.randbytes(125)]), m=m)
    if k == 10:
        return 'after-close', ws.frame(8, b'\x03\xe8', m=m) + rnd_frames(rng, rng.randrange(1, 30))
    if k == 11:
        return 'random', rng.randbytes(rng.choice([1, 2, 3, 10, 100, 5000, 100000]))
    if k == 12:
        return 'ping-flood', ws.frame(9, rng.randbytes(125), m=m) * rng.choice([100, 3000])
    if k == 13:
        return 'tiny-flood', ws.frame(rng.choice([1, 2, 10]), b'', m=m) * rng.choice([100, 3000])
    if k == 14:
        d = bytearray(rnd_frames(rng, 6))
        for _ in range(rng.choice([1, 2, 5])):
            i = rng.randrange(len(d))
            q = rng.randrange(4)
            if q == 0:
                d[i] ^= 1 << rng.randrange(8)
            elif q == 1:
                d[i] = rng.getrandbits(8)
            elif q == 2 and len(d) > 30:
                del d[i:i + rng.randrange(1, 20)]
            else:
                d[i:i] = rng.randbytes(rng.randrange(1, 20))
        return 'mutated', bytes(d)
    f = ws.frame(rng.choice([1, 2, 9]), rng.randbytes(rng.choice([1, 50, 125, 200, 70000])), m=m)
    return 'truncated', f[:rng.randrange(1, len(f))]


INVALID = ('opcode', 'rsv', 'unmasked', 'long-control', 'split-control', 'stray-continuation', 'nested', 'after-close', 'close-payload')


def attack(c, rng, s, tag):
    mode = rng.choice(['record', 'record', 'echo', 'count', 'late&ms=30', 'record&threads=2&msgs=100&size=2000'])
    w = ws.Ws(s.port, '/ws?mode=%s&tag=%s' % (mode, tag), timeout=20)
    good = [b'good-%d-%s' % (i, tag.encode()) for i in range(rng.randrange(0, 4))]
    pre = b''.join(ws.frame(ws.TEXT, g, m=rng.randbytes(4)) for g in good)
    kind, bad = hostile(rng)
    vanish = rng.choice(['wait', 'close', 'rst', 'half', 'rst-mid'])
    data = pre + bad
    if kind in INVALID:
        data += ws.frame(rng.choice([ws.TEXT, ws.BIN]), b'AFTER', m=rng.randbytes(4))
    eof = None
    try:
        if vanish == 'rst-mid':
            data = data[:rng.randrange(len(data) + 1)]
        cuts = httpgen.cuts_for(rng, data, [len(pre), len(pre) + 1, len(pre) + 2]) if len(data) > 2 and rng.random() < 0.6 else []
        w.c.send_pieces(data, cuts[:40], 0.0003 if rng.random() < 0.2 else 0)
        if vanish == 'wait':
            w.c.s.settimeout(12 if kind in INVALID else rng.choice([0.02, 0.3]))
            eof = False
            try:
                while w.c.fill():
                    w.c.buf = b''
                eof = True
            except socket.timeout:
                pass
        elif vanish == 'half':
            w.c.s.shutdown(socket.SHUT_WR)
            w.c.s.settimeout(8)
            try:
                while w.c.fill():
                    w.c.buf = b''
            except socket.timeout:
                pass
        if vanish.startswith('rst'):
            w.c.rst()
    except OSError:
        eof = True if eof is False else eof
    w.close()
    t0 = time.time()
    end = s.wait_event(lambda l: l.startswith('WSEND %s ' % tag), 25)
    if not s.alive():
        return None
    if end is None:
        return 'not-told', 'the handler was still not told of the closure 25 s after the client was gone (%s, %s, mode %s)' % (kind, vanish, mode)
    if kind in INVALID and eof is False:
        return 'not-closed', 'the server did not close a WebSocket whose client broke the protocol (%s, mode %s) within 12 s' % (kind, mode)
    c.note_max('slowest_notification_ms', int((time.time() - t0) * 1000))
    if kind in INVALID and mode.startswith(('record', 'late')):
        got = [bytes.fromhex(l.split(' ')[4].replace('-', '')) for l in s.evs('WSMSG %s ' % tag)]
        first = [ws_payload(bad)] if kind == 'nested' else []
        if got != (good + first)[:len(got)]:
            return 'delivered', 'data that breaks the protocol (%s), or what came after it, was delivered: %r' % (kind, got[len(good):][:3])
        c.count('protocol_breaches_checked')
    if vanish in ('wait', 'half') and mode == 'record':
        got = [bytes.fromhex(l.split(' ')[4].replace('-', '')) for l in s.evs('WSMSG %s ' % tag)]
        if got[:len(good)] != good:
            return 'before-lost', 'messages before the invalid data (%s) were not delivered: %r of %r' % (kind, got[:3], good)
        if kind in ('declared', 'truncated') and len(got) > len(good):
            return 'invented', 'a message was delivered out of an incomplete frame (%s)' % kind
        c.count('valid_prefixes_checked')
    c.count('hostile_' + kind)
    c.count('vanish_' + vanish)


def ws_payload(f):
    """Payload of the first (masked) frame."""
    n, i = f[1] & 127, 2
    if n == 126:
        n, i = struct.unpack('>H', f[2:4])[0], 4
    m = f[i:i + 4]
    return bytes(x ^ m[k % 4] for k, x in enumerate(f[i + 4:i + 4 + n]))


def ws_canary(port, tag):
    try:
        w = ws.Ws(port, '/ws?mode=echo&tag=can' + tag, timeout=30)
        w.send(ws.frame(ws.TEXT, b'canary ' + tag.encode()) + ws.frame(ws.PING, b'cp'))
        fs = [w.next(30), w.next(30)]
        w.send(ws.frame(ws.CLOSE, b'\x03\xe8'))
        w.close()
        if sorted(fs) != sorted([(1, ws.TEXT, b'canary ' + tag.encode()), (1, ws.PONG, b'cp')]):
            return 'wrong frames %r' % fs
    except (OSError, ws.BadFrame, TypeError) as e:
        return repr(e)


def pinger_pair(c, s, out):
    """a client that answers no pings is dropped; one that does is kept"""
    def silent(name, says):
        """says what it likes, but nothing that answers a ping"""
        t0 = time.time()
        try:
            w = ws.Ws(s.port, '/ws?mode=record&tag=' + name, timeout=60)
            t0 = time.time()
            while time.time() - t0 < 60:
                try:
                    if w.next(0.7 if says else 60) is None:
                        out[name] = time.time() - t0
                        break
                except socket.timeout:
                    w.send(says() if says else b'')
            w.close()
        except (OSError, ws.BadFrame):
            out[name] = time.time() - t0

    def polite():
        try:
            w = ws.Ws(s.port, '/ws?mode=echo&tag=polite', timeout=60)
            t0 = time.time()
            n = 0
            while time.time() - t0 < c.scale(31, 60):
                try:
                    f = w.next(1)
                except socket.timeout:
                    continue
                if f is None:
                    out['polite'] = 'closed after %.1f s' % (time.time() - t0)
                    return
                if f[1] == ws.PING:
                    n += 1
                    w.send(ws.frame(ws.PONG, f[2]))
                elif f[1] == ws.CLOSE:
                    out['polite'] = 'close frame after %.1f s' % (time.time() - t0)
                    return
            w.send(ws.frame(ws.TEXT, b'still there'))
            f = w.next(20)
            out['polite'] = 'ok' if f == (1, ws.TEXT, b'still there') else 'got %r' % (f,)
            out['pings'] = n
            w.close()
        except (OSError, ws.BadFrame) as e:
            out['polite'] = repr(e)
    ts = [threading.Thread(target=silent, args=(n, f)) for n, f in SILENT] + [threading.Thread(target=polite)]
    [t.start() for t in ts]
    return ts


def memory(c, exe):
    """a declared length must not make the server allocate what was never sent"""
    for maxreq in (1 << 44, 18446744073709551615, 1 << 20):
        s = srv.Server(exe, maxreq=maxreq, rxto=5000, txto=5000)
        for n in ((1 << 30) + 1, 1 << 31, (1 << 33) + 5, 1 << 40, 1 << 43, (1 << 64) - 1, (1 << 64) - 14, (1 << 63)):
            w = ws.Ws(s.port, '/ws?mode=count&tag=mem%d' % n, timeout=20)
            s.ctl('resethwm')
            before = s.stat()
            try:
                w.send(bytes([0x82, 0xff]) + struct.pack('>Q', n) + b'abcd' + b'z' * 3000)
                w.c.s.settimeout(0.4)
                while w.c.fill():
                    pass
            except OSError:
                pass
            st = s.stat()
            w.close()
            if not s.alive() or st is None or before is None:
                break
            c.case('mem/%d/%d' % (maxreq, n))
            c.note_max('declared_frame_memory_kb', st['hwm'] - before['rss'])
            if st['hwm'] - before['rss'] > 64 * 1024:
                c.violation('allocation', 'a frame declaring %d bytes, of which 3000 were sent, made the server allocate %d KB (limit %d)' % (n, st['hwm'] - before['rss'], maxreq))
            if not s.wait_event(lambda l: l.startswith('WSEND mem%d ' % n), 20):
                c.violation('not-told', 'handler not told about the end of a connection with a declared length of %d (limit %d)' % (n, maxreq))
        s.stop(c, what='memory')


def oversize(c, exe, rng, n):
    """frames above the size limit are not delivered and end their WebSocket"""
    for limit in (2000, 100000):
        s = srv.Server(exe, maxreq=limit, rxto=20000, txto=5000)
        for i in range(n):
            size = rng.choice([limit - 1, limit, limit + 1, limit + rng.randrange(1, 3 * limit), 3 * limit])
            tag = 'over%d_%d' % (limit, i)
            good = [b'g%d' % k for k in range(rng.randrange(3))]
            d = b''.join(ws.frame(ws.TEXT, g) for g in good)
            frag = rng.random() < 0.4
            d += ws.frame(ws.BIN, b'z' * size, m=rng.randbytes(4), fin=not frag) + (ws.frame(ws.CONT, b'', fin=True) if frag else b'') + ws.frame(ws.TEXT, b'AFTER')
            closed = False
            try:
                w = ws.Ws(s.port, '/ws?mode=record&tag=' + tag, timeout=20)
                w.c.send_pieces(d, [x for x in [rng.randrange(len(d)) for _ in range(3)]], 0)
                w.c.s.settimeout(15)
                while w.c.fill():
                    w.c.buf = b''
                closed = True
            except socket.timeout:
                pass
            except (OSError, ws.BadFrame):
                closed = True
            w.close()
            if not s.wait_event(lambda l: l.startswith('WSEND %s ' % tag), 25):
                c.violation('not-told', 'the handler was not told about the end of a WebSocket with a frame above the size limit')
                break
            got = [bytes.fromhex(l.split(' ')[4].replace('-', '')) for l in s.evs('WSMSG %s ' % tag)]
            if not closed or got != good[:len(got)]:
                c.violation('oversize', 'a frame of %d bytes with the limit at %d: %s; delivered %r' % (size, limit, 'closed' if closed else 'the WebSocket stayed open', [len(x) for x in got]))
                break
            c.case('oversize/%s/%d' % (tag, size))
            c.count('oversized_frames')
        s.stop(c, what='oversize')


def shutdown_open(c, exe, rng, rounds):
    for i in range(rounds):
        s = srv.Server(exe, rxto=60000, txto=5000, delayus=rng.choice([0, 0, 200]), seed=c.seed + i)
        ws_list = []
        for k in range(rng.randrange(1, 7)):
            mode = rng.choice(['record', 'echo', 'count', 'record&threads=2&msgs=50&size=500', 'late&ms=20'])
            w = ws.Ws(s.port, '/ws?mode=%s&tag=o%d' % (mode, k), timeout=20)
            if rng.random() < 0.5:
                w.send(rng.choice([ws.frame(1, b'hello'), b'\x81', ws.frame(2, b'x' * 300)[:100], ws.frame(1, b'part', fin=False)]))
            ws_list.append(w)
        time.sleep(rng.random() * 0.05)
        t0 = time.time()
        res = s.ctl('destroy', timeout=40)
        took = time.time() - t0
        if s.alive() or res[0] != 'dead':
            c.case('shutdown/%d/%d' % (c.seed, i))
            if res[0] == 'timeout':
                c.violation('shutdown-hang', 'destroying the server with open WebSockets did not return within 40 s')
            elif res[0] != 'ok':
                c.violation('shutdown-fail', 'destroying the server with open WebSockets: ' + res[0])
            elif took > 15:
                c.violation('shutdown-slow', 'destroying the server with open WebSockets took %.1f s' % took)
            else:
                for k, w in enumerate(ws_list):
                    if not s.evs('WSEND o%d ' % k):
                        c.violation('shutdown-handler', 'a WebSocket handler had not ended when the server was destroyed')
                    try:
                        w.c.s.settimeout(10)
                        while w.c.fill():
                            pass
                        c.count('open_websockets_ended')
                    except socket.timeout:
                        c.violation('shutdown-open', 'a WebSocket stayed open after the server was destroyed')
                    except OSError:
                        pass
        [w.close() for w in ws_list]
        if res[0] == 'timeout':
            s.kill()
        else:
            s.stop(c, what='shutdown with open WebSockets')


def noreader(c, exe, rng, n):
    """an upgrade during a shortage of threads: the WebSocket either works or ends for both sides"""
    s = srv.Server(exe, rxto=20000, txto=5000)
    for i in range(n):
        mode, tag = rng.choice(['record', 'count', 'echo']), 'nr%d' % i
        k = srv.Conn(s.port, 20)
        code, closed, w = None, True, None
        try:
            k.send(srv.req('GET', '/echo'))
            k.response(timeout=20)      # the connection's own thread is there
            s.ctl('failthread 1')
            k.send(ws.handshake_req('/ws?mode=%s&tag=%s' % (mode, tag)))
            r = k.response(timeout=15)
            code = r and r.code
            if code == 101:
                w = ws.Ws.__new__(ws.Ws)
                w.c, w.resp = k, r
                w.send(ws.frame(ws.TEXT, b'hello') + ws.frame(ws.CLOSE, b'\x03\xe8'))
                while w.next(15) is not None:
                    pass
        except (socket.timeout, TimeoutError):
            closed = False
        except (OSError, ws.BadFrame):
            pass
        k.close()
        told = s.wait_event(lambda l: l.startswith('WSEND %s ' % tag), 15) if s.evs('WSOPEN %s' % tag) else True
        if not s.alive():
            break
        c.case('noreader/%s/%s' % (tag, mode))
        if not closed or not told:
            c.violation('no-thread', 'a WebSocket opened while no thread could be started (answered %s): %s' % (code, 'the handler was not told of its end within 15 s' if closed else 'it neither worked nor ended within 15 s'))
            break
        s.ctl('failthread 0')
        x = ws_canary(s.port, tag) and ws_canary(s.port, tag + 'b')
        if x:
            c.violation('no-thread', 'WebSockets do not work any more after a shortage of threads: ' + x)
            break
        c.count('websockets_without_thread')
    c.count('thread_failures_injected', (s.stat() or {}).get('threadfailed', 0))
    s.stop(c, what='shortage of threads')


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'hostile streams after the upgrade (invalid opcodes, flags, lengths, fragment sequences, random and mutated bytes, truncations, floods) with random segmentation and disconnects/resets, declared lengths under several limits, silent peers, shutdown with open WebSockets; non-trivial: distinct hostile histories'
    out = {}
    s2 = srv.Server(exe, rxto=60000, txto=10000)
    pts = pinger_pair(c, s2, out)
    s = srv.Server(exe, seed=c.seed, rxto=5000, txto=5000, maxconn=0)
    base = s.stat()

    def one(i):
        key = 'c15/%d/%d' % (c.seed, i)
        r = None
        for att in range(2):
            try:
                r = attack(c, random.Random(key), s, 'a%d_%d' % (i, att))
            except (OSError, ws.BadFrame) as e:
                r = 'refused', 'a new WebSocket could not be opened during hostile traffic: %r' % e
            if not r or r[0] not in ('refused', 'not-told', 'not-closed'):
                break
        if not s.alive():
            return True
        c.case(key, sample=key)
        if r:
            c.violation(r[0], r[1] + ' (%s)' % key)
            return True
        if i % 30 == 0:
            x = srv.canary(s.port, 'k%d' % i) or ws_canary(s.port, '%d' % i)
            if x:
                x = srv.canary(s.port, 'K%d' % i) or ws_canary(s.port, 'K%d' % i)
            if x and s.alive():
                c.violation('canary', 'other connections were not served correctly during hostile WebSocket traffic: ' + x)
                return True
            c.count('canaries_ok')
    parallel(c, range(c.scale(900, 15000)), one, workers=10, alive=s.alive)
    if s.alive():
        end = time.time() + 20
        st = s.stat()
        while st and (st['threads'] > base['threads'] + 2 or st['active']) and time.time() < end:
            srv.canary(s.port, 'gc')
            time.sleep(0.3)
            st = s.stat()
        if st and (st['threads'] > base['threads'] + 2 or st['active']):
            c.violation('stuck', '%d threads (started with %d), %d active handlers 20 s after all hostile clients are gone' % (st['threads'], base['threads'], st['active']))
    s.stop(c, what='hostile')
    memory(c, exe)
    oversize(c, exe, random.Random('c15o/%d' % c.seed), c.scale(30, 400))
    noreader(c, exe, random.Random('c15n/%d' % c.seed), c.scale(12, 100))
    shutdown_open(c, exe, random.Random('c15s/%d' % c.seed), c.scale(12, 150))
    [t.join(90) for t in pts]
    if s2.alive():
        for name, _ in SILENT:
            if out.get(name) is None or out[name] > 45:
                c.violation('silent-peer:' + name, 'a peer that answered no pings (%s) was not dropped within 45 s' % name)
            elif not s2.wait_event(lambda l: l.startswith('WSEND %s ' % name), 10):
                c.violation('silent-peer:' + name, 'the handler was not told that a peer that answered no pings (%s) was dropped' % name)
            else:
                c.count('silent_dropped')
        if c.viol:
            pass
        else:
            c.extra['silent_peer_dropped_after_s'] = round(out['silent'], 1)
        if out.get('polite') != 'ok':
            c.violation('polite-peer', 'a peer that answers pings was not kept: %s' % out.get('polite'))
        else:
            c.extra['pings_answered'] = out['pings']
    s2.stop(c, what='idle')
    if not c.viol:
        for k, m in (('canaries_ok', 15), ('hostile_declared', 40), ('hostile_mutated', 20), ('vanish_rst', 80), ('valid_prefixes_checked', 40), ('protocol_breaches_checked', 120), ('open_websockets_ended', 15), ('websockets_without_thread', 10), ('thread_failures_injected', 10), ('silent_dropped', len(SILENT))):
            c.require(k, m)
