"""C08: shutdown at any moment under traffic."""
import random, socket, threading, time
from vlib import build, srv, traffic, ws

TECHNIQUE = 'runtime monitoring of start/stop cycles under traffic with ASan, UBSan and TSan: the monitor bounds the time of every lifecycle call, compares handler entry/exit events with their return, and tracks threads, descriptors, heap and port reuse over the cycles'
NOTE = 'Time bound: 10 s with 0.3-1 s connection timeouts and handlers that run at most 0.4 s. Thread-list mode, fast port reuse.'
BOUND = 10000


class Client(threading.Thread):
    """A long-lived client behaviour; ends when the server closes or `stop` is set."""
    def __init__(self, kind, port, rng):
        super().__init__(daemon=True)
        self.kind, self.port, self.rng, self.halt, self.eof, self.conn = kind, port, rng, False, False, None

    def run(self):
        try:
            self.conn = k = srv.Conn(self.port, 30, rcvbuf=65536 if self.kind == 'unread' else None)
            getattr(self, 'do_' + self.kind)(k)
            # wait for the server to close
            end = time.time() + 30
            while time.time() < end and not self.halt:
                try:
                    if not k.fill(0.2):
                        self.eof = True
                        return
                except socket.timeout:
                    pass
        except (OSError, srv.BadResponse, ValueError):
            self.eof = True

    def sent(self, k, data):
        k.send(data)

    def do_idle(self, k):
        pass

    def do_half(self, k):
        k.send(b'GET /echo/half HTTP/1.1\r\nX-Part: 1\r\n')

    def drip(self, k, data):
        while not self.halt:
            k.send(data)
            time.sleep(0.05)
            try:
                if not k.fill(0.001):
                    return
            except socket.timeout:
                pass

    def do_drip_header(self, k):
        k.send(b'GET /echo/drip HTTP/1.1\r\nX-Drip: ')
        self.drip(k, b'a')

    def do_drip_body(self, k):
        k.send(b'POST /echo/drip HTTP/1.1\r\nContent-Length: 1000000\r\n\r\n')
        self.drip(k, b'b')

    def do_keepalive(self, k):
        i = 0
        while not self.halt:
            k.send(srv.req('GET', '/echo/k%d' % i))
            if k.response(timeout=10) is None:
                return
            i += 1

    def do_pipeline(self, k):
        n = 40
        k.send(srv.req('GET', '/sleep/p?ms=2') * n)

    def do_pipeline_long(self, k):
        """Many requests that wait for their turn: the ones that have not begun must not hold up the shutdown."""
        k.send(b'GET /sleep?ms=400 HTTP/1.1\r\n\r\n' * 400)

    def do_reconnect(self, k):
        """Arrives again and again and keeps asking: connections that get accepted at the very moment of the shutdown are among them."""
        i = 0
        while not self.halt and not self.stopped.is_set():
            try:
                c2 = srv.Conn(self.port, 5)
            except OSError:
                continue
            try:
                while not self.halt:
                    c2.send(srv.req('GET', '/echo/r%d' % i))
                    i += 1
                    if c2.response(timeout=5) is None or (i % 3 == 0 and not self.stopped.is_set()):
                        break
                    time.sleep(0.002)
            except (OSError, srv.BadResponse):
                pass
            c2.close()

    def do_sleep(self, k):
        k.send(srv.req('GET', '/sleep/s?ms=%d' % self.rng.choice([20, 100, 400])))

    def do_unread(self, k):
        k.send(srv.req('GET', '/big/u?size=12000000&seed=1'))
        while not self.halt:
            time.sleep(0.05)
            if self.stopped.is_set():
                break

    def do_churn(self, k):
        while not self.halt and not self.stopped.is_set():
            c2 = srv.Conn(self.port, 5)
            if self.rng.random() < 0.6:
                c2.send(srv.req('GET', '/echo/churn', [('Connection', 'close')]))
                if self.rng.random() < 0.5:
                    c2.fill(5)
            (c2.rst if self.rng.random() < 0.5 else c2.close)()

    def do_ws(self, k):
        k.send(ws.handshake_req('/ws?mode=echo'))
        k.response(timeout=10)
        while not self.halt:
            k.send(ws.frame(ws.TEXT, b'hello' * self.rng.randrange(1, 60)))
            time.sleep(0.01)
            try:
                if not k.fill(0.001):
                    return
                k.buf = b''
            except socket.timeout:
                pass

    def do_ws_idle(self, k):
        k.send(ws.handshake_req('/ws?mode=record'))
        k.response(timeout=10)

    def do_ws_half(self, k):
        k.send(ws.handshake_req('/ws?mode=record'))
        k.response(timeout=10)
        k.send(ws.frame(ws.BIN, b'x' * 5000)[:700])

    def do_ws_senders(self, k):
        k.send(ws.handshake_req('/ws?mode=record&threads=2&msgs=200&size=200'))
        k.response(timeout=10)

    def do_sse(self, k):
        k.send(srv.req('POST', '/sse?mode=loop&us=%d' % self.rng.choice([200, 5000])))


KINDS = ['idle', 'half', 'drip_header', 'drip_body', 'keepalive', 'keepalive', 'pipeline', 'pipeline_long', 'sleep', 'unread', 'reconnect', 'churn', 'ws', 'ws_idle', 'ws_half', 'ws_senders', 'sse']
STOPS = [['destroy'], ['destroy'], ['shutdown', 'await', 'destroy'], ['shutdown', 'destroy'], ['multishutdown', 'await', 'destroy'],
         ['asyncshutdown %d', 'await', 'destroy'], ['HANDLER', 'await', 'destroy'], ['shutdown', 'shutdown', 'await', 'await', 'shutdown', 'destroy']]


def cycle(c, s, rng, variant, i, kinds=None, delay=None):
    s.ctl('set rxto=%d txto=%d' % (rng.choice([300, 500, 1000]), rng.choice([300, 500, 1000])))
    res, ms = s.ctl('start')
    for _ in range(3):
        if 'in use' not in res:
            break
        # the descriptor may linger in a client of an earlier cycle of this very process only if the library leaked it
        time.sleep(0.3)
        res, ms = s.ctl('start')
    if res != 'ok':
        return 'restart', 'a new instance could not start on the port right after the old one had been destroyed: %s' % res
    first = s.nev()
    stopped = threading.Event()
    if kinds is None:
        kinds = [rng.choice(KINDS) for _ in range(rng.choice([0, 1, 3, 6, 12]))]
    cl = [Client(k, s.port, random.Random(rng.random())) for k in kinds]
    for x in cl:
        x.stopped = stopped
        x.start()
    if delay is None:
        delay = rng.choice([0, 0, 0.002, 0.01, 0.03, 0.08, 0.15])
    time.sleep(delay)
    how = rng.choice(STOPS)
    desc = 'cycle %d (%s): clients %r, stopped after %d ms by %r' % (i, variant, kinds, delay * 1000, how)
    ret = None
    quiet_at = None
    t0 = time.time()
    for step in how:
        if step == 'HANDLER':
            def hit():
                try:
                    k = srv.Conn(s.port, 10)
                    k.send(srv.req('GET', '/shutdown'))
                    k.fill(10)
                    k.close()
                except OSError:
                    pass
            h = threading.Thread(target=hit, daemon=True)
            h.start()
            # connecting may be refused under churn: shut down from outside then
            h.join(3)
            if not any(' /shutdown'.encode().hex() in l for l in s.evs('IN ', first)):
                s.ctl('shutdown')
            continue
        cmd = step % rng.choice([0, 5, 50]) if '%d' in step else step
        res, ms = s.ctl(cmd, timeout=60)
        if res == 'timeout':
            ret = 'hang:' + step.split(' ')[0], '%s: %s did not return within 60 s' % (desc, cmd)
            break
        if res == 'dead':
            ret = 'died', '%s: process died during %s' % (desc, cmd)
            break
        if res != 'ok':
            ret = 'threw', '%s: %s threw %s' % (desc, cmd, res)
            break
        if ms > BOUND:
            ret = 'slow:' + step.split(' ')[0], '%s: %s took %d ms' % (desc, cmd, ms)
            break
        c.note_max('max_lifecycle_call_ms', ms)
        c.count('lifecycle_calls')
    stopped.set()
    if ret is None:
        evs = s.evs(None, first)
        qi = None
        for n, l in enumerate(evs):
            if l.startswith('QUIET '):
                if l.split(' ')[2] != '0':
                    ret = 'handler-running', '%s: %s returned with %s handlers still running' % (desc, l.split(' ')[1], l.split(' ')[2])
                qi = n if qi is None else qi
            elif qi is not None and l.startswith('IN '):
                ret = 'handler-after', '%s: a handler was entered after the instance had finished: %s' % (desc, l)
        c.count('handler_entries', len([1 for l in evs if l.startswith('IN ')]))
    # every client notices
    if ret is None:
        end = time.time() + 10
        for x in cl:
            x.join(max(0.01, end - time.time()))
            if not x.eof and x.is_alive():
                ret = 'not-closed', '%s: the %s client was still connected 10 s after destruction' % (desc, x.kind)
            c.count('clients_disconnected')
    for x in cl:
        x.halt = True
        if x.conn:
            x.conn.close()
    for x in cl:
        x.join(5)
    c.case('%s/%d/%r/%r/%d' % (variant, i, kinds, how, delay * 1000), sample=desc)
    return ret


def series(c, variant, exe, n, delayus, plan=None, lockdelay=0):
    s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': str(lockdelay)}, start=False, fastreuse=1, delayus=delayus, seed=c.seed + delayus, maxconn=0 if delayus else 100)
    base = None
    rng = random.Random('c08/%d/%s/%d' % (c.seed, variant, delayus))
    heap = []
    for i in range(n):
        kinds, delay = plan[i] if plan and i < len(plan) else (None, None)
        r = cycle(c, s, rng, variant, i, kinds, delay)
        if r:
            c.violation('shutdown:' + r[0], r[1])
            break
        st = None
        for _ in range(40):
            st = s.stat()
            if st is None or base is None or (st['fds'] <= base['fds'] and st['threads'] <= base['threads']):
                break
            time.sleep(0.05)
        if st and st['badcloses']:
            c.violation('shutdown:bad-close', 'a descriptor that was not open any more was closed (%d times) in cycle %d (%s)' % (st['badcloses'], i, variant))
            break
        if st is None:
            c.violation('shutdown:died', 'the server process died after cycle %d' % i)
            break
        if i == 2:
            base = st
        if base and st['fds'] > base['fds']:
            c.violation('shutdown:fd-leak', 'descriptors grew from %d to %d after cycle %d (%s)' % (base['fds'], st['fds'], i, variant))
            break
        if base and st['threads'] > base['threads']:
            c.violation('shutdown:thread-leak', 'threads grew from %d to %d after cycle %d (%s)' % (base['threads'], st['threads'], i, variant))
            break
    s.stop(c, timeout=60)


def leaks(c, exe):
    """Identical batches of connections; the heap must not grow with their number."""
    s = srv.Server(exe, start=False, fastreuse=1, rxto=1000, txto=1000, maxconn=100)

    def batch():
        if s.ctl('start')[0] != 'ok':
            return None
        ks = []
        for j in range(40):
            k = srv.Conn(s.port, 30)
            kind = j % 8
            if kind == 0:
                k.send(srv.req('GET', '/echo/x') * 3)
                for _ in range(3):
                    k.response()
            elif kind == 1:
                k.send(srv.req('POST', '/throw?kind=runtime', body=b'boom'))
                k.response()
            elif kind == 2:
                k.send(ws.handshake_req('/ws?mode=record'))
                k.response()
                k.send(ws.frame(ws.TEXT, b'y' * 300))
                s.wait_event(lambda l: l.startswith('WSMSG'), 10)
            elif kind == 3:
                k.send(srv.req('POST', '/sse?mode=loop&us=1000'))
                k.fill(5)
            elif kind == 4:
                k.send(b'GET /echo/y HTTP/1.1\r\nA: b\r\n')
            elif kind == 5:
                k.send(srv.req('GET', '/echo/z') * 10)     # shut down with unread pipelined requests
            elif kind == 6:
                k.send(b'POST /echo/y HTTP/1.1\r\nContent-Length: 100000\r\n\r\nabc')
            ks.append(k)
        for cmd in ('shutdown', 'await', 'destroy'):
            if s.ctl(cmd)[0] != 'ok':
                return None
        for k in ks:
            k.close()
        return s.stat()
    try:
        hs = []
        for i in range(7):
            st = batch()
            if st is None:
                c.violation('shutdown:leak-run', 'lifecycle call failed during the leak run (batch %d)' % i)
                return
            hs.append(st['heap'])
        c.extra['heap_after_batches'] = hs
        # steady state from batch 2 on; 5 connections of each kind per batch
        if all(b > a + 200 for a, b in zip(hs[2:], hs[3:])):
            c.violation('shutdown:memory-leak', 'heap grows with every identical batch of 40 connections: %r' % hs)
        c.case('leak-batches', n=7)
    except (OSError, srv.BadResponse) as e:
        c.violation('shutdown:leak-run', 'traffic failed: %r' % e)
    finally:
        s.stop(c, timeout=60)


def run(c):
    a = build.build('asan', ['server'])['server']
    t = build.build('tsan', ['server'])['server']
    c.rule = 'start / random client population (idle, half and dripping requests, keep-alive, pipelined, slow handlers, unread responses, churn, WebSocket, SSE) / stop by one of 7 call patterns at a random moment, repeated in one process on one port; non-trivial: distinct cycles'
    rng = random.Random('c08/arrivals/%d' % c.seed)
    arrivals = [(['reconnect'] * rng.choice([3, 8, 16]), rng.uniform(0.005, 0.08)) for _ in range(c.scale(40, 400))]
    fixed = [([k], 0.05) for k in sorted(set(KINDS))]
    jobs = [('asan', a, c.scale(30, 300), 0, fixed), ('asan', a, c.scale(25, 250), 500, None), ('tsan', t, c.scale(25, 250), 0, fixed),
            ('tsan', t, c.scale(25, 250), 1500, None), ('asan', a, c.scale(20, 200), 3000, None), ('tsan', t, c.scale(25, 250), 100, None), ('asan', a, c.scale(40, 400), 3000, arrivals, 30000), ('tsan', t, c.scale(25, 250), 0, None, 2000)]
    ths = [threading.Thread(target=guard, args=(c, lambda j=j: series(c, *j))) for j in jobs] + [threading.Thread(target=guard, args=(c, lambda: leaks(c, a)))]
    [x.start() for x in ths]
    [x.join() for x in ths]
    if not c.viol:
        c.require('lifecycle_calls', 200)
        c.require('handler_entries', 200)


def guard(c, f):
    try:
        f()
    except Exception:
        import traceback
        c.problem(traceback.format_exc()[-1500:])
