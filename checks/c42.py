"""C42: signals and cut system calls do not disturb connections."""
import random, socket, threading, time
from vlib import build, srv, tcp, traffic, ws
from vlib.par import parallel
from checks import c41

TECHNIQUE = 'runtime monitoring with fault injection: every thread of the server gets a handled signal every few milliseconds or less, which interrupts and shortens its socket calls; the answers, WebSocket echoes, event streams and TCP byte streams are compared with what the clients sent, timeouts are timed, under ASan+UBSan and TSan'
NOTE = 'The signal handler does nothing and is installed with SA_RESTART, as usual; it reaches every thread but the main one. How many calls were really interrupted is counted. Linux.'


def tcp_phase(c, variant, exe, total, workers, us):
    d = tcp.Driver(exe, seed=c.seed + us)
    port = srv.free_port()
    cfg = (8000, 8000)
    w, _ = d.do('listen', 'L', port, 1, *cfg)
    d.do('storm', us)
    lock = threading.Lock()
    kinds = [c41.transfer, c41.transfer, c41.small_reads, c41.timeout, c41.records, c41.end_reader, c41.reset, c41.write_timeout]

    def one(i):
        key = 'c42/%d/%s/%d/%d' % (c.seed, variant, us, i)
        rng = random.Random(key)
        kind = kinds[i % len(kinds)]
        if kind is c41.write_timeout and i % 24 != 7:
            kind = c41.transfer
        try:
            with lock:
                s = c41.Session(d, 'L', port, cfg, rcvbuf=65536 if kind is c41.write_timeout else None)
            s.lid, s.port, s.lcfg = 'L', port, cfg
            if kind is c41.end_reader:
                with lock:
                    kind(rng, c, s)
            else:
                kind(rng, c, s)
            s.p.close()
            s.drop()
            c.case(key)
            c.count('tcp_histories')
        except c41.Bad as e:
            c.violation('tcp:%s:%s' % (kind.__name__, e.key), '%s (%s %s)' % (e, key, kind.__name__))
            return True
        except OSError as e:
            c.violation('tcp:%s:peer' % kind.__name__, 'the peer of %s got %r' % (key, e))
            return True
    parallel(c, range(total), one, workers=workers, alive=d.alive)
    st = d.stat() or {}
    c.count('signals', st.get('signals', 0))
    c.count('calls_interrupted', st.get('interrupted', 0))
    c.count('sends_cut', st.get('cut', 0))
    d.do('storm', 0)
    d.stop(c)


def big(rng, port, c):
    """A large answer read slowly."""
    n = rng.choice([3000000, 6000000])
    k = srv.Conn(port, 60, rcvbuf=65536)
    k.send(srv.req('GET', '/big/s?size=%d&seed=%d' % (n, 3)))
    time.sleep(rng.choice([0, 0.05, 0.2]))
    r = k.response(timeout=60)
    if r is None or r.code != 200 or len(r.body) != n or r.body[:300000] != traffic.big_bytes(3, 300000):
        raise traffic.Mixed('big', 'a large answer came as %r' % (r and (r.code, len(r.body))))
    k.send(srv.req('GET', '/echo/after'))
    r = k.response(timeout=30)
    if r is None or r.code != 200:
        raise traffic.Mixed('big', 'no answer after a large one')
    k.close()
    c.count('large_answers')


def slow(rng, port, c):
    """A request with pauses in it."""
    k = srv.Conn(port, 60)
    body = bytes(rng.getrandbits(8) for _ in range(200))
    data = srv.req('POST', '/echo/slow', [('X-Slow', 'yes')], body)
    cuts = sorted(rng.sample(range(1, len(data)), rng.choice([1, 3])))
    k.send_pieces(data, cuts, rng.choice([0.05, 0.3]))
    r = k.response(timeout=30)
    if r is None or r.code != 200 or srv.Echo(r.body).body != body:
        raise traffic.Mixed('slow', 'a request sent with pauses got %r' % (r and r.code))
    time.sleep(rng.choice([0, 0.3]))
    k.send(srv.req('GET', '/sleep/s?ms=60'))
    r = k.response(timeout=30)
    if r is None or r.code != 200:
        raise traffic.Mixed('slow', 'the second request got %r' % (r and r.code))
    k.close()
    c.count('slow_requests')


def wsecho(rng, port, c):
    k = srv.Conn(port, 60)
    k.send(ws.handshake_req('/ws?mode=echo'))
    r = k.response(head=True, timeout=30)
    if r is None or r.code != 101:
        raise traffic.Mixed('ws', 'handshake got %r' % (r and r.code))
    for i in range(rng.choice([1, 5])):
        m = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 5, 200]))) * rng.choice([1, 1, 300])
        fr = ws.frame(ws.BIN, m)
        k.send_pieces(fr, [rng.randrange(1, len(fr))], rng.choice([0, 0.02, 0.2]))
        got = b''
        want = ws.frame(ws.BIN, m, m=None)
        end = time.time() + 30
        while len(got) < len(want) and time.time() < end:
            if not k.buf and not k.fill(30):
                break
            take = k.buf[:len(want) - len(got)]
            k.buf = k.buf[len(take):]
            got += take
        if got != want:
            raise traffic.Mixed('ws', 'message %d of %d bytes echoed as %r' % (i, len(m), got[:60]))
    k.close()
    c.count('ws_echoes')


def sse(rng, port, c):
    n = rng.choice([1, 10])
    k = srv.Conn(port, 60)
    body = '\n'.join('E %s ~ ~ ~' % (b'event %d ' % i + b'x' * rng.choice([0, 3000])).hex() for i in range(n))
    k.send(srv.req('POST', '/sse', body=body.encode() + b'\n\n'))
    r = k.response(head=True, timeout=30)
    rest = r and k.read_all(30) + b''
    if r is None or r.code != 200 or rest.count(b'data: event ') != n:
        raise traffic.Mixed('sse', 'of %d events came %r' % (n, rest and rest.count(b'data: event ')))
    c.count('event_streams')


def stall(rng, port, c, rxto):
    t0 = time.time()
    k = srv.Conn(port, 60)
    k.send(rng.choice([b'', b'GET / HT', srv.req('POST', '/echo', [('Content-Length', '10')], None) + b'abc']))
    while k.fill(30):
        pass
    dt = (time.time() - t0) * 1000
    if not rxto - 40 <= dt <= rxto + 2500:
        raise traffic.Mixed('stall', 'a stalled connection with a timeout of %d ms was closed after %d ms' % (rxto, dt))
    k.close()
    c.count('stalls')


def server_phase(c, variant, exe, total, workers, us, rxto=60000):
    # a large answer is still on its way when the server already waits for the next request, so that takes its time
    s = srv.Server(exe, seed=c.seed, sigstorm=us, rxto=rxto, txto=60000, maxconn=0, logreq=0)

    def one(i):
        key = 'c42s/%d/%s/%d/%d/%d' % (c.seed, variant, us, rxto, i)
        rng = random.Random(key)
        kind = stall if rxto < 5000 else [traffic.client, big, slow, wsecho, sse, traffic.client, slow, wsecho][i % 8]
        try:
            if kind is traffic.client:
                n, ids, kinds = kind(rng, s.port, '%s%d' % (variant, i))
                c.count('responses_compared', n)
            elif kind is stall:
                kind(rng, s.port, c, rxto)
            else:
                kind(rng, s.port, c)
            c.case(key)
        except traffic.Mixed as e:
            c.violation('http:%s' % e.key, '%s (%s)' % (e, key))
            return True
        except (OSError, srv.BadResponse, AttributeError) as e:
            c.violation('http:%s:connection' % kind.__name__, '%r (%s)' % (e, key))
            return True
    parallel(c, range(total), one, workers=workers, alive=s.alive)
    st = s.stat()
    if st:
        c.count('signals', st['signals'])
        c.count('calls_interrupted', st['interrupted'])
        c.count('sends_cut', st['cutsends'])
    s.stop(c, timeout=90)


def run(c):
    a = build.build('asan', ['tcp', 'server'])
    t = build.build('tsan', ['tcp', 'server'])
    c.rule = 'a client session (requests of all kinds, large answers, requests with pauses, WebSocket echoes, event streams, stalls) or a TCP history while all threads of the process are interrupted by signals'
    errs = []

    def guard(f, *x):
        try:
            f(*x)
        except Exception:
            import traceback
            errs.append(traceback.format_exc())
    jobs = [(server_phase, c, 'asan', a['server'], c.scale(160, 1600), 10, 2000), (server_phase, c, 'tsan', t['server'], c.scale(120, 1200), 8, 8000),
            (tcp_phase, c, 'asan', a['tcp'], c.scale(100, 1000), 8, 1000), (tcp_phase, c, 'tsan', t['tcp'], c.scale(60, 600), 6, 5000),
            (server_phase, c, 'asan', a['server'], c.scale(24, 240), 6, 3000, 1500), (server_phase, c, 'tsan', t['server'], c.scale(24, 240), 6, 9000, 700)]
    ths = [threading.Thread(target=guard, args=j) for j in jobs]
    [x.start() for x in ths]
    [x.join() for x in ths]
    for e in errs:
        c.problem(e[-1500:])
    if not c.viol:
        c.require('calls_interrupted', 300)
        c.require('responses_compared', 60)
