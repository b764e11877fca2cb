"""C01: framing and delivery of requests, judged from what the scriptable echo handler received."""
import random, socket, threading
from vlib import build, srv, httpgen
from vlib.common import show
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: generated request streams against the live server, echo oracle, ASan+UBSan'
NOTE = ('Exploration: each generated stream (random contents x random segmentation x pipelining) is judged exactly; streams not generated are not covered. '
        'Trusts the echo handler of the harness, the Python request generator and the kernel loopback TCP.')


def one_stream(c, rng, port, sid, shortreads):
    res = _one_stream(c, rng, port, sid, shortreads)
    return (None, res) if isinstance(res, int) else (res, 0)


def _one_stream(c, rng, port, sid, shortreads):
    n = rng.choice([1, 1, 2, 3, 5, 8])
    pipelined = rng.random() < 0.6
    reqs, data, marks = [], b'', []
    for i in range(n):
        r = httpgen.gen_request(rng, '/echo/s%s/%d' % (sid, i), maxbody=300000 if rng.random() < 0.2 else 6000)
        w = httpgen.wire(rng, r, host=rng.choice(['localhost', 'example.com:8080', 'a.b']))
        marks += [len(data), len(data) + w.find(b'\r\n\r\n') + 4, len(data) + w.find(b'\r\n\r\n') + 2]
        data += w
        reqs.append((r, w))
    got = []
    desc = 'stream %s: %d requests, %s' % (sid, n, 'pipelined' if pipelined else 'one at a time')
    conn = srv.Conn(port)
    cuts = httpgen.cuts_for(rng, data, marks)
    pause = rng.choice([0, 0, 0.0005, 0.002]) if len(cuts) < 60 else 0
    try:
        if pipelined:
            t = threading.Thread(target=lambda: _quiet(lambda: conn.send_pieces(data, cuts, pause)))
            t.start()
            for i in range(n):
                got.append(conn.response(timeout=25))
                if got[-1] is None:
                    break
            t.join()
        else:
            off = 0
            for i in range(n):
                w = reqs[i][1]
                conn.send_pieces(w, [x - off for x in cuts if off < x < off + len(w)], pause)
                off += len(w)
                got.append(conn.response(timeout=25))
                if got[-1] is None:
                    break
        stray = b''
        if len(got) == n and got[-1] is not None:
            try:
                conn.fill(0.02)
            except socket.timeout:
                pass
            stray = conn.buf
    except socket.timeout:
        return 'no-response', '%s: no answer to request %d' % (desc, len(got)), reqs, cuts, data
    except (srv.BadResponse, OSError) as e:
        return 'transport', '%s: after %d answers: %r' % (desc, len(got), e), reqs, cuts, data
    finally:
        conn.close()
    if len(got) < n or got[-1] is None:
        return 'closed-early', '%s: connection closed after %d of %d answers' % (desc, len([g for g in got if g]), n), reqs, cuts, data
    if stray:
        return 'extra-response', '%s: unexpected extra bytes after the last answer: %s' % (desc, show(stray)), reqs, cuts, data
    lastn = 0
    for i, (g, (r, w)) in enumerate(zip(got, reqs)):
        if g.code != 200:
            return 'status', '%s: request %d answered %d (%s)' % (desc, i, g.code, show(w[:300])), reqs, cuts, data
        e = srv.Echo(g.body)
        d = httpgen.compare_echo(e, r)
        if d:
            return d[0], '%s: request %d: %s' % (desc, i, d[1]), reqs, cuts, data
        want = r.host.encode()
        if e.host != want or e.hostname != want.split(b':')[0] or e.port != (want.split(b':') + [b''])[1]:
            return 'host', '%s: request %d: host %r seen as %r' % (desc, i, want, (e.host, e.hostname, e.port)), reqs, cuts, data
        if e.n <= lastn:
            return 'order', '%s: handler invocations out of order' % desc, reqs, cuts, data
        lastn = e.n
        c.count('requests_checked')
        if r.body:
            c.count('requests_with_body')
    c.count('pipelined_streams' if pipelined else 'sequential_streams')
    c.count('segments_sent', len(cuts) + 1)
    return n


def _quiet(f):
    try:
        f()
    except OSError:
        pass


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = ('random sequences of 1-8 valid requests on one connection, random method/path/query/headers/body, random TCP segmentation (every byte, around header/body borders, '
              '2048-byte reads) and short reads injected in the server; non-trivial: distinct streams whose every request was echoed and compared')
    total = c.scale(1100, 12000)
    for part, (shortreads, detached, lockdelay) in enumerate([(0, 0, 0), (3, 0, 0), (3, 1, 200)]):
        s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': str(lockdelay)}, shortreads=shortreads, seed=c.seed, rxto=60000, txto=60000, threadlist=1 - detached)
        good = {}

        def one(i):
            sid = '%d-%d' % (part, i)
            key = 'c01/%d/%s' % (c.seed, sid)
            res, n = one_stream(c, random.Random(key), s.port, sid, shortreads)
            if res and res[0] == 'no-response':
                # a stalled machine must not look like a lost request: once more before it counts
                sid += 'r'
                res, n = one_stream(c, random.Random(key), s.port, sid, shortreads)
            if res:
                vkey, msg, reqs, cuts, data = res
                c.violation('delivery:' + vkey, msg, cuts=cuts, stream=data[:20000])
                c.case()
                return True
            good[sid] = n
            c.case(sid, sample='stream ' + key)
        parallel(c, range(total // (2 if part < 2 else 4)), one, alive=s.alive)
        # exactly once: every request of a completely answered stream entered the handler exactly once, in order
        entered = {}
        for l in s.evs('IN '):
            w = l.split(' ')
            parts = srv.unhexb(w[5]).split(b'/')
            if len(parts) > 3:
                entered.setdefault(parts[2].decode(), []).append(int(parts[3]))
            c.count('handler_entries')
        for sid, n in good.items():
            if entered.get('s' + sid) != list(range(n)):
                c.violation('delivery:exactly-once', 'stream %s: %d requests answered, handler entered for requests %r' % (sid, n, entered.get('s' + sid)))
        s.stop(c)
    c.samples = c.samples[:4]
    c.require('requests_checked', 500 if not c.viol else 0)
