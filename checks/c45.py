"""C45: long operation does not use up resources."""
import os, random, socket, threading, time
from vlib import build, srv, traffic, ws
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: rounds of mixed complete, failing, aborted and refused connections against the live instrumented server (thread-list and detached mode); at the quiet point after every round the threads, descriptors and live heap bytes (from the ASan allocator) must be back where they were after the first rounds'
NOTE = 'Live heap is judged with an allowance for the finished connections the thread list may keep (at most 75% of the connection limit). A quiet point is reached when all client connections are closed and no handler is active.'


def websocket(rng, port):
    k = srv.Conn(port, 20)
    k.send(ws.handshake_req('/ws?mode=echo'))
    if k.response(timeout=20).code != 101:
        raise OSError('no websocket')
    for i in range(rng.choice([0, 1, 5])):
        k.send(ws.frame(rng.choice([ws.TEXT, ws.BIN]), b'm' * rng.choice([0, 10, 3000])))
    how = rng.choice(['close', 'return', 'throw', 'drop', 'rst', 'bad', 'part'])
    k.send({'close': ws.frame(ws.CLOSE, b'\x03\xe8'), 'return': ws.frame(ws.TEXT, b'!return'), 'throw': ws.frame(ws.TEXT, b'!throw'), 'bad': b'\xff\xff\xff',
            'part': ws.frame(ws.TEXT, b'x' * 500)[:200]}.get(how, b''))
    if how in ('close', 'return', 'throw'):
        k.read_all(10)
    k.rst() if how == 'rst' else k.close()
    return 'ws_' + how


def events(rng, port):
    k = srv.Conn(port, 20)
    k.send(srv.req('POST', '/sse', [], b'\n'.join(b'E ' + (b'x' * rng.choice([1, 5000])).hex().encode() + b' ~ ~ ~' for _ in range(3)) + b'\n\n'))
    if rng.random() < 0.7:
        k.read_all(10)
        k.close()
        return 'sse_read'
    k.rst()
    return 'sse_dropped'


def refused(rng, port):
    k = srv.Conn(port, 20)
    k.send(rng.choice([b'POST / HTTP/1.1\r\nContent-Length: 99999999999\r\n\r\n', b'POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\n', b'BAD / HTTP/1.1\r\n\r\n', b'\r\n\r\n',
                       b'POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n', b'GET /ws HTTP/1.1\r\n\r\n', b'GET / HTTP/1.1\r\nX: ' + b'y' * 30000 + b'\r\n\r\n',
                       b'POST /throw/x?kind=int HTTP/1.1\r\nConnection: close\r\n\r\n', b'POST /throw/x HTTP/1.1\r\nConnection: close\r\n\r\n']))
    k.read_all(10) if rng.random() < 0.7 else None
    k.close()
    return 'refused'


def round_of(c, s, key, n, workers):
    def one(i):
        rng = random.Random('%s/%d' % (key, i))
        f = [traffic.client, traffic.client, traffic.disturber, websocket, events, refused, refused][i % 7]
        try:
            if f is traffic.client:
                f(rng, s.port, 'r%d' % i, timeout=30)
                c.count('clients')
            elif f is traffic.disturber:
                c.count('disturbances')
                f(rng, s.port, str(i))
            else:
                c.count(f(rng, s.port))
        except traffic.Mixed as e:
            c.violation('service:' + e.key, '%s (%s/%d)' % (e, key, i))
            return True
        except (OSError, AttributeError, srv.BadResponse) as e:
            if f is traffic.client:
                c.violation('service:connection', 'a regular client failed in a later round: %r (%s/%d)' % (e, key, i))
                return True
            c.count('peer_errors')
    parallel(c, range(n), one, workers=workers, alive=s.alive)


def quiet(s, threads, fds, limit=25):
    """The state once everything has ended, or the last one seen."""
    end = time.time() + limit
    st, last, same = None, None, 0
    while time.time() < end:
        st = s.stat()
        if not st:
            return None
        if st['active'] == 0 and (threads is None or st['threads'] <= threads) and (fds is None or st['fds'] <= fds):
            now = (st['threads'], st['fds'], st['heap'])
            same = same + 1 if now == last else 0
            last = now
            if same >= 2:
                return st
        time.sleep(0.1)
    return st


def phase(c, exe, threadlist, maxconn, rounds, n):
    what = 'threadlist=%d,maxconn=%d' % (threadlist, maxconn)
    s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': '300'} if not maxconn else None, seed=c.seed, rxto=4000, txto=4000, threadlist=threadlist, maxconn=maxconn)
    base = quiet(s, None, None)
    seen = []
    for k in range(rounds):
        round_of(c, s, 'c45/%d/%s/%d' % (c.seed, what, k), n, 10)
        if not s.alive() or c.viol:
            break
        st = quiet(s, base['threads'], base['fds'])
        if st is None:
            break
        seen.append(st)
        if st['active'] or st['threads'] > base['threads']:
            c.violation('threads:' + what, 'after round %d %d threads are left (%d before the first) and %d handlers active' % (k, st['threads'], base['threads'], st['active']))
            break
        if st['fds'] > base['fds']:
            c.violation('descriptors:' + what, 'after round %d %d descriptors are open (%d before the first)' % (k, st['fds'], base['fds']))
            break
        c.case('%s/%d/%d' % (what, c.seed, k), sample='%s: %d fds, %d threads, %d heap bytes' % (what, st['fds'], st['threads'], st['heap']))
    if len(seen) == rounds and not c.viol:
        # a leak shows in every round, what is kept for reuse does not
        heaps = [x['heap'] for x in seen]
        h = rounds // 2
        growth = min(heaps[h:]) - max(heaps[:h])
        allow = (48 * 1000 if threadlist and maxconn else 16000)
        c.note_max('largest_heap_growth', growth)
        c.count('connections_made', rounds * n)
        if growth > allow or (min(heaps[-h // 2:]) - min(heaps[:h])) > allow:
            c.violation('heap:' + what, 'the live heap grew over rounds of %d connections: %r' % (n, heaps))
    s.stop(c, timeout=60)


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'a round of some hundred connections of all kinds whose quiet point was compared with the start'
    jobs = [(1, 64), (0, 64), (1, 0)]
    parallel(c, jobs, lambda j: phase(c, exe, j[0], j[1], c.scale(6, 30), c.scale(350, 1400)), workers=3)
    if not c.viol:
        c.require('connections_made', 4000)
        c.require('clients', 1000)
