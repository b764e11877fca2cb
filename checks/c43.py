"""C43: the request log tells what happened, once."""
import random, re, socket, threading, time
from vlib import build, httpgen, srv, traffic, ws
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: offline check of the captured log of the live instrumented server (ASan+UBSan, TSan) against the exchanges the clients saw: each answered request, upgrade and failure exactly one record with its id, peer, method, path and status, each connection exactly one opening and one closing record, and no line that no event accounts for'
NOTE = 'Records are judged by their content (id, peer, method, path, status), not by their spacing. Messages of failing handlers are without line breaks. Which of the closing records ("closed" or "terminated") a connection gets is not judged.'

METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS', 'PATCH']
PATHCH = ''.join(chr(c) for c in range(0x21, 0x7f) if chr(c) not in '?#') + 'äöü'


def extra(rng):
    """Header fields that are nobody's business here."""
    return rng.sample([('Origin', 'http://a.example'), ('User-Agent', 'c43'), ('Accept', '*/*'), ('Referer', 'http://a.example/x'), ('X-Request-ID', 'deadbeef'), ('X-Forwarded-For', '10.9.8.7'), ('Cookie', 'a=b')], rng.choice([0, 0, 1, 3]))


class Seen:
    """What the clients know to have happened."""
    def __init__(self):
        self.lock = threading.Lock()
        self.requests = {}      # id -> (ctx, method, path, status, message of the failure)
        self.upgrades = {}      # id -> (ctx, method, path, protocol, message of the failure)
        self.aborted = set()    # ids of requests that were no proper handshake
        self.ports = {}         # client port -> context id or None, for connections that had any answer


def rpath(rng, tag):
    return '/echo/%s/%s' % (tag, ''.join(rng.choice(PATHCH) for _ in range(rng.choice([0, 0, 3, 20, 200]))))


def client(rng, port, seen, c, tag):
    k = srv.Conn(port, 30)
    ctx = None
    try:
        for i in range(rng.choice([1, 1, 3, 8])):
            what = rng.choice(['echo', 'echo', 'echo', 'resp', 'throw', 'sse', 'ws', 'badws'])
            t = '%s.%d' % (tag, i)
            method = rng.choice(METHODS)
            fail = None
            if what == 'echo':
                path = rpath(rng, t)
                q = rng.choice(['', '?a=b', '?q=-->', '?x=y%0Az'])
                k.send(srv.req(method, (path + q).encode('latin1'), [('X-T', t)] + extra(rng), None if method in ('GET', 'HEAD') else b'b' * rng.choice([0, 10, 5000])))
            elif what == 'resp':
                method, path = 'POST', '/resp/' + t
                k.send(srv.req(method, path, extra(rng), srv.spec(code=rng.choice([200, 204, 302, 404, 500, 503]), body=b'x')))
            elif what == 'throw':
                method, path = 'POST', '/throw/' + t
                kind = rng.choice(['runtime', 'custom', 'lambda', 'int'])
                fail = 'failure of ' + t
                k.send(srv.req(method, path + '?kind=' + kind, extra(rng), fail.encode()))
                fail = '' if kind == 'int' else fail
            elif what == 'sse':
                method, path = 'POST', '/sse/' + t
                if rng.random() < 0.4:
                    fail = 'failure.of.' + t
                k.send(srv.req(method, path + ('?mode=throw&msg=' + fail if fail else ''), extra(rng), b'E ' + b'data'.hex().encode() + b' ~ ~ ~\n\n'))
            else:
                method, path = 'GET', '/ws/' + t
                if rng.random() < 0.3:
                    fail = 'failure.of.' + t
                if what == 'badws':
                    fail = None
                    k.send(srv.req('GET', path + '?mode=echo', rng.choice([[], [('Upgrade', 'websocket'), ('Connection', 'Upgrade')], [('Upgrade', 'h2c'), ('Connection', 'Upgrade'), ('Sec-WebSocket-Key', 'x')]])))
                else:
                    k.send(ws.handshake_req(path + ('?mode=throw&msg=' + fail if fail else '?mode=echo')))
            r = k.response(head=method == 'HEAD' or what in ('sse', 'ws'), timeout=30)
            if r is None:
                raise traffic.Mixed('closed', 'connection closed instead of answering %s' % t)
            x = r.get('x-request-id')
            ctx, rid = x[:8], x[9:]
            with seen.lock:
                seen.ports[k.lport] = ctx
                if what in ('sse', 'ws'):
                    seen.upgrades[rid] = (ctx, method, path, 'SSE' if what == 'sse' else 'Websocket', fail)
                else:
                    seen.requests[rid] = (ctx, method, path, r.code, fail)
                    if what == 'badws':
                        seen.aborted.add(rid)
            if what == 'badws' and r.code < 400:
                raise traffic.Mixed('handshake', 'a request that is no handshake was answered with %d' % r.code)
            if fail and what in ('sse', 'ws'):
                c.count('failures_after_upgrade')
            c.count('seen_' + what)
            if what == 'sse':
                k.read_all(10)
                break
            if what == 'badws':
                break
            if what == 'ws':
                if fail:
                    k.read_all(10)
                    break
                k.send(rng.choice([ws.frame(ws.CLOSE, b'\x03\xe8'), ws.frame(ws.TEXT, b'!return'), b'']))
                break
    finally:
        if rng.random() < 0.3:
            k.rst()
        else:
            k.close()


def refused(rng, port, seen, c, tag):
    """Requests that never get to a handler, some of which would show up as something else in a naive log."""
    forged = b'[deadbeef] (127.0.0.1) GET /forged --> 200'
    kind = rng.choice(['lf-path', 'cr-path', 'lf-method', 'header-lf', 'bad-length', 'bad-method', 'no-request', 'garbage', 'esc-path', 'tab-path', 'lf-query'])
    sep = rng.choice([b'\n', b'\n', b'\r', b'\n\r'])
    nosp = forged.replace(b' ', b'\t')
    data = {
        'lf-path': b'GET /echo/x' + sep + nosp + sep + b' HTTP/1.1\r\nHost: a\r\n\r\n',
        'cr-path': b'GET /echo/x\r' + nosp + b'\r HTTP/1.1\r\nHost: a\r\n\r\n',
        'lf-query': b'GET /echo/x?a=b' + sep + nosp + b' HTTP/1.1\r\nHost: a\r\n\r\n',
        'lf-method': b'GET' + sep + nosp + sep + b' /echo HTTP/1.1\r\nHost: a\r\n\r\n',
        'esc-path': b'GET /echo/\x1b[2J\x08\x07\x00\x7f HTTP/1.1\r\nHost: a\r\n\r\n',
        'tab-path': b'GET /echo/\t\x0b\x0cx HTTP/1.1\r\nHost: a\r\n\r\n',
        'header-lf': b'GET /echo/x HTTP/1.1\r\nHost: a' + sep + forged + b'\r\n\r\n',
        'bad-length': b'POST /echo/x HTTP/1.1\r\nContent-Length: x' + sep + nosp + b'\r\n\r\n',
        'bad-method': b'FETCH /echo/x HTTP/1.1\r\nHost: a\r\n\r\n',
        'no-request': b'', 'garbage': bytes(rng.randrange(256) for _ in range(60)) + b'\r\n\r\n',
    }[kind]
    k = srv.Conn(port, 30)
    with seen.lock:
        seen.ports.setdefault(k.lport, None)
    try:
        k.send(data)
        if kind == 'no-request':
            k.close()
            return kind
        r = k.response(timeout=30)
        if r is not None and r.get('x-request-id'):
            with seen.lock:
                seen.ports[k.lport] = r.get('x-request-id')[:8]
                if r.code < 400:
                    # served nevertheless: then it has its record like any other
                    e = srv.Echo(r.body)
                    seen.requests[e.req] = (e.ctx, e.method, e.path.decode('latin1'), r.code, None)
        k.close()
    except (OSError, srv.BadResponse):
        k.close()
    return kind


def judge(c, out, err, seen, logreq, logtransport, what):
    """Every line of the log belongs to one event and every event has its line."""
    todo = {}
    for rid, (ctx, m, p, code, fail) in seen.requests.items():
        todo[('answer', rid)] = 'answer %s %s %d' % (m, p, code)
        if fail is not None:
            todo[('failure', rid)] = 'failure of %s' % p
    for rid, (ctx, m, p, proto, fail) in seen.upgrades.items():
        todo[('upgrade', rid)] = 'upgrade %s %s' % (p, proto)
        if fail:
            todo[('failure', rid)] = 'failure of %s' % p
    for rid in seen.aborted:
        todo[('abort', rid)] = 'a refused protocol switch'
    if not logreq:
        todo = {}
    opened, ended, tried = {}, {}, set()
    bad = 0

    def wrong(key, msg):
        nonlocal bad
        bad += 1
        if bad <= 5:
            c.violation('log:' + key, '%s (%s)' % (msg, what))
    # the text is bytes read as latin1; only line feeds end records
    for stream, text in (('stdout', out), ('stderr', err)):
        if text and not text.endswith('\n'):
            wrong('unended', 'the %s log does not end with a line break: %r' % (stream, text[-80:]))
        for line in text.split('\n'):
            if not line or line.startswith('[Service]'):
                continue
            if any(ord(ch) < 0x20 and ch != '\t' for ch in line) or '\x7f' in line:
                wrong('control-characters', 'a log line contains control characters: %r' % line[:200])
                continue
            m = re.fullmatch(r'\[Transport\] ([0-9a-f]{8}) created for ([0-9.]+):(\d+)', line)
            if m and logtransport and stream == 'stdout':
                if m.group(1) in opened:
                    wrong('opened-twice', 'connection %s has two opening records' % m.group(1))
                opened[m.group(1)] = int(m.group(3))
                if m.group(2) != '127.0.0.1':
                    wrong('peer', 'the peer in %r is wrong' % line)
                continue
            m = re.fullmatch(r'\[Transport\] ([0-9a-f]{8}) \(127\.0\.0\.1\) (closed|terminated:.*)', line)
            if m and (logtransport or (logreq and stream == 'stderr')):
                if m.group(1) in ended:
                    wrong('closed-twice', 'connection %s has two closing records' % m.group(1))
                ended[m.group(1)] = line
                continue
            m = re.fullmatch(r'\[([0-9a-f]{8})\] \(([^ )]*)\) (.*)', line)
            if m and logreq:
                rid, peer, rest = m.groups()
                if rest.startswith('Handler crashed:') and stream == 'stderr':
                    key = ('failure', rid)
                    r = seen.requests.get(rid) or seen.upgrades.get(rid)
                    ok = r is not None and r[4] is not None and r[4] in rest
                elif rest.startswith('Protocol switch aborted:') and stream == 'stderr':
                    key = ('abort', rid)
                    r = seen.requests.get(rid)
                    ok = rid in seen.aborted
                elif rid in seen.aborted and rest.endswith(' --> Websocket'):
                    # the attempt that was then aborted
                    key = ('attempt', rid)
                    r = seen.requests[rid]
                    ok = rest == '%s %s --> Websocket' % r[1:3]
                    if key not in tried:
                        tried.add(key)
                        todo[key] = ''
                elif rid in seen.upgrades:
                    key = ('upgrade', rid)
                    r = seen.upgrades[rid]
                    ok = rest.split(' --> ')[0] == '%s %s' % r[1:3] and r[3] in rest.split(' --> ')[-1]
                else:
                    key = ('answer', rid)
                    r = seen.requests.get(rid)
                    ok = r is not None and rest == '%s %s --> %d' % r[1:4]
                if r is None:
                    wrong('unaccounted', 'a log line of no known request: %r' % line[:300])
                    continue
                if peer != (r[0] if logtransport else '127.0.0.1'):
                    wrong('peer', 'the peer of %r is not that of the request' % line[:200])
                if not ok:
                    wrong('content', 'the record %r is not that of the request %r' % (line[:300], r))
                elif key not in todo:
                    wrong('repeated', 'a second record %r' % line[:300])
                else:
                    del todo[key]
                    c.case('%s/%s' % (what, key))
                continue
            wrong('unaccounted', 'a log line that no event accounts for: %r' % line[:300])
    for k, v in list(todo.items())[:3]:
        wrong('missing-' + k[0], 'no record of %s %s' % (k[1], v))
    if logtransport:
        byport = {p: i for i, p in opened.items()}
        for port, ctx in seen.ports.items():
            if ctx is not None and opened.get(ctx) != port:
                wrong('opening-missing', 'connection %s from port %d has no such opening record' % (ctx, port))
            elif ctx is None and port not in byport:
                wrong('opening-missing', 'the connection from port %d has no opening record' % port)
        for ctx in opened:
            if ctx not in ended:
                wrong('closing-missing', 'connection %s has no closing record' % ctx)
        for ctx in ended:
            if ctx not in opened:
                wrong('closing-unknown', 'a closing record of connection %s that was never opened' % ctx)
        c.count('connections', len(opened))
    if not logreq and not logtransport and err:
        wrong('quiet', 'something was logged with logging off: %r' % err[:200])


def phase(c, variant, exe, logreq, logtransport, total, workers, k):
    s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': '500' if k % 2 else '0'}, seed=c.seed, rxto=20000, txto=20000, maxconn=0, logreq=logreq, logtransport=logtransport, reuse=1)
    seen = Seen()
    what = '%s/%d%d/%d' % (variant, logreq, logtransport, k)

    def one(i):
        key = 'c43/%d/%s/%d' % (c.seed, what, i)
        rng = random.Random(key)
        try:
            if i % 4 == 3:
                c.count('refused_' + refused(rng, s.port, seen, c, str(i)).replace('-', '_'))
            else:
                client(rng, s.port, seen, c, '%s%d' % (variant, i))
        except traffic.Mixed as e:
            c.violation('log:' + e.key, '%s (%s)' % (e, key))
            return True
        except (OSError, srv.BadResponse) as e:
            c.violation('log:connection', '%r (%s)' % (e, key))
            return True
    parallel(c, range(total), one, workers=workers, alive=s.alive)
    if s.alive():
        # every connection has ended, so has every worker
        end = time.time() + 30
        while time.time() < end:
            st = s.stat()
            if not st or st['active'] == 0:
                break
            time.sleep(0.1)
        s.ctl('destroy')
    s.stop(c, timeout=90)
    if not c.viol:
        judge(c, s.final_out, s.final_err, seen, logreq, logtransport, what)
    c.count('sessions')


def run(c):
    c.rule = 'a log record that was matched with the exchange, upgrade or failure it belongs to, over sessions of concurrent clients (echoes, all kinds of answers, failing handlers, event streams, WebSockets, requests that forge log lines, garbage) with each of the log settings'
    exes = {v: build.build(v, ['server'])['server'] for v in ('asan', 'tsan')}
    jobs = []
    for k in range(c.scale(6, 40)):
        jobs += [('asan', exes['asan'], 1, 0, 250, 12, k), ('asan', exes['asan'], 1, 1, 250, 12, k), ('tsan', exes['tsan'], 1, 1, 120, 8, k)]
    jobs += [('asan', exes['asan'], 0, 1, 100, 8, 0), ('asan', exes['asan'], 0, 0, 100, 8, 0)]
    parallel(c, jobs, lambda j: phase(c, *j), workers=4)
    if not c.viol:
        c.require('seen_echo', 300)
        c.require('connections', 300)
        c.require('refused_lf_path', 3)
        c.require('failures_after_upgrade', 10)
        c.require('seen_badws', 10)
