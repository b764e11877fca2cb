"""C46: server instances in one process are independent of each other."""
import json, random, re, socket, threading, time
from vlib import build, codecs, srv, ws

TECHNIQUE = 'runtime monitoring: random histories of starting, probing, loading, shutting down and restarting up to five differently configured server instances in one instrumented process (ASan+UBSan, TSan); every observation is compared with the configuration and state of the instance it was made on, while clients of the other instances must notice nothing'
NOTE = 'Thread-list mode. Timeouts of 400 to 1500 ms are judged with 40 ms before and 1.5 s after.'


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Inst:
    pass


def get(port, target, headers=(), body=None, method='GET', timeout=30):
    k = srv.Conn(port, timeout)
    try:
        k.send(srv.req(method, target, headers, body))
        return k.response(timeout=timeout)
    finally:
        k.close()


def who(k, i, tag, accept='br'):
    k.send(srv.req('GET', '/who?tag=%s&size=3000' % tag, [('Accept-Encoding', accept)]))
    r = k.response(timeout=30)
    if r is None:
        raise Bad('closed', 'instance %s closed instead of answering' % i.id)
    if r.code != 200 or r.get('x-instance') != i.id:
        raise Bad('foreign-answer', 'asked instance %s, got %d from %r' % (i.id, r.code, r.get('x-instance')))
    ce = r.get('content-encoding')
    if bool(ce) != bool(i.cfg['compress']):
        raise Bad('compression', 'instance %s with compression %d answered with content-encoding %r' % (i.id, i.cfg['compress'], ce))
    body = r.body
    if ce:
        body, why = codecs.decode(ce, body)
    if not body or not body.startswith(('instance %s call %s\n' % (i.id, tag)).encode()):
        raise Bad('foreign-answer', 'instance %s answered %r' % (i.id, body and body[:60]))
    return r


def load(i, stop, errs, c, key):
    """A client of one instance that goes on until told to stop; nothing may disturb it."""
    rng = random.Random(key)
    n = 0
    try:
        while not stop.is_set():
            k = srv.Conn(i.port, 30)
            for _ in range(rng.choice([1, 4])):
                n += 1
                r = who(k, i, '%d' % n, rng.choice(['br', 'gzip']))
                if r.get('connection') != ('keep-alive' if i.cfg['reuse'] else 'close'):
                    raise Bad('persistence', 'instance %s with connection reuse %d announced %r' % (i.id, i.cfg['reuse'], r.get('connection')))
                if not i.cfg['reuse']:
                    break
                time.sleep(rng.random() * 0.01)
            k.close()
    except Bad as e:
        errs.append((e.key, '%s (load on %s)' % (e, i.id)))
    except (OSError, srv.BadResponse) as e:
        errs.append(('disturbed', 'a client of instance %s, which nobody had stopped, got %r' % (i.id, e)))
    c.count('answers_under_load', n)


def probe(i, rng, c):
    what = rng.choice(['who', 'error', 'limit', 'limit', 'headlimit', 'messagelimit', 'timeout', 'sse', 'ws', 'connections', 'persistence'])
    if what == 'who':
        k = srv.Conn(i.port, 30)
        who(k, i, 'p')
        k.close()
    elif what == 'error':
        msg = rng.choice([None, 'common', 'common', 'x' * 300])     # also what the others say
        r = get(i.port, '/throw' + ('?msg=' + msg if msg else ''))
        body = r.body.decode()
        form = 'json' if body.lstrip().startswith('{') else 'html' if '<html' in body.lower() else 'plain'
        if r.code != 500 or (msg or 'failure in ' + i.id) not in body or form != i.cfg['errtype']:
            raise Bad('error-format', 'the error of instance %s (format %s) came as %d %s: %r' % (i.id, i.cfg['errtype'], r.code, form, body[:100]))
    elif what == 'limit':
        head = srv.req('POST', '/post', [], b'')
        room = i.cfg['maxreq'] - len(head) - 8
        fits = rng.random() < 0.5
        n = room if fits else i.cfg['maxreq'] + 1
        r = get(i.port, '/post', [], b'x' * n, 'POST') if fits else None
        if fits and (r is None or r.code != 200 or r.body != b'%s got %d' % (i.id.encode(), n)):
            raise Bad('size-limit', 'instance %s (limit %d) answered a request of %d bytes of body with %r' % (i.id, i.cfg['maxreq'], n, r and (r.code, r.body[:50])))
        if not fits:
            k = srv.Conn(i.port, 30)
            k.send(srv.req('POST', '/post', [('Content-Length', str(n))]))
            r = k.response(timeout=30)
            if r is not None and r.code != 413:
                raise Bad('size-limit', 'instance %s (limit %d) answered a request of %d bytes of body with %d' % (i.id, i.cfg['maxreq'], n, r.code))
            k.close()
    elif what == 'headlimit':
        fits = rng.random() < 0.5
        n = i.cfg['maxreq'] - 300 if fits else i.cfg['maxreq'] + 50
        try:
            r = get(i.port, '/who?tag=h', [('X-Long', 'y' * n)])
        except OSError:
            r = None        # closed while the request was still being sent
        if fits != (r is not None and r.code == 200):
            raise Bad('size-limit', 'instance %s (limit %d) answered a header of %d bytes with %r' % (i.id, i.cfg['maxreq'], n, r and r.code))
    elif what == 'messagelimit':
        fits = rng.random() < 0.5
        n = i.cfg['maxreq'] - 100 if fits else i.cfg['maxreq'] + 1
        w = ws.Ws(i.port, '/ws')
        try:
            w.send(ws.frame(ws.TEXT, b'm' * n))
            fr = w.next()
        except (OSError, ws.BadFrame):
            fr = None
        ok = fr is not None and fr[1] == ws.TEXT and fr[2] == i.id.encode() + b':' + b'm' * n
        if fits != ok or not fits and fr is not None and fr[1] != ws.CLOSE:
            raise Bad('size-limit', 'instance %s (limit %d) answered a message of %d bytes with %r' % (i.id, i.cfg['maxreq'], n, fr and (fr[1], fr[2][:40])))
        w.c.close()
    elif what == 'timeout':
        k = srv.Conn(i.port, 30)
        k.send(b'GET /who HTT')
        t0 = time.time()
        while k.fill(30):
            pass
        ms = (time.time() - t0) * 1000
        k.close()
        if not i.cfg['rxto'] - 40 <= ms <= i.cfg['rxto'] + 1500:
            raise Bad('timeout', 'instance %s (timeout %d ms) closed a stalled connection after %d ms' % (i.id, i.cfg['rxto'], ms))
    elif what == 'sse':
        n = rng.choice([1, 20])
        k = srv.Conn(i.port, 30)
        k.send(srv.req('GET', '/sse?n=%d' % n))
        r = k.response(head=True)
        text = k.read_all(30)
        k.close()
        got = re.findall(rb'data: (\S+) (\d+)', text)
        if r.code != 200 or got != [(i.id.encode(), b'%d' % j) for j in range(n)]:
            raise Bad('foreign-events', 'the %d events of instance %s came as %r' % (n, i.id, got[:5]))
    elif what == 'ws':
        w = ws.Ws(i.port, '/ws')
        for j in range(3):
            w.send(ws.frame(ws.TEXT, b'm%d' % j))
            fin, op, payload = w.next()[:3]
            if payload != b'%s:m%d' % (i.id.encode(), j):
                raise Bad('foreign-message', 'instance %s echoed %r' % (i.id, payload))
        w.send(ws.frame(ws.CLOSE, b'\x03\xe8'))
        w.c.close()
    elif what == 'persistence':
        k = srv.Conn(i.port, 30)
        who(k, i, 'q')
        if i.cfg['reuse']:
            who(k, i, 'r')
        elif not k.at_eof(5):
            raise Bad('persistence', 'instance %s without connection reuse left the connection open' % i.id)
        k.close()
    else:
        if i.loaded or i.cfg['maxconn'] > 80:
            return
        # as many as fit, then one more; its limit is its own
        ks = []
        time.sleep(0.2)
        for j in range(i.cfg['maxconn']):
            k = srv.Conn(i.port, 30)
            k.send(b'GET /')
            ks.append(k)
        time.sleep(0.1)
        early = [k for k in ks if _closed(k)]
        k = srv.Conn(i.port, 30)
        more = _closed(k, 5)
        for x in ks + [k]:
            x.close()
        # a connection that had ended may have still been counted, so only clear cases are judged
        if len(early) > 5:
            raise Bad('connection-limit', 'instance %s (limit %d) closed %d connections below its limit' % (i.id, i.cfg['maxconn'], len(early)))
        if not more and time.time() - i.started > 0 and i.cfg['rxto'] > 1200:
            raise Bad('connection-limit', 'instance %s (limit %d) kept connection number %d' % (i.id, i.cfg['maxconn'], len(ks) + 1))
        c.count('limits_reached')
    c.count('probe_' + what)


def _closed(k, wait=0.0):
    try:
        k.s.settimeout(wait or 0.001)
        return k.s.recv(10) == b''
    except (socket.timeout, BlockingIOError):
        return False
    except OSError:
        return True


def history(c, variant, exe, key, steps):
    rng = random.Random(key)
    s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': '300'} if rng.random() < 0.3 else None, start=False)
    live, loads, errs = {}, {}, []
    n = 0
    log = []
    freed = []
    base = None

    def ctl(cmd, timeout=60):
        res, ms = s.ctl(cmd, timeout)
        log.append('%s -> %s %s' % (cmd, res, ms))
        return res, ms

    def unload(i):
        for stop, t in loads.pop(i.id, []):
            stop.set()
            t.join(60)
        i.loaded = False
    try:
        s.ctl('start first port=%d' % srv.free_port())     # the sanitizers have threads of their own, too
        s.ctl('destroy first')
        base = s.ctl('stat')[0]
        for step in range(steps):
            op = rng.choice(['start', 'start', 'probe', 'probe', 'probe', 'probe', 'load', 'stop', 'clash'])
            if op == 'start' and len(live) < 5 or not live:
                n += 1
                i = Inst()
                i.id, i.loaded = 'i%d' % n, False
                i.cfg = dict(compress=rng.randrange(2), reuse=rng.randrange(2), maxreq=rng.choice([4096, 9000, 20000, 200000]), errtype=rng.choice(['json', 'html', 'plain']),
                             rxto=rng.choice([400, 900, 1500]), maxconn=rng.choice([50, 53, 500]), logreq=rng.randrange(2))
                i.port = freed.pop() if freed and rng.random() < 0.5 else srv.free_port()
                i.started = time.time()
                res, ms = ctl('start %s port=%d %s' % (i.id, i.port, ' '.join('%s=%s' % kv for kv in i.cfg.items())))
                if res != 'ok':
                    raise Bad('start', 'instance %s on a free port did not start: %s' % (i.id, res))
                live[i.id] = i
                c.count('instances_started')
                c.note_max('instances_at_once', len(live))
            elif op == 'clash':
                i = live[rng.choice(sorted(live))]
                res, ms = ctl('start x%d port=%d' % (step, i.port))
                if not res.startswith('exception'):
                    raise Bad('clash', 'a second instance started on the port of %s: %s' % (i.id, res))
                k = srv.Conn(i.port, 30)
                who(k, i, 'c')
                k.close()
                c.count('clashes')
            elif op == 'probe':
                probe(live[rng.choice(sorted(live))], rng, c)
                c.case('%s/%d' % (key, step))
            elif op == 'load':
                i = live[rng.choice(sorted(live))]
                stop = threading.Event()
                t = threading.Thread(target=load, args=(i, stop, errs, c, '%s/%d' % (key, step)))
                t.start()
                i.loaded = True
                loads.setdefault(i.id, []).append((stop, t))
            else:
                i = live.pop(rng.choice(sorted(live)))
                unload(i)
                how = rng.choice(['shutdown+await+destroy', 'shutdown+destroy', 'destroy'])
                others = len(loads)
                for w in how.split('+'):
                    res, ms = ctl('%s %s' % (w, i.id))
                    if res != 'ok':
                        raise Bad('stop', '%s of instance %s: %s' % (w, i.id, res))
                    if ms > 8000:
                        raise Bad('stop-time', '%s of instance %s took %d ms' % (w, i.id, ms))
                try:
                    srv.Conn(i.port, 5).close()
                    raise Bad('stopped', 'the port of stopped instance %s still takes connections' % i.id)
                except ConnectionRefusedError:
                    pass
                freed.append(i.port)
                c.count('stops_while_others_are_loaded', 1 if others else 0)
            if errs:
                raise Bad(*errs[0])
    except Bad as e:
        c.violation('instances:' + e.key, '%s (%s); %s' % (e, key, log[-8:]))
    except (OSError, srv.BadResponse, AttributeError, ws.BadFrame) as e:
        if s.alive():
            c.violation('instances:disturbed', 'a client got %r (%s); %s' % (e, key, log[-8:]))
    finally:
        for i in list(live.values()):
            unload(i)
        if errs and not c.viol:
            c.violation('instances:' + errs[0][0], errs[0][1] + ' (%s)' % key)
        if s.alive() and not c.viol:
            for i in live.values():
                ctl('destroy ' + i.id)
            end = time.time() + 10
            while time.time() < end and s.ctl('stat')[0] != base:
                time.sleep(0.1)
            now = s.ctl('stat')[0]
            if now != base:
                c.violation('instances:left-over', 'after all instances were destroyed: %s, before: %s (%s)' % (now, base, key))
        s.stop(c, timeout=60, what=key)
    c.count('histories')


def run(c):
    from vlib.par import parallel
    exes = {v: build.build(v, ['multi'])['multi'] for v in ('asan', 'tsan')}
    c.rule = 'a probe of one instance (identity, compression, error format, size limit, timeout, connection limit, persistence, events, messages) in a history with others starting, stopping and under load'
    jobs = [('tsan' if j % 3 == 2 else 'asan', j) for j in range(c.scale(15, 150))]
    parallel(c, jobs, lambda j: history(c, j[0], exes[j[0]], 'c46/%d/%s/%d' % (c.seed, j[0], j[1]), 40), workers=6)
    if not c.viol:
        c.require('answers_under_load', 2000)
        c.require('stops_while_others_are_loaded', 10)
        c.require('probe_limit', 20)
        c.require('probe_headlimit', 10)
        c.require('probe_messagelimit', 10)
