"""C11: correlation ids."""
import random, socket, threading
from vlib import build, srv, traffic, proc
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: offline uniqueness and matching check over ids recorded by clients, the handler log and a multi-threaded id generator driver, under TSan and ASan'
NOTE = 'Single ids are 31-bit random numbers, so uniqueness is required of (connection, request) pairs; single ids must be well-formed and repeat no more often than chance allows (20 x the expectation plus 6).'


def generator(c, variant, exe, threads, n, i):
    o = proc.run(c, exe, ['shortid', 'threads=%d' % threads, 'n=%d' % n, 'seed=%d' % (c.seed * 100 + i)])
    if o is None:
        return True
    ids = []
    for l in o[0].decode('latin1').split('\n'):
        w = l.split(' ')
        if w[0] == 'F':
            v = int(w[1])
            want = v.to_bytes(4, 'little').hex()
            if not (int(w[2]) == int(w[4]) == v and w[3] == w[5] == want):
                c.violation('ids:fixed', 'ShortID(%d) renders as %r' % (v, w))
                return True
            c.case('fixed%d' % v)
        elif len(w) == 2:
            v, t = int(w[0]), w[1]
            if t != v.to_bytes(4, 'little').hex():
                c.violation('ids:format', 'id %d is rendered as %r instead of its 8 hex digits' % (v, t))
                return True
            ids.append(v)
    if len(ids) != threads * n:
        c.problem('generator printed %d of %d ids' % (len(ids), threads * n))
        return
    dup = len(ids) - len(set(ids))
    exp = len(ids) ** 2 / 2 / 2 ** 31
    if dup > 20 * exp + 6:
        c.violation('ids:repeat', '%d of %d ids generated by %d threads repeat (expected about %.2f)' % (dup, len(ids), threads, exp))
        return True
    c.count('ids_generated', len(ids))
    c.note_max('repeats_in_one_run', dup)
    c.case('gen/%s/%d/%d' % (variant, threads, i))


def traffic_phase(c, variant, exe, total, workers):
    s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': '300'} if variant == 'tsan' else None, seed=c.seed, rxto=60000, txto=60000, maxconn=0, delayus=200)
    seen, conns, lock = {}, {}, threading.Lock()

    def one(i):
        key = 'c11/%d/%s/%d' % (c.seed, variant, i)
        rng = random.Random(key)
        try:
            n, ids, kinds = traffic.client(rng, s.port, '%s%d' % (variant, i))
        except traffic.Mixed as e:
            if e.key.startswith('id-'):
                c.violation('ids:' + e.key, '%s (client %s)' % (e, key))
                return True
            c.count('clients_failed_otherwise')
            return
        except (OSError, srv.BadResponse):
            c.count('clients_failed_otherwise')
            return
        with lock:
            conns.setdefault(ids.ctx, []).append(i)
            for p in ids.pairs:
                if p in seen:
                    c.violation('ids:duplicate', 'exchanges of clients %d and %d carry the same id %s-%s' % (seen[p], i, *p))
                seen[p] = i
            c.count('exchanges', len(ids.pairs))
        c.case(key, sample='%s: connection id %s, %d requests' % (key, ids.ctx, n))
    parallel(c, range(total), one, workers=workers, alive=s.alive)
    # the handler log agrees, and covers also exchanges whose client did not look
    inn = [tuple(l.split(' ')[2:4]) for l in s.evs('IN ')]
    if len(set(inn)) != len(inn):
        c.violation('ids:duplicate-handler', 'the handler saw the same id pair twice among %d invocations' % len(inn))
    missing = [p for p in seen if p not in set(inn)]
    if missing:
        c.violation('ids:unmatched', 'a client got an id no handler invocation had: %r' % (missing[0],))
    rep = sum(len(v) - 1 for v in conns.values())
    if rep > 6:
        c.violation('ids:connection-repeat', '%d of %d connections share their connection id with another one' % (rep, len(conns)))
    c.count('connections', len(conns))
    # ids of responses the server produces itself (protocol errors) are well-formed too
    errs = set()
    for i in range(c.scale(60, 300)):
        k = srv.Conn(s.port)
        try:
            k.send(b'GET /x HTTP/1.1\r\nbroken\r\n\r\n')
            r = k.response()
            ids = traffic.Ids()
            traffic.check_id(ids, r)
            if ids.pairs[0] in errs or ids.pairs[0] in seen:
                c.violation('ids:duplicate', 'an error response repeats id %r' % (ids.pairs[0],))
            errs.add(ids.pairs[0])
            c.case('err%d' % i)
        except traffic.Mixed as e:
            c.violation('ids:' + e.key, '%s (error response)' % e)
        except (OSError, srv.BadResponse, AttributeError):
            c.count('clients_failed_otherwise')
        finally:
            k.close()
    s.stop(c, timeout=120)


def run(c):
    t = build.build('tsan', ['server', 'conc'])
    a = build.build('asan', ['server', 'conc'])
    c.rule = 'concurrent clients on many connections (each exchange matched against its own handler invocation), and id generation from 1-16 threads through constructor, update and copies; non-trivial: distinct clients / generator runs judged completely'
    for i, (v, e, th, n) in enumerate([('tsan', t, 8, 1500), ('tsan', t, 16, 800), ('asan', a, 1, 60000), ('asan', a, 16, c.scale(6000, 60000)), ('asan', a, 4, 10000)]):
        generator(c, v, e['conc'], th, n, i)
    # ids of separate processes must not start over from the same seed
    traffic_phase(c, 'tsan', t['server'], c.scale(250, 2500), 24)
    traffic_phase(c, 'asan', a['server'], c.scale(250, 2500), 24)
    if not c.viol:
        c.require('exchanges', 600)
        c.require('ids_generated', 50000)
