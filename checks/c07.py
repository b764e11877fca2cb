"""C07: isolation of concurrent connections; TSan on the request path."""
import random, socket, threading, time
from vlib import build, srv, traffic
from vlib.par import parallel

TECHNIQUE = 'ThreadSanitizer and ASan builds of the real server under concurrent mixed traffic with perturbed socket-call timing; every answer is compared at the client with what that very request must yield'
NOTE = 'Interleavings are those produced by the OS scheduler under load and random delays around the socket calls; the evidence counts observed handler overlaps.'


def overlaps(evs):
    cur, mx, n, seen = set(), 0, 0, set()
    for l in evs:
        if l.startswith('IN '):
            w = l.split(' ')
            if cur:
                n += 1
            cur.add(w[1])
            mx = max(mx, len(cur))
        elif l.startswith('OUT '):
            cur.discard(l.split(' ')[1])
    return mx, n


def phase(c, variant, exe, delayus, total, workers, lockdelay=0, **opts):
    s = srv.Server(exe, env={'LAMBDA_LOCKDELAY': str(lockdelay)}, delayus=delayus, seed=c.seed + delayus, rxto=60000, txto=60000, logreq=1, logtransport=1, maxconn=0, **opts)
    pairs = {}
    lock = threading.Lock()

    def one(i):
        key = 'c07/%d/%s/%d/%d' % (c.seed, variant, delayus, i)
        rng = random.Random(key)
        if i % 4 == 3:
            c.count('disturbances_' + traffic.disturber(rng, s.port, str(i)).replace('-', '_'))
            return
        for attempt in (0, 1):
            try:
                n, ids, kinds = traffic.client(rng, s.port, '%s%d' % (variant, i * 2 + attempt))
            except traffic.Mixed as e:
                c.violation('isolation:' + e.key, '%s (client %s)' % (e, key))
                return True
            except socket.timeout as e:
                if attempt == 0:
                    continue
                c.violation('isolation:no-response', 'no answer within 60 s twice (client %s): %s' % (key, e))
                return True
            except (OSError, srv.BadResponse) as e:
                c.violation('isolation:framing', '%r (client %s)' % (e, key))
                return True
            break
        c.case(key + ','.join(kinds), sample='%s: %s' % (key, kinds))
        c.count('responses_compared', n)
        with lock:
            for p in ids.pairs:
                if pairs.setdefault(p, i) != i:
                    c.violation('isolation:duplicate-id', 'clients %d and %d both got the id pair %r' % (pairs[p], i, p))
    parallel(c, range(total), one, workers=workers, alive=s.alive)
    mx, n = overlaps(s.evs())
    c.note_max('max_simultaneous_handlers', mx)
    c.count('handler_entries_overlapping_others', n)
    s.stop(c, timeout=120)


def run(c):
    t = build.build('tsan', ['server'])['server']
    a = build.build('asan', ['server'])['server']
    c.rule = 'clients with 1-12 mixed requests each (echo, compressed responses, big bodies, failing handlers, HEAD, sleeping handlers; sequential or pipelined) run 16-32 at a time together with resetting, truncating and garbage clients, with and without random delays around socket calls; non-trivial: distinct clients all of whose answers were compared'
    phase(c, 'tsan', t, 0, c.scale(250, 2500), 24)
    phase(c, 'tsan', t, 0, c.scale(150, 1500), 24, lockdelay=400)
    phase(c, 'tsan', t, 800, c.scale(300, 3000), 32)
    phase(c, 'tsan', t, 300, c.scale(150, 1500), 24, threadlist=0)
    phase(c, 'asan', a, 300, c.scale(400, 4000), 24)
    if not c.viol:
        c.require('responses_compared', 1000)
        c.require('handler_entries_overlapping_others', 200)
