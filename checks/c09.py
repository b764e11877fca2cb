"""C09: connection limit and slot reuse in thread-list mode."""
import random, socket, time
from vlib import build, srv

TECHNIQUE = 'runtime monitoring: open/serve/close histories around the connection limit against the instrumented server, injected accept() failures and a real descriptor limit; monitor compares served/refused with a slot model at settled points'
NOTE = 'Slots are judged at settled points: after client-side closes the monitor waits until the server process shows the expected number of threads before it expects a slot. minConnections (50) is the smallest limit the library allows.'


def served(port, tag, timeout=20):
    """Connects and sends one request; True if served, False if closed without service, None if neither in time."""
    k = srv.Conn(port, timeout)
    try:
        k.send(srv.req('GET', '/echo/' + tag))
        r = k.response(timeout=timeout)
        if r is None:
            k.close()
            return False, None
        return r.code == 200, k
    except socket.timeout:
        k.close()
        return None, None
    except (OSError, srv.BadResponse):
        k.close()
        return False, None


def settle(s, base, want, timeout=15):
    end = time.time() + timeout
    n = 0
    while time.time() < end:
        st = s.stat()
        if st is None:
            return False
        if st['threads'] - base <= want:
            n += 1
            if n >= 2:
                return True
        time.sleep(0.02)
    return False


def history(c, exe, rng, limit, key):
    s = srv.Server(exe, maxconn=limit, rxto=120000, txto=120000)
    try:
        base = s.stat()['threads']
        open_, log = [], []
        steps = rng.choice([3, 5, 8])
        for step in range(steps):
            # fill up to the limit (always at least once)
            target = limit if step == 0 or rng.random() < 0.6 else rng.randrange(max(1, limit // 2), limit + 1)
            while len(open_) < target:
                ok, k = served(s.port, 's%d' % len(open_))
                if not ok:
                    return 'below-limit-refused', 'with %d of %d connections open a new one was %s; history %r' % (len(open_), limit, 'closed' if ok is False else 'not served', log)
                open_.append(k)
                c.count('connections_served')
            log.append('open=%d' % len(open_))
            # each open connection is really being served
            for k in rng.sample(open_, min(5, len(open_))):
                k.send(srv.req('GET', '/echo/again'))
                if k.response().code != 200:
                    return 'open-not-served', 'an accepted connection is not served at %d of %d; history %r' % (len(open_), limit, log)
            if len(open_) == limit:
                for j in range(rng.choice([1, 3, 10])):
                    ok, k = served(s.port, 'over')
                    if ok:
                        k.close()
                        return 'above-limit-served', 'connection number %d was served although the limit is %d; history %r' % (limit + 1, limit, log)
                    if ok is None:
                        return 'above-limit-hangs', 'connection above the limit %d neither served nor closed; history %r' % (limit, log)
                    c.count('refused_at_limit')
                log.append('refused')
            # close some
            n = rng.choice([1, 2, limit // 2, limit, rng.randrange(1, limit + 1)])
            rng.shuffle(open_)
            for _ in range(min(n, len(open_))):
                k = open_.pop()
                m = rng.randrange(4)
                if m == 0:
                    k.rst()
                elif m == 1:
                    k.send(srv.req('GET', '/echo/bye', [('Connection', 'close')]))
                    k.response()
                elif m == 2:
                    k.send(b'GET\r\n\r\n')          # ends in a protocol error
                elif m == 3:
                    k.send(b'GET / HTTP/1.1\r\nHos')  # incomplete
                k.close()
            log.append('closed to %d' % len(open_))
            if not settle(s, base, len(open_)):
                if not s.alive():
                    return None
                return 'worker-leak', 'connections ended at the client but %d worker threads remain for %d open connections; history %r' % (s.stat()['threads'] - base, len(open_), log)
        for k in open_:
            k.close()
    except (OSError, srv.BadResponse, AttributeError) as e:
        if s.alive():
            return 'client-error', '%r; history %r' % (e, log)
    finally:
        s.stop(c)


def churn(c, exe, rng, limit, threadlist, n):
    s = srv.Server(exe, maxconn=limit, threadlist=threadlist, rxto=120000, txto=120000)
    try:
        base = s.stat()['threads']
        held = []
        for i in range(n):
            ok, k = served(s.port, 'churn')
            if not ok:
                # the previous connection may not have been noticed as closed yet
                if not settle(s, base, len(held)):
                    return 'churn-stuck', 'after %d short connections workers are not released (limit %d)' % (i, limit)
                ok, k = served(s.port, 'churn')
            if not ok:
                return 'churn-refused', 'short connection number %d refused with %d open (limit %d)' % (i, len(held), limit)
            c.count('churned')
            if rng.random() < 0.02 and len(held) < limit // 2:
                held.append(k)
            else:
                k.close()
        if not settle(s, base, len(held)):
            return 'worker-leak', '%d threads above base after %d short connections with %d open' % (s.stat()['threads'] - base, n, len(held))
        for k in held:
            k.close()
    finally:
        s.stop(c)


def faults(c, exe, rng, threadlist):
    import errno
    s = srv.Server(exe, threadlist=threadlist, maxconn=200)
    try:
        for name in ('EMFILE', 'ENFILE', 'ECONNABORTED', 'ENOBUFS', 'ENOMEM', 'EINTR', 'EPROTO', 'EMFILE'):
            cnt = rng.choice([1, 2, 7])
            s.ctl('failaccept %d %d' % (getattr(errno, name), cnt))
            for i in range(cnt + 3):
                ok, k = served(s.port, 'f%d' % i, 10)
                if not ok:
                    return 'accept-failure', 'service stopped accepting after %d x accept() = %s (thread list %d)' % (cnt, name, threadlist)
                k.close()
                c.count('served_after_accept_failure')
            if s.stat()['acceptfailed'] < 1:
                return None
        c.count('accept_failures_injected', s.stat()['acceptfailed'])
    finally:
        s.stop(c)


def threads(c, exe, rng, threadlist):
    """Connections for which no thread can be started are closed; they take no slot and stop nothing."""
    s = srv.Server(exe, threadlist=threadlist, maxconn=50, rxto=60000)
    ks = []
    try:
        fails = 0
        for cnt in (1, 2, 7, 30, 60):
            s.ctl('failthread %d' % cnt)
            for i in range(cnt):
                ok, k = served(s.port, 'f%d' % i, 10)
                if ok:
                    return None, 'a connection was served without a thread?'
                if ok is None:
                    return 'thread-failure-hangs', 'a connection for which no thread could be started was neither served nor closed (thread list %d)' % threadlist
            fails += cnt
            for i in range(3):
                ok, k = served(s.port, 'g%d' % i, 10)
                if not ok:
                    return 'thread-failure', 'service stopped after %d connections without a thread (thread list %d)' % (fails, threadlist)
                k.close()
                c.count('served_after_thread_failure')
        c.count('thread_failures_injected', s.stat()['threadfailed'])
        if threadlist:
            settle(s, s.stat()['threads'], 0, 2)
            time.sleep(0.5)
            for i in range(50):
                ok, k = served(s.port, 'h%d' % i)
                if not ok:
                    return 'thread-failure-slot', 'with %d of 50 connections open a new one is refused after %d connections could not get a thread' % (i, fails)
                ks.append(k)
            ok, k = served(s.port, 'over')
            if ok:
                return 'above-limit-served', 'connection 51 of 50 served after %d connections could not get a thread' % fails
        if s.stat()['badcloses']:
            return 'bad-close', 'a descriptor that was not open was closed after thread failures'
    finally:
        for k in ks:
            k.close()
        s.stop(c)


def descriptors(c, exe, rng, threadlist):
    """A real descriptor shortage: more clients than descriptors, then they leave again."""
    s = srv.Server(exe, threadlist=threadlist, maxconn=500, nofile=90, rxto=60000)
    ks = []
    try:
        for i in range(150):
            k = srv.Conn(s.port, 20)
            ks.append(k)
        ks[0].send(srv.req('GET', '/echo/first'))
        if ks[0].response(timeout=15).code != 200:
            return 'fd-shortage', 'an accepted connection is not served during descriptor shortage'
        time.sleep(0.3)
        for k in ks[:100]:
            k.close()
        for k in ks[100:]:
            k.send(srv.req('GET', '/echo/late'))
        for i, k in enumerate(ks[100:]):
            try:
                r = k.response(timeout=20)
            except (OSError, srv.BadResponse) as e:
                r = None
            if r is None or r.code != 200:
                return 'fd-shortage', 'connection %d pending during a descriptor shortage was never served afterwards (thread list %d)' % (i, threadlist)
            c.count('served_after_fd_shortage')
    finally:
        for k in ks:
            k.close()
        s.stop(c)


def unlimited(c, exe):
    try:
        s = srv.Server(exe, maxconn=0)
    except srv.HarnessError as e:
        return 'unlimited', 'maxConnections = 0 (documented as unlimited) is refused: %s' % e
    ks = []
    try:
        for i in range(120):
            ok, k = served(s.port, 'u')
            if not ok:
                return 'unlimited', 'connection %d refused without a limit' % i
            ks.append(k)
        c.count('unlimited_served', 120)
    finally:
        for k in ks:
            k.close()
        s.stop(c)


def starting(c, exe, rng, threadlist):
    """A server that cannot get its service thread says so; one whose construction succeeded serves."""
    s = srv.Server(exe, threadlist=threadlist, rxto=60000, start=False)
    try:
        for i in range(12):
            fail = i % 3 != 2
            if fail:
                s.ctl('failthread 1')
            res = s.ctl('start')
            s.ctl('failthread 0')
            if not s.alive():
                return
            if res[0] == 'timeout':
                return 'start-hangs', 'starting a server without a free thread does not return'
            if res[0] == 'ok':
                base = (s.stat() or {}).get('threads', 0)
                ok, k = served(s.port, 's%d' % i, 10)
                if k:
                    k.close()
                if not ok:
                    return 'start-silent', 'a server was constructed without an error (%s) but serves nothing' % ('no thread could be started' if fail else 'nothing failed')
                # without the thread list, it is the user who has to wait for the workers before destroying an instance
                if not threadlist and not settle(s, base, 0):
                    return
                s.ctl('destroy', timeout=30)
            elif not fail:
                return 'start-again', 'a server could not be started after an earlier one had failed to: ' + bytes.fromhex(res[0].split(':')[1]).decode('latin1')
            c.count('starts_judged')
    finally:
        s.stop(c)


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'random fill/refuse/close histories for limits 50..80 with four ways of ending a connection, churn of short connections, injected accept failures (8 errnos), descriptor shortage, no limit; non-trivial: distinct histories'
    jobs = [('unlimited', lambda r: unlimited(c, exe))]
    for t in (1, 0):
        jobs.append(('faults%d' % t, lambda r, t=t: faults(c, exe, r, t)))
        jobs.append(('starting%d' % t, lambda r, t=t: starting(c, exe, r, t)))
        jobs.append(('threads%d' % t, lambda r, t=t: threads(c, exe, r, t)))
        jobs.append(('descriptors%d' % t, lambda r, t=t: descriptors(c, exe, r, t)))
        jobs.append(('churn%d' % t, lambda r, t=t: churn(c, exe, r, 50, t, c.scale(500, 4000))))
    for i in range(c.scale(14, 150)):
        jobs.append(('history%d' % i, lambda r, i=i: history(c, exe, r, r.choice([50, 50, 51, 60, 67, 80]), i)))
    from vlib.par import parallel

    def one(j):
        name, f = j
        key = 'c09/%d/%s' % (c.seed, name)
        res = f(random.Random(key))
        if res and res[0] is None:
            c.problem(res[1])
        elif res:
            c.violation('limit:' + res[0], res[1], case=key)
        c.case(key, sample=key)
        return bool(res)
    parallel(c, jobs, one, workers=5)
    if not c.viol:
        for k, m in (('connections_served', 800), ('refused_at_limit', 20), ('churned', 900), ('served_after_accept_failure', 50), ('accept_failures_injected', 8), ('served_after_fd_shortage', 90), ('unlimited_served', 120), ('thread_failures_injected', 200), ('served_after_thread_failure', 30), ('starts_judged', 20)):
            c.require(k, m)
