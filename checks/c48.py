"""C48: the work done stays proportional to the size of the input."""
import os, resource, shutil, socket, subprocess, tempfile, time
from vlib import build, srv, ws, common
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: processor time of the real library operations and of the live server, on inputs of one size and of a multiple of it, of many shapes (repetition, nesting, escapes, fragmentation, pipelining); the growth is judged against proportionality'
NOTE = 'A growth of up to four times proportionality (plus half a second) passes, so logarithmic factors and noise do; so does work repeated once for each of at most 512 nesting levels of JSON. Processor time is measured in an uninstrumented build.'

SMALL, FACTOR = 1 << 16, 64
CAP = 25        # seconds of processor time after which an operation is ended


def clean(p):
    shutil.rmtree(p, ignore_errors=True)


def cpu_op(exe, name, n):
    d = tempfile.mkdtemp(prefix='lamc')
    try:
        def pre():
            resource.setrlimit(resource.RLIMIT_CPU, (CAP, CAP + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        r = subprocess.run([exe, name, str(n), d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, timeout=600)
        o = r.stdout.decode().split()
        if r.returncode == 0 and o[:1] == ['OK']:
            return int(o[1]) / 1e9, int(o[2])
        if r.returncode in (-24, -9):
            return float(CAP), None
        return None, '%s %s %s' % (r.returncode, r.stdout[-200:], r.stderr[-300:])
    finally:
        clean(d)


def library(c):
    exe = build.build('plain', ['cost'])['cost']
    names = subprocess.run([exe], stdout=subprocess.PIPE).stdout.decode().split()
    big = SMALL * FACTOR * c.scale(1, 4)
    k = big // SMALL

    def one(name):
        a = cpu_op(exe, name, SMALL)
        b = cpu_op(exe, name, big)
        for t in (a, b):
            if t[0] is None:
                c.violation('cost:failed:' + name, 'operation %s failed on its input: %s' % (name, t[1]))
                return True
        # a second look before an alarm: the smallest of several
        tries = 0
        while b[0] > 4 * k * a[0] + 0.5 and tries < 2 and b[1] is not None:
            a, b2 = max(a, cpu_op(exe, name, SMALL)), cpu_op(exe, name, big)
            b, tries = min(b, b2), tries + 1
        c.case((name, 'lib'), {'operation': name, 'bytes': big, 'cpu_s': round(b[0], 3), 'small_s': round(a[0], 4)})
        c.count('operations')
        c.count('bytes_processed', big + SMALL)
        c.note_max('slowest_s_per_mb', round(b[0] / (big / 1048576), 3))
        if b[0] > 4 * k * a[0] + 0.5:
            c.violation('cost:growth:' + name, '%s: %.3f s of processor time for %d bytes, %s for %d bytes: %d times the input takes more than %d times as long'
                        % (name, a[0], SMALL, '%.2f s' % b[0] if b[1] is not None else 'more than %d s' % CAP, big, k, 4 * k),
                        operation=name, small=SMALL, big=big)
            return True
        elif b[0] > 8 * (big / 1048576):
            c.violation('cost:slow:' + name, '%s: %.2f s of processor time for %d bytes' % (name, b[0], big), operation=name, big=big)
            return True
    parallel(c, names, one, workers=3)


TICK = os.sysconf('SC_CLK_TCK')


def cpu_of(pid):
    f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
    return (int(f[11]) + int(f[12])) / TICK


def drain(cn, want, timeout=300):
    got = []
    end = time.time() + timeout
    for _ in range(want):
        r = cn.response(timeout=max(1, end - time.time()))
        if r is None:
            break
        got.append(r.code)
    return got


def sender(sock, data):
    """Sends in the background so that answers can be read meanwhile."""
    import threading

    def run():
        try:
            sock.sendall(data)
        except OSError:
            pass
    t = threading.Thread(target=run, daemon=True)
    t.start()
    return t


def op_body_pieces(s, n):
    cn = srv.Conn(s.port, 300)
    cn.send(b'POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n' % n)
    for i in range(0, n, 1024):
        cn.send(b'b' * min(1024, n - i))
    return drain(cn, 1) == [200]


def op_body_once(s, n):
    cn = srv.Conn(s.port, 300)
    t = sender(cn.s, b'POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: %d\r\n\r\n' % n + b'b' * n)
    return drain(cn, 1) == [200]


def op_pipelined(s, n):
    cn = srv.Conn(s.port, 300)
    k = max(1, n // 256)
    t = sender(cn.s, b'GET /x HTTP/1.1\r\nHost: h\r\n\r\n' * k)
    return drain(cn, k) == [200] * k


def op_pipelined_bodies(s, n):
    cn = srv.Conn(s.port, 300)
    k = max(1, n // 1024)
    t = sender(cn.s, (b'POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: 700\r\n\r\n' + b'c' * 700) * k)
    return drain(cn, k) == [200] * k


def op_big_answer(s, n):
    cn = srv.Conn(s.port, 300)
    cn.send(srv.req('GET', '/big?size=%d&seed=1' % n, headers=[(b'Accept-Encoding', b'gzip')]))
    return drain(cn, 1) == [200]


def op_ws_frames(s, n):
    """One message in many fragments, in one go."""
    w = ws.Ws(s.port, '/ws?mode=count')
    k = max(2, n // 64)
    data = ws.frame(ws.TEXT, b'a' * 40, fin=False) + ws.frame(ws.CONT, b'b' * 40, fin=False) * (k - 2) + ws.frame(ws.CONT, b'', fin=True)
    t = sender(w.c.s, data + ws.frame(ws.CLOSE, b''))
    return ws_end(w, s)


def ws_end(w, s, got=None):
    """Reads until the end; the handler must have received `got` messages, if that is known."""
    try:
        while True:
            f = w.next(300)
            if f is None or f[1] == ws.CLOSE:
                break
        e = s.wait_event(lambda l: l.startswith('WSEND'), 60)
    finally:
        w.close()
    return True if e and (got is None or int(e.split(' ')[2]) == got) else 'handler: %s, messages: %s' % (e, got)


def op_ws_tiny(s, n):
    w = ws.Ws(s.port, '/ws?mode=count')
    t = sender(w.c.s, ws.frame(ws.BIN, b'x') * max(1, n // 16) + ws.frame(ws.CLOSE, b''))
    return ws_end(w, s, max(1, n // 16))


def op_ws_unread(s, n):
    """Messages that queue up because the handler does not read for a while."""
    w = ws.Ws(s.port, '/ws?mode=late&ms=1500')
    t = sender(w.c.s, ws.frame(ws.BIN, b'xyz') * max(1, n // 32) + ws.frame(ws.CLOSE, b''))
    return ws_end(w, s, max(1, n // 32))


def op_ws_big(s, n):
    w = ws.Ws(s.port, '/ws?mode=count')
    t = sender(w.c.s, ws.frame(ws.BIN, b'x' * n) + ws.frame(ws.CLOSE, b''))
    return ws_end(w, s, 1)


def op_ws_big_pieces(s, n):
    w = ws.Ws(s.port, '/ws?mode=count')
    d = ws.frame(ws.BIN, b'x' * n) + ws.frame(ws.CLOSE, b'')
    for i in range(0, len(d), 1024):
        w.send(d[i:i + 1024])
    return ws_end(w, s, 1)


def op_ws_pings(s, n):
    w = ws.Ws(s.port, '/ws?mode=count')
    t = sender(w.c.s, ws.frame(ws.PING, b'p' * 20) * max(1, n // 64) + ws.frame(ws.CLOSE, b''))
    return ws_end(w, s)


def op_ws_send(s, n):
    w = ws.Ws(s.port, '/ws?mode=nowait&threads=1&msgs=%d&size=100' % max(1, n // 512))
    return ws_end(w, s)


def op_sse(s, n):
    body = b''.join(b'E %s ~ ~ ~\n' % (b'data %d' % i).hex().encode() for i in range(max(1, n // 64)))
    cn = srv.Conn(s.port, 300)
    cn.send(srv.req('POST', '/sse', body=body))
    d = cn.read_all(300)
    return d.count(b'data: ') == max(1, n // 64)


def op_sse_big(s, n):
    cn = srv.Conn(s.port, 300)
    cn.send(srv.req('POST', '/sse', body=b'E %s ~ ~ ~\n' % (b'a\n' * (n // 2)).hex().encode()))
    return b'data:' in cn.read_all(300)


def op_connections(s, n):
    for _ in range(max(1, n // 1024)):
        cn = srv.Conn(s.port, 60)
        cn.send(srv.req('GET', '/c', headers=[(b'Connection', b'close')]))
        if drain(cn, 1, 60) != [200]:
            return False
        cn.close()
    return True


def op_idle_many(s, n):
    """Many connections open at the same time."""
    cs = []
    try:
        for i in range(max(1, n // 4096)):
            cs.append(srv.Conn(s.port, 60))
            cs[-1].send(srv.req('GET', '/c%d' % i))
        return all(drain(x, 1, 60) == [200] for x in cs)
    finally:
        for x in cs:
            x.close()


SERVER = {f.__name__[3:]: f for f in (op_body_pieces, op_body_once, op_pipelined, op_pipelined_bodies, op_big_answer, op_ws_frames, op_ws_tiny, op_ws_unread,
                                      op_ws_big, op_ws_big_pieces, op_ws_pings, op_ws_send, op_sse, op_sse_big, op_connections, op_idle_many)}


def header_op(kind, n):
    if kind == 'dripped':
        return b'GET / HTTP/1.1\r\nHost: h\r\nX-A: ' + b'v' * n + b'\r\n\r\n'
    if kind == 'lines':
        return b'GET / HTTP/1.1\r\nHost: h\r\n' + b''.join(b'x%d: v\r\n' % i for i in range(n // 8)) + b'\r\n'
    if kind == 'same':
        return b'GET / HTTP/1.1\r\nHost: h\r\n' + b'a: v\r\n' * (n // 6) + b'\r\n'
    if kind == 'cookies':
        return b'GET / HTTP/1.1\r\nHost: h\r\nCookie: ' + b'; '.join(b'c%d=v' % i for i in range(n // 8)) + b'\r\n\r\n'
    if kind == 'query':
        return b'GET /?' + b'&'.join(b'q%d=%%41' % i for i in range(n // 10)) + b' HTTP/1.1\r\nHost: h\r\n\r\n'
    return b'GET /' + b'../' * (n // 3) + b' HTTP/1.1\r\nHost: h\r\n\r\n'


def header(kind):
    def op(s, n):
        d = header_op(kind, n // 32)        # below the limit of header sizes
        cn = srv.Conn(s.port, 300)
        if kind == 'dripped':
            for i in range(0, len(d), 8):
                cn.send(d[i:i + 8])
        else:
            cn.send(d)
        return drain(cn, 1) != []
    return op


for _k in ('dripped', 'lines', 'same', 'cookies', 'query', 'dots'):
    SERVER['header_' + _k] = header(_k)


def server(c):
    exe = build.build('plain', ['server'])['server']
    big = SMALL * FACTOR * c.scale(1, 4)
    k = big // SMALL

    def measure(name, n):
        s = srv.Server(exe, rxto=100000, txto=100000, maxreq=256 << 20, maxconn=20000)
        try:
            SERVER['connections'](s, 2048)      # warm
            t0 = cpu_of(s.proc.pid)
            try:
                ok = SERVER[name](s, n)
            except (OSError, socket.timeout, ws.BadFrame, srv.BadResponse) as e:
                ok = repr(e)
            if not s.alive():
                return None, 'the server died'
            for _ in range(100):                # until it has settled
                t = cpu_of(s.proc.pid)
                time.sleep(0.02)
                if cpu_of(s.proc.pid) == t:
                    break
            return cpu_of(s.proc.pid) - t0, ok
        finally:
            s.kill()

    def one(name):
        bigger = min(big, SMALL * 16) if name.startswith('header_') else big
        kk = bigger // SMALL
        a, oka = measure(name, SMALL)
        b, okb = measure(name, bigger)
        for ok in (oka, okb):
            if ok is not True:
                c.violation('cost:answer:' + name, '%s was not answered as expected: %s' % (name, ok), operation=name)
                return True
        tries = 0
        while b > 4 * kk * a + 0.5 and tries < 2:
            a, b, tries = max(a, measure(name, SMALL)[0]), min(b, measure(name, bigger)[0]), tries + 1
        c.case((name, 'server'), {'operation': name, 'bytes': bigger, 'cpu_s': round(b, 3), 'small_s': round(a, 3)})
        c.count('server_workloads')
        c.note_max('slowest_server_s', round(b, 3))
        if b > 4 * kk * a + 0.5:
            c.violation('cost:growth:server-' + name, 'the server used %.2f s of processor time for workload %s of size %d, %.2f s for size %d: %d times the input takes more than %d times as long'
                        % (a, name, SMALL, b, bigger, kk, 4 * kk), operation=name, small=SMALL, big=bigger)
            return True
    parallel(c, list(SERVER), one, workers=3)



def run(c):
    c.rule = 'one operation on inputs of two sizes'
    c.assumptions.append('The processor time of a process, as accounted by the system, is what it worked.')
    library(c)
    if len(c.viol) < 8:
        server(c)
    c.require('operations', 60)
    c.require('server_workloads', 20)
