"""C41: TCP connections and listeners used directly."""
import random, re, socket, threading, time
from vlib import build, srv, tcp
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: the listener and connection classes driven command by command under ASan+UBSan and TSan against scripted peers; byte streams compared on both sides, outcomes and times of pending, ended, reset and timed-out operations and the descriptor count judged by a model'
NOTE = 'Times are judged with slack: an operation that has to return is given 3 s, a timeout may come 40 ms early and 2 s late. IPv4 loopback, as that is all the listener binds.'


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def need(cond, key, msg):
    if not cond:
        raise Bad(key, msg)


class Session:
    """One accepted connection and its peer."""
    seq = 0
    lock = threading.Lock()

    def __init__(self, d, lid, port, lcfg, rcvbuf=None, order=None):
        with Session.lock:
            Session.seq += 1
            self.id = 'c%d' % Session.seq
        self.d = d
        if order == 'accept-first':
            op = d.start('accept', lid, self.id)
            time.sleep(0.01)
            self.p = tcp.Peer(port, rcvbuf)
        else:
            self.p = tcp.Peer(port, rcvbuf)
            op = d.start('accept', lid, self.id)
        w, ms = d.wait(op, 10)
        need(w is not None and w[0] == 'ok', 'accept', 'accepting a connection gave %r' % (w,))
        exp = ['127.0.0.1', str(self.p.port), 'tcp', str(port), str(lcfg[0]), str(lcfg[1]), '1']
        need(w[1:] == exp, 'info', 'a new connection tells %r, expected %r' % (w[1:], exp))

    def do(self, cmd, *a, timeout=20):
        w, ms = self.d.do(cmd, self.id, *a, timeout=timeout)
        return w, ms

    def drop(self):
        w, _ = self.d.do('drop', self.id)


def opened(w):
    return [x for x in w if x.startswith('open=')][0] == 'open=1'


def data(w):
    return srv.unhexb(w[1])


def read_n(s, n, key, what):
    """Reads n bytes that are on their way."""
    got = b''
    while len(got) < n:
        w, _ = s.do('read', n - len(got))
        need(w is not None and w[0] == 'ok' and 1 <= len(data(w)) <= n - len(got), key, '%s: read gave %r' % (what, w))
        got += data(w)
    return got


def closed_ops(s, what):
    """A closed connection refuses everything."""
    w, _ = s.do('open')
    need(w == ['ok', 'open=0'], 'still-open', '%s: the connection still reports to be open' % what)
    for op in (('read', '-'), ('read', '10'), ('write', '616263')):
        w, _ = s.do(*op)
        need(w is not None and w[0] == 'err' and w[1] in ('lambda', 'network'), 'closed-' + op[0], '%s: %s on the closed connection gave %r' % (what, op[0], w))
    w, _ = s.do('end')
    need(w == ['ok', 'open=0'], 'end-again', '%s: ending again gave %r' % (what, w))


def transfer(rng, c, s):
    """Random data in both directions at the same time."""
    n_in, n_out = rng.choice([0, 1, 100, 5000, 200000]), rng.choice([0, 1, 100, 5000, 300000])
    din = bytes(rng.getrandbits(8) for _ in range(min(n_in, 4000)))
    din = (din * (n_in // max(1, len(din)) + 1))[:n_in]
    seed = rng.randrange(1, 1 << 30)
    r = s.d.start('drain', s.id, rng.randrange(1 << 30), rng.choice([1 if n_in < 6000 else 50, 100, 2048, 70000]), -1)
    w = s.d.start('pump', s.id, seed, n_out, rng.choice([0, 0, 100000, 777]))
    got = {}
    t = threading.Thread(target=lambda: got.update(r=s.p.recv_all(30, n_out)))
    t.start()
    i = 0
    while i < len(din):
        k = rng.choice([1, 10, 1000, 60000])
        s.p.s.sendall(din[i:i + k])
        i += k
        if rng.random() < 0.05:
            time.sleep(0.001)
    ww, _ = s.d.wait(w, 40)
    t.join()
    need(ww is not None and ww[1] == str(n_out) and ww[3] == 'done', 'write-incomplete', 'writing %d bytes gave %r' % (n_out, ww))
    exp = tcp.Pattern(seed).take(n_out)
    need(got['r'][0] == exp, 'data-out', 'of %d written bytes the peer got %d (%s), equal up to %d' % (n_out, len(got['r'][0]), got['r'][1], next((i for i, (a, b) in enumerate(zip(got['r'][0], exp)) if a != b), min(len(exp), len(got['r'][0])))))
    s.p.s.shutdown(socket.SHUT_WR)
    rw, _ = s.d.wait(r, 40)
    need(rw is not None and rw[0] == 'ok', 'read-end', 'reading gave %r' % (rw,))
    need(rw[1] == str(n_in) and rw[2] == str(tcp.fnv(din)), 'data-in', 'the peer sent %d bytes, the reads gave %s with %s content' % (n_in, rw[1], 'the same' if rw[2] == str(tcp.fnv(din)) else 'other'))
    need(rw[4] == '0', 'read-too-much', '%s reads returned more than they were asked for' % rw[4])
    need(rw[5] == 'eof' and not opened(rw), 'eof', 'after the peer was done reading ended with %s and the connection is %s' % (rw[5], 'open' if opened(rw) else 'closed'))
    rest, how = s.p.recv_all(5)
    need(rest == b'' and how == 'eof', 'not-closed', 'after reading had ended the peer got %r and %s' % (rest[:50], how))
    closed_ops(s, 'end of stream')
    c.count('bytes_in', n_in)
    c.count('bytes_out', n_out)


def small_reads(rng, c, s):
    msg = bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 2, 50, 3000])))
    s.p.s.sendall(msg)
    got = b''
    while len(got) < len(msg):
        n = rng.choice([1, 2, 3, 10, 2048, 5000])
        w, _ = s.do('read', n)
        need(w is not None and w[0] == 'ok', 'read', 'read(%d) gave %r with data waiting' % (n, w))
        d = data(w)
        need(1 <= len(d) <= n, 'read-size', 'read(%d) returned %d bytes' % (n, len(d)))
        got += d
        need(opened(w), 'read-closed', 'the connection is closed after a successful read')
    need(got == msg, 'data-in', 'reads gave %r... instead of %r...' % (got[:40], msg[:40]))
    out = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 50])))
    w, _ = s.do('write', out.hex() or '-')
    need(w == ['ok', 'open=1'], 'write', 'writing %d bytes gave %r' % (len(out), w))
    need(s.p.recv_all(5, len(out))[0] == out, 'data-out', 'a written message did not arrive')


def chunk_default(rng, c, s):
    s.p.s.sendall(b'z' * 5000)
    time.sleep(0.05)
    w, _ = s.do('read', '-')
    need(w[0] == 'ok' and 1 <= len(data(w)) <= 2048, 'read-default', 'read() returned %d bytes' % len(data(w)))


def reset(rng, c, s):
    throw = rng.random() < 0.5
    s.do('flags', 1, int(throw))
    pend = rng.random() < 0.5
    if pend:
        op = s.d.start('read', s.id, 100)
        time.sleep(rng.choice([0, 0.01]))
        s.p.rst()
    else:
        s.p.rst()
        time.sleep(0.02)
        op = s.d.start('read', s.id, 100)
    w, _ = s.d.wait(op, 5)
    if w is not None and w[0] == 'err' and w[1] == 'lambda':
        raise Bad('reset', 'reading from a connection that was just reset says it was closed before: %r' % w)
    if throw:
        need(w is not None and w[0] == 'err' and w[1] == 'network', 'reset-no-error', 'the peer reset the connection, throwOnDisconnect is set, reading gave %r' % w)
    else:
        need(w is not None and w[0] == 'ok' and data(w) == b'', 'reset-error', 'the peer reset the connection, throwOnDisconnect is not set, reading gave %r' % w)
    closed_ops(s, 'reset (throwOnDisconnect=%d)' % throw)


def timeout(rng, c, s):
    close = rng.random() < 0.5
    ms = rng.choice([100, 200, 450, 1000, 1250])
    s.do('flags', int(close), 1)
    w, _ = s.do('tmo', ms, rng.choice(['rx', 'both']))
    need(w[0] == 'ok' and w[5] == str(ms), 'timeout-info', 'after setting the receive timeout to %d info tells %r' % (ms, w))
    for k in range(1 if close else rng.choice([1, 2])):
        w, took = s.do('read', 100)
        need(w is not None and w[0] == 'ok' and data(w) == b'', 'timeout-result', 'a read that timed out gave %r' % w)
        need(ms - 40 <= took <= ms + 2000, 'timeout-time', 'a read with a timeout of %d ms returned after %d ms' % (ms, took))
        need(opened(w) == (not close), 'timeout-close', 'closeOnTimeout is %s, the connection is %s after a timeout' % (close, 'open' if opened(w) else 'closed'))
        c.note_max('max_timeout_lateness_ms', took - ms)
    if close:
        need(s.p.recv_all(3)[1] in ('eof', 'reset'), 'timeout-not-closed', 'the peer of a connection closed by its timeout is still connected')
        closed_ops(s, 'timeout')
    else:
        s.p.s.sendall(b'late')
        need(read_n(s, 4, 'after-timeout', 'data that came after a timeout') == b'late', 'after-timeout', 'data that came after a timeout was read differently')


def precise(rng, c, s):
    """Timeouts changed during the life of a connection, each to a value of its own; a busy machine is late by chance, not every time."""
    s.do('flags', 0, 1)
    for ms in [rng.choice([50, 333, 501, 999]), rng.choice([1000, 1001, 1499, 1500, 1501, 1999, 2000]), rng.choice([550, 750, 900, 1600, 1750, 2500])]:
        w, _ = s.do('tmo', ms, rng.choice(['rx', 'both']))
        need(w[0] == 'ok' and w[5] == str(ms), 'timeout-info', 'after setting the receive timeout to %d info tells %r' % (ms, w))
        late = []
        while len(late) < 4:
            w, took = s.do('read', 100)
            need(w is not None and w[0] == 'ok' and data(w) == b'', 'timeout-result', 'a read that timed out gave %r' % w)
            need(took >= ms - 40, 'timeout-time', 'a read with a timeout of %d ms returned after %d ms' % (ms, took))
            late.append(took - ms)
            if took - ms < 350:
                break
        need(min(late) < 350, 'timeout-time', 'reads with a timeout of %d ms were late by %s ms' % (ms, late))
        c.count('precise_timeouts')
    s.p.s.sendall(b'late')
    need(read_n(s, 4, 'after-timeout', 'data that came after a timeout') == b'late', 'after-timeout', 'data that came after a timeout was read differently')


def write_timeout(rng, c, s):
    ms = rng.choice([150, 400, 800])
    w, _ = s.do('tmo', ms, rng.choice(['tx', 'both']))
    need(w[0] == 'ok' and w[6] == str(ms), 'timeout-info', 'after setting the send timeout to %d info tells %r' % (ms, w))
    seed = rng.randrange(1, 1 << 30)
    size = rng.choice([20000000, 12000000])
    w, took = s.d.do('pump', s.id, seed, 40000000, size, timeout=40)
    need(w is not None and w[3] == 'network', 'write-timeout', 'writing to a peer that does not read gave %r' % (w,))
    need(took >= ms - 40, 'write-timeout-early', 'a write with a timeout of %d ms failed after %d ms' % (ms, took))
    # at most twice the timeout beyond the work itself (ASan filling 20 MB)
    need(took <= 2 * ms + 4000, 'write-timeout-late', 'a write with a timeout of %d ms took %d ms to fail' % (ms, took))
    done = int(w[1])
    s.do('write', b'later data'.hex())
    s.do('end')
    got, how = s.p.recv_all(20)
    need(how in ('eof', 'reset'), 'write-timeout-open', 'after a cut write and end() the peer is still connected')
    exp = tcp.Pattern(seed).take(40000000 if len(got) > done else len(got))
    need(exp.startswith(got), 'data-after-gap', 'the peer got data that does not belong there after a write was cut short (%d bytes)' % len(got))


def write_dead(rng, c, s):
    if rng.random() < 0.5:
        s.p.rst()
    else:
        s.p.close()
    bad = 0
    for i in range(12):
        w, _ = s.do('write', (b'x' * 2000).hex())
        need(w is not None, 'write-hang', 'writing to a peer that is gone did not return')
        if w[0] == 'err':
            bad += 1
        time.sleep(0.01)
    need(bad >= 6, 'write-dead', 'only %d of 12 writes to a peer that is gone gave an error' % bad)


def end_reader(rng, c, s):
    how = rng.choice(['end', 'assign', 'end2'])
    ops = [s.d.start('read', s.id, 100) for _ in range(rng.choice([1, 1, 3]))]
    time.sleep(rng.choice([0, 0, 0.005, 0.05]))
    t0 = time.time()
    if how == 'assign':
        p2 = Session(s.d, s.lid, s.port, s.lcfg)
        w, _ = s.d.do('assign', p2.id, s.id, timeout=5)
        need(w is not None and w[:3] == ['ok', '0', '1'], 'assign', 'assigning over a connection with a pending read gave %r' % (w,))
        got, hw = s.p.recv_all(3)
        need(hw in ('eof', 'reset'), 'assign-leak', 'the connection that was assigned over is still connected')
        s.d.do('end', s.id)
        p2.p.close()
        p2.drop()
    else:
        es = [s.d.start('end', s.id) for _ in range(2 if how == 'end2' else 1)]
        for e in es:
            w, ms = s.d.wait(e, 5)
            need(w == ['ok', 'open=0'], 'end-hang', 'end() with a pending read gave %r' % (w,))
            need(ms < 3000, 'end-slow', 'end() with a pending read took %d ms' % ms)
        need(s.p.recv_all(3)[1] in ('eof', 'reset'), 'end-open', 'the peer of an ended connection is still connected')
    for op in ops:
        w, ms = s.d.wait(op, 5)
        need(w is not None, 'read-not-woken', 'a pending read did not return after %s from another thread' % how)
        need(w[0] == 'err' or data(w) == b'', 'read-woken-data', 'a read that was ended returned %r' % w)
    if how != 'assign':
        closed_ops(s, 'ended')


def end_writer(rng, c, s):
    op = s.d.start('pump', s.id, 5, 60000000, rng.choice([0, 30000000]))
    time.sleep(rng.choice([0.005, 0.1, 0.3]))
    w, ms = s.d.do('end', s.id, timeout=10)
    need(w == ['ok', 'open=0'], 'end-hang', 'end() with a pending write gave %r' % (w,))
    need(ms < 3000, 'end-slow', 'end() with a pending write took %d ms' % ms)
    w, ms = s.d.wait(op, 10)
    need(w is not None, 'write-not-woken', 'a pending write did not return after end() from another thread')
    need(w[3] != 'done', 'write-lied', 'a write to a peer that read nothing reported success after end()')
    got, how = s.p.recv_all(20)
    need(how in ('eof', 'reset'), 'end-open', 'the peer of an ended connection is still connected')
    need(tcp.Pattern(5).take(len(got)) == got, 'data-out', 'the peer of an ended connection got other data than was written')


def moves(rng, c, s):
    f = (rng.randrange(2), rng.randrange(2))
    s.do('flags', *f)
    s.do('tmo', 777, 'rx')
    first = s.id
    for i in range(rng.choice([1, 3])):
        new = s.id + 'm'
        w, _ = s.d.do('move', s.id, new)
        exp = ['ok', '0', '1', '%d%d' % f, '127.0.0.1', str(s.p.port), 'tcp', str(s.port), '777', str(s.lcfg[1])]
        need(w == exp, 'move', 'moving a connection gave %r, expected %r' % (w, exp))
        w, _ = s.do('write', '61')
        need(w[0] == 'err', 'moved-from-write', 'a moved-from connection accepts writes')
        s.drop()
        s.id = new
    s.p.s.sendall(b'hi')
    need(read_n(s, 2, 'move-read', 'after a move') == b'hi', 'move-read', 'after a move other data was read')
    w, _ = s.do('selfassign')
    need(w == ['ok', 'open=1'], 'self-assign', 'assigning a connection to itself gave %r' % w)
    o = Session(s.d, s.lid, s.port, s.lcfg)
    w, _ = s.d.do('assign', s.id, o.id)
    exp[0:3] = ['ok', '0', '1']
    need(w == exp, 'assign', 'move assignment gave %r, expected %r' % (w, exp))
    need(o.p.recv_all(3)[1] in ('eof', 'reset'), 'assign-leak', 'the connection that was assigned over is still connected')
    w, _ = s.d.do('write', o.id, b'via'.hex())
    need(w[0] == 'ok' and s.p.recv_all(3, 3)[0] == b'via', 'assign-write', 'after a move assignment writing gave %r' % w)
    closed_ops(s, 'moved from')
    # destruction closes
    w, _ = s.d.do('drop', o.id)
    need(s.p.recv_all(3)[1] in ('eof', 'reset'), 'destroy-open', 'the peer of a destroyed connection is still connected')
    o.p.close()


def records(rng, c, s):
    """Whole writes of several threads do not mix."""
    T, n = rng.choice([2, 4]), rng.choice([20, 150])
    maxlen = rng.choice([100, 3000, 60000])
    op = s.d.start('records', s.id, T, n, maxlen)
    got = b''
    out = []
    t = threading.Thread(target=lambda: out.append(s.p.recv_all(30)))
    t.start()
    w, _ = s.d.wait(op, 30)
    need(w is not None and w[:2] == ['ok', '0'], 'write', 'concurrent writes gave %r' % (w,))
    s.do('end')
    t.join()
    got = out[0][0]
    pos, nxt = 0, [0] * T
    rx = re.compile(rb'<(\d+):(\d+):(\d+)\|')
    while pos < len(got):
        m = rx.match(got, pos)
        need(m, 'interleaved', 'concurrent writes got mixed at byte %d: %r' % (pos, got[pos:pos + 60]))
        a, i, ln = int(m.group(1)), int(m.group(2)), int(m.group(3))
        body = got[m.end():m.end() + ln + 1]
        need(body == bytes([97 + (a + i) % 26]) * ln + b'>', 'interleaved', 'record %d of thread %d is damaged' % (i, a))
        need(i == nxt[a], 'order', 'record %d of thread %d came when %d was due' % (i, a, nxt[a]))
        nxt[a] += 1
        pos = m.end() + ln + 1
    need(nxt == [n] * T, 'lost', 'of %d records per thread arrived %r' % (n, nxt))
    c.count('records', n * T)


def churn(rng, c, s):
    """read, write and end from different threads at random moments"""
    ops = [s.d.start('drain', s.id, rng.randrange(1000), 3000, -1), s.d.start('pump', s.id, 3, 3000000, 0)]
    out = []
    t = threading.Thread(target=lambda: out.append(s.p.recv_all(20)))
    t.start()
    try:
        for _ in range(rng.choice([0, 3, 30])):
            s.p.s.sendall(b'q' * 5000)
    except OSError:
        pass
    time.sleep(rng.choice([0, 0.001, 0.003, 0.01, 0.03]))
    es = [s.d.start('end', s.id) for _ in range(3)]
    for o in es + ops:
        w, _ = s.d.wait(o, 10)
        need(w is not None, 'not-woken', 'an operation did not return after end() from other threads')
    t.join(20)
    need(out and out[0][1] != 'timeout', 'end-open', 'the peer of an ended connection is still connected')
    need(tcp.Pattern(3).take(len(out[0][0])) == out[0][0], 'data-out', 'the peer of an ended connection got other data than was written')


KINDS = [transfer, transfer, transfer, small_reads, chunk_default, reset, timeout, precise, write_dead, end_reader, end_reader, end_writer, moves, records, churn, churn]


def listeners(c, d, rng, i):
    """One history of a listener on its own port."""
    port = srv.free_port()
    lid = 'l%d' % i
    cfg = (rng.choice([300, 5000]), rng.choice([700, 4000]))
    w, _ = d.do('listen', lid, port, 1, *cfg)
    need(w == ['ok', str(port), str(cfg[0]), str(cfg[1]), '1'], 'listen', 'creating a listener gave %r' % (w,))
    w, _ = d.do('listen', lid + 'x', port, 1, *cfg)
    need(w is not None and w[0] == 'err' and w[1] == 'network', 'listen-twice', 'a second listener on the same port gave %r' % (w,))
    ss = []
    for k in range(rng.choice([0, 1, 3])):
        s = Session(d, lid, port, cfg, order=rng.choice([None, 'accept-first']))
        s.lid, s.port, s.lcfg = lid, port, cfg
        ss.append(s)
    if rng.random() < 0.4:
        w, _ = d.do('lmove', lid, lid + 'm')
        need(w == ['ok', '0', '1', str(port)], 'listener-move', 'moving a listener gave %r' % (w,))
        w, _ = d.do('accept', lid, 'none')
        need(w == ['none'], 'accept-moved', 'accepting on a moved-from listener gave %r' % (w,))
        if rng.random() < 0.5:
            p2 = srv.free_port()
            w, _ = d.do('listen', lid, p2, 1, *cfg)
            w, _ = d.do('lassign', lid + 'm', lid)
            need(w == ['ok', '0', '1', str(port)], 'listener-assign', 'assigning a listener gave %r' % (w,))
            try:
                tcp.Peer(p2).close()
                need(False, 'listener-assign-leak', 'the port of a listener that was assigned over still accepts connections')
            except OSError:
                pass
            need(d.do('ldrop', lid + 'm')[0] == ['ok'], 'drop', 'dropping a listener failed')
        else:
            d.do('ldrop', lid)
            lid += 'm'
        s = Session(d, lid, port, cfg)
        s.lid, s.port, s.lcfg = lid, port, cfg
        ss.append(s)
    if rng.random() < 0.3:
        # a transient failure is not seen by the caller
        d.do('failaccept', rng.choice([103, 4, 71, 110]), rng.choice([1, 2, 5]))
        s = Session(d, lid, port, cfg)
        s.lid, s.port, s.lcfg = lid, port, cfg
        ss.append(s)
    pend = [d.start('accept', lid, 'n%d' % k) for k in range(rng.choice([0, 1, 3]))]
    if pend:
        time.sleep(rng.choice([0, 0.002, 0.05]))
    waiting = [tcp.Peer(port) for _ in range(rng.choice([0, 2]))] if not pend else []
    how = rng.choice(['stop', 'stop', 'stop2', 'ldrop'] if not pend else ['stop', 'stop2'])
    ops = [d.start('stop' if how != 'ldrop' else 'ldrop', lid) for _ in range(2 if how == 'stop2' else 1)]
    for o in ops:
        w, ms = d.wait(o, 8)
        need(w == ['ok'], 'stop-hang', 'stopping a listener gave %r' % (w,))
        need(ms < 3000, 'stop-slow', 'stopping a listener took %d ms' % ms)
    for o in pend:
        w, _ = d.wait(o, 5)
        need(w == ['none'], 'accept-not-woken', 'a pending accept on a stopped listener gave %r' % (w,))
    if how != 'ldrop':
        need(d.do('active', lid)[0] == ['ok', '0'], 'active', 'a stopped listener says that it is active')
        need(d.do('accept', lid, 'x')[0] == ['none'], 'accept-stopped', 'accepting on a stopped listener did not give nothing')
    for p in waiting:
        need(p.recv_all(3)[1] in ('eof', 'reset'), 'backlog-open', 'a connection nobody accepted is still open after the listener was stopped')
        p.close()
    try:
        tcp.Peer(port, timeout=3).close()
        need(False, 'port-open', 'the port of a stopped listener still accepts connections')
    except OSError:
        pass
    # connections outlive their listener, and the port can be used again at once
    for s in ss:
        s.p.s.sendall(b'after')
        need(read_n(s, 5, 'listener-took-connection', 'a connection whose listener is gone') == b'after', 'listener-took-connection', 'other data was read')
    w, _ = d.do('listen', lid + 'again', port, 1, *cfg)
    need(w is not None and w[0] == 'ok', 'port-reuse', 'a new listener on the port of a stopped one gave %r' % (w,))
    d.do('ldrop', lid + 'again')
    for s in ss:
        s.drop()
        need(s.p.recv_all(3)[1] in ('eof', 'reset'), 'destroy-open', 'the peer of a destroyed connection is still connected')
        s.p.close()
    if how != 'ldrop':
        d.do('ldrop', lid)
    c.count('listener_histories')


def settle(d, base):
    st = None
    for _ in range(60):
        st = d.stat()
        if st is None or st['fds'] <= base:
            break
        time.sleep(0.05)
    return st


def phase(c, variant, exe, total, workers, short, delay):
    d = tcp.Driver(exe, seed=c.seed + delay)
    d.do('set', short, delay)
    cfg = (8000, 8000)
    port = srv.free_port()
    w, _ = d.do('listen', 'L', port, 1, *cfg)
    need(w is not None and w[0] == 'ok', 'listen', 'creating a listener gave %r' % (w,))
    base = d.stat()['fds']

    def one(i):
        key = 'c41/%d/%s/%d/%d' % (c.seed, variant, delay, i)
        rng = random.Random(key)
        kind = write_timeout if i % 40 == 7 else KINDS[i % len(KINDS)]
        try:
            with accept_lock:
                s = Session(d, 'L', port, cfg, rcvbuf=rng.choice([None, None, 65536]) if kind is not write_timeout else 65536, order=rng.choice([None, 'accept-first']))
            s.lid, s.port, s.lcfg = 'L', port, cfg
            if kind in (moves, end_reader):
                with accept_lock:       # they accept another connection
                    kind(rng, c, s)
            else:
                kind(rng, c, s)
            s.p.close()
            s.drop()
            c.case(key, sample='%s: %s' % (key, kind.__name__))
            c.count('histories_' + kind.__name__)
        except Bad as e:
            c.violation('%s:%s' % (kind.__name__, e.key), '%s (%s %s)' % (e, key, kind.__name__))
            return True
        except OSError as e:
            c.violation('%s:peer' % kind.__name__, 'the peer of %s got %r' % (key, e))
            return True
    accept_lock = threading.Lock()
    parallel(c, range(total), one, workers=workers, alive=d.alive)
    if not c.viol:
        for i in range(c.scale(20, 200)):
            key = 'c41l/%d/%s/%d' % (c.seed, variant, i)
            try:
                listeners(c, d, random.Random(key), i)
                c.case(key)
            except Bad as e:
                c.violation('listener:' + e.key, '%s (%s)' % (e, key))
                break
            except OSError as e:
                c.violation('listener:peer', 'a peer got %r (%s)' % (e, key))
                break
    if not c.viol:
        st = settle(d, base)
        if st is None:
            c.violation('died', 'the process is gone')
        elif st['fds'] > base:
            c.violation('fd-leak', '%d descriptors are open after all connections were dropped, %d before' % (st['fds'], base))
        c.count('socket_calls', (st or {}).get('recv', 0) + (st or {}).get('send', 0))
    d.stop(c)


def endings(c, variant, exe, rounds):
    """Several threads end the same connection or listener at once: its descriptor is closed once."""
    d = tcp.Driver(exe, seed=c.seed)
    try:
        base = d.stat()['fds']
        for what in ('listener', 'connection'):
            w, ms = d.do('endrace', rounds, 3, what, timeout=120)
            if w is None or w[0] != 'ok':
                c.violation('endrace:' + what, 'ending the same %s from several threads gave %r' % (what, w))
                return
            if int(w[1]) < rounds:
                c.problem('endrace: only %s of %d' % (w[1], rounds))
            c.count('concurrent_endings', int(w[1]))
            if int(w[2]):
                c.violation('endrace:double-close', 'a %s ended by several threads at once: the descriptor was closed again after it had been closed (%s of %s times)' % (what, w[2], w[1]))
        st = settle(d, base)
        if st is None or st['fds'] > base:
            c.violation('endrace:fd-leak', 'descriptors before and after: %d, %r' % (base, st))
        c.case('endrace/' + variant)
    finally:
        d.stop(c)


def run(c):
    a = build.build('asan', ['tcp'])['tcp']
    t = build.build('tsan', ['tcp'])['tcp']
    p = build.build('plain', ['tcp'])['tcp']
    c.rule = 'a history of one connection (transfers both ways, resets, timeouts, cut writes, ends from other threads, moves, concurrent writers) or one listener (accepts, moves, failing accepts, stops with accepts pending) against a scripted peer'
    jobs = [('asan', a, c.scale(200, 3000), 12, 3, 0), ('tsan', t, c.scale(160, 2400), 12, 0, 0), ('tsan', t, c.scale(100, 1600), 10, 4, 700)]
    errs = []

    def guard(j):
        try:
            phase(c, *j)
        except Exception:
            import traceback
            errs.append(traceback.format_exc())
    ths = [threading.Thread(target=guard, args=(j,)) for j in jobs]
    [x.start() for x in ths]
    [x.join() for x in ths]
    for v, e, n in (('plain', p, c.scale(6000, 200000)), ('tsan', t, c.scale(600, 20000)), ('asan', a, c.scale(1500, 20000))):
        if not c.viol:
            endings(c, v, e, n)
    for e in errs:
        c.problem(e[-1500:])
    if not c.viol:
        c.require('listener_histories', 45)
        c.require('evaluations', 420)
