"""C53: running out of memory."""
import os, random, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import build, pure, common, reuse, vfs

TECHNIQUE = 'runtime monitoring: every allocation of a call fails in turn (a preloaded library stands between the driver built with ASan+UBSan and the allocator, also for those of zlib and brotli); results, memory that stays allocated, later calls and the contents of stores are judged'
NOTE = 'A function that is declared noexcept ends the process when it cannot allocate; that is its contract and is not judged. Neither are failures within the C library (threads, streams). The server is not part of this.'

WORKLOADS = ['c17', 'c18', 'c24', 'c26', 'c27', 'c28', 'c29', 'c30', 'c31', 'c32', 'c33', 'c34', 'c35', 'c36', 'c37', 'c38', 'c40', 'c49']
#   what reports errors by exceptions and must not end the process
REPORTING = {'zc', 'zd', 'bc', 'bd', 'gzs', 'gzd', 'b64e', 'b64d', 'hexe', 'hexd', 'urie', 'urid', 'sha1', 'jparse', 'render', 'splits', 'splitc', 'join', 'replaceall', 'replace', 'lower', 'upper', 'trim', 'kv'}
#   they have results of steps, or depend on time or files
STEPS = {'gzs', 'gzd', 'headers', 'body', 'status', 'method', 'cookies', 'values', 'url', 'request', 'response', 'jops', 'kvc', 'auth'}
SKIP = {'kv', 'vfs', 'shared', 'par', 'leak', 'sha1big', 'static', 'shortid', 'now'}


def env(so):
    return {'LD_PRELOAD': so, 'ASAN_OPTIONS': 'abort_on_error=0:exitcode=97:detect_leaks=0:handle_abort=1:print_legend=0:verify_asan_link_order=0:allocator_may_return_null=1:max_allocation_size_mb=3000'}


def in_driver(err):
    for l in err.split('\n'):
        if l.strip().startswith('#') and ' /usr/include/' not in l and '(/lib' not in l:
            return '/harness/' in l
    return False


def gather(c):
    """Calls of the other checks, by kind."""
    kinds, found = {}, {}
    lock = __import__('threading').Lock()

    def one(name):
        rng = random.Random('%s/%s' % (c.seed, name))
        q = reuse.Quiet(c, name, c.scale(12, 4))

        def collect(_, exe, calls, judge, **k):
            calls = [x[0] if isinstance(x, tuple) else x for x in calls]
            calls = [x for x in calls if x[0] not in SKIP and sum(len(a) if isinstance(a, (bytes, str)) else 8 for a in x) < 20000]
            with lock:
                found.setdefault(name, []).extend(rng.sample(calls, min(len(calls), 400)))
        try:
            reuse.module(name, lambda v, h: '/nonexistent/' + h, collect, lambda *a, **k: None).run(q)
        except Exception as e:
            # needs results, or a server
            c.extra.setdefault('cut_short', []).append('%s: %s' % (name, repr(e)[:120]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, WORKLOADS))
    for name in WORKLOADS:
        for x in found.get(name, []):
            kinds.setdefault(str(x[0]), []).append(x)
    return kinds


def one_shots(c, exe, so):
    kinds = gather(c)
    calls = []
    rng = random.Random('%s/oom' % c.seed)
    for op in sorted(kinds):
        c.count('kinds')
        for x in rng.sample(kinds[op], min(len(kinds[op]), c.scale(40, 400) if op in REPORTING else c.scale(8, 60))):
            libc = 1 if op in ('zc', 'zd', 'bc', 'bd', 'gzs', 'gzd') and rng.random() < 0.7 else 0
            k = rng.random()
            if k < 0.7:
                f = [rng.randrange(1, 3) if rng.random() < 0.1 else 1, 1, c.scale(60, 400), 1, 0, libc]
            elif k < 0.85:
                # everything fails from there on
                f = [1, rng.choice([1, 3]), c.scale(40, 200), 1 << 40, rng.choice([0, 0, 1000]), libc]
            else:
                f = [1, 1, c.scale(20, 200), 2, rng.choice([0, 100, 1000]), libc]
            calls.append((['oom'] + f + x, op))
    rng.shuffle(calls)
    chunks = [calls[i::8] for i in range(8)]

    def work(ch):
        d = pure.Pure(exe, 60, env(so))
        try:
            for i, r in d.batch([x[0] for x in ch]):
                args, op = ch[i]
                desc = common.show([a if isinstance(a, (bytes, str, int)) else str(a) for a in args], 200)
                if r is None:
                    rc, err = d.last
                    if "terminate called" in err and op not in REPORTING:
                        c.count('ended_by_noexcept')
                        continue
                    if 'terminate called' in err:
                        c.violation('terminate:' + op, 'a failing allocation ended the process in %s: %s' % (desc, common.sanitizer_report(err)))
                    elif op == 'bc' and rc == 1 and not err:
                        # brotli does so when it was built to
                        c.count('ended_by_brotli')
                    elif 'stack-use-after-scope' in err and in_driver(err):
                        # gcc destroys what was not constructed of a braced list
                        c.count('confused_drivers')
                    else:
                        pure.judge_end(c, d.last, [op] + args[7:], 'allocation failures ')
                    continue
                if r[0] != b'K':
                    c.violation('script', 'oom call failed: %s' % common.show(r))
                    continue
                had = int(r[2])
                if had < 0:
                    c.count('changing_results')
                    continue
                c.count('failed_allocations', had)
                c.count('errors', int(r[3]))
                c.count('same_result', int(r[4]))
                c.case(desc, '%s: %d allocations failed in turn, %d errors' % (op, had, int(r[3])), n=max(1, had))
                c.count('op:' + op)
                for b in r[5:]:
                    what = b.split(b' at ')[0].split(b' after ')[0].decode()
                    c.violation('%s:%s' % (what.replace(' ', '-'), op), 'with failing allocations: %s; %s' % (common.show(b, 200), desc))
            d.close()
        finally:
            if d.p:
                d.p.kill()
                d.close()
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(work, ch) for ch in chunks]:
            f.result()


def kv(c, exe, so):
    """A store with failing operations: they take effect or don't, in memory as in the file."""
    tmp = tempfile.mkdtemp(prefix='c53-')
    rng = random.Random('%s/kv' % c.seed)
    calls = []
    try:
        for i in range(c.scale(1200, 12000)):
            keys = [rng.randbytes(rng.choice([1, 3, 40, 300])).hex().encode() for _ in range(rng.choice([1, 2, 4]))]
            p = '%s/%d.db' % (tmp, i)
            ops, faults = [('open', p)], ['0:1:0:0']

            def add(op, fault=None):
                ops.append(op)
                if op[0] != 'close':
                    faults.append(fault or '0:1:0:0')
            for _ in range(rng.randrange(0, 5)):
                add(('set', rng.choice(keys), b'v' * rng.choice([0, 1, 30, 600]) + b'%d' % rng.randrange(1000)))
            for _ in range(rng.randrange(1, 4)):
                k = rng.random()
                op = ('set', rng.choice(keys), b'w' * rng.choice([0, 1, 30, 600]) + b'%d' % rng.randrange(1000)) if k < 0.6 else ('rm', rng.choice(keys)) if k < 0.8 else ('clear',) if k < 0.85 else ('get', rng.choice(keys))
                add(op, '%d:%d:0:0' % (rng.choice([1, 1, 2, 2, 3, 4, 5, rng.randrange(1, 12)]), rng.choice([1, 1, 1, 2, 1 << 40])))

            def look():
                add(('size',))
                for k in keys:
                    add(('has', k))
                    add(('get', k))
            look()
            add(('close',))
            if rng.random() < 0.3:
                # opening fails
                add(('open', p), '%d:1:0:0' % rng.randrange(1, 40))
                add(('close',))
            add(('open', p))
            look()
            calls.append((['oomsteps', ','.join(faults), 'kv'] + [a for o in ops for a in o] + ['close'], (ops, keys)))

        def judge(args, r, x):
            ops, keys = x
            if r[0] != b'K':
                c.violation('kv:script', 'a script could not be run: %s' % common.show(r[1:2]))
                return
            flags = r[-1].decode()
            res = [pure.step(s) for s in r[1:-1]]
            cands = [{}]
            fi = 0
            trace = []
            for o, (st, v) in zip(ops, res):
                if o[0] == 'close':
                    continue
                fault = flags[fi] == '1'
                fi += 1
                trace.append('%s%s%s' % (o[0], '' if len(o) < 2 or o[0] == 'open' else common.show(o[1], 12), '!' if fault else ''))
                if fault:
                    c.count('kv_faults')
                    c.count('kv_faults_%s_%s' % (o[0], 'error' if st == 'E' else 'done'))
                if st == 'X' or st == 'E' and not fault:
                    c.violation('kv:error:' + o[0], '%s failed: %s; history: %s' % (o[0], common.show(v[:1]), ' '.join(trace)))
                    return
                nxt = []
                for m in cands:
                    if o[0] in ('set', 'rm', 'clear'):
                        n = dict(m)
                        if o[0] == 'set':
                            n[o[1]] = o[2]
                        elif o[0] == 'rm':
                            n.pop(o[1], None)
                        else:
                            n = {}
                        nxt.append(n)
                        if st == 'E':
                            nxt.append(m)
                    elif st == 'E' or o[0] == 'open':
                        nxt.append(m)
                    else:
                        want = b'%d' % len(m) if o[0] == 'size' else (b'1' if o[1] in m else b'0') if o[0] == 'has' else m.get(o[1], b'')
                        if v[0] == want:
                            nxt.append(m)
                if not nxt:
                    c.violation('kv:state', '%s gives %s, which no order of the operations that failed or not explains; history (! allocation failed): %s' % (o[0], common.show(v[:1], 60), ' '.join(trace)), flags=flags)
                    return
                cands = nxt
            c.case(common.show(args, 400), 'kv: ' + ' '.join(trace)[:200])
        pure.run(c, exe, calls, judge, env=env(so))
        # what failed openings and operations leave behind
        d = pure.Pure(exe, 60, env(so))
        p = tmp + '/leak.db'
        seq = [['kv', 'open', p] + [a for i in range(6) for a in ('set', 'key%d' % i * 20, 'v' * 100)] + ['close']]
        for k in range(1, 150):
            seq += [['oomsteps', '%d:1:0:0' % k, 'kv', 'open', p, 'close'], ['mem'], ['fds']] * 4
        got = []
        for i, r in d.batch(seq):
            if r is None:
                pure.judge_end(c, d.last, seq[i])
                break
            got.append(r)
        d.close()
        for k in range(1, 150):
            rs = got[1 + (k - 1) * 12:1 + k * 12]
            if len(rs) < 12:
                break
            mem = [int(x[1]) for x in rs[1::3]]
            fds = [int(x[1]) for x in rs[2::3]]
            c.count('failed_openings', sum(x[-1][:1] == b'1' for x in rs[::3]))
            c.case('open %d' % k)
            if mem[1] < mem[2] < mem[3] and mem[3] - mem[2] > 16:
                c.violation('kv:leak', 'each opening in which allocation %d fails leaves %d bytes allocated' % (k, mem[3] - mem[2]))
            if fds[1] < fds[2] < fds[3]:
                c.violation('kv:fd-leak', 'each opening in which allocation %d fails leaves a file open' % k)
    finally:
        shutil.rmtree(tmp)


def totals(v):
    return len(vfs.files_of(v)), sum(len(f[0]) + int(f[1]) for f in vfs.files_of(v))


def moves(c, exe, so):
    """Moving a file that fails leaves both as they were."""
    rng = random.Random('%s/moves' % c.seed)
    calls = []
    for i in range(c.scale(600, 6000)):
        names = [b'%d' % j + b'n' * rng.choice([0, 5, 13, 14, 15, 50, 300]) for j in range(rng.choice([1, 2, 4]))]
        files = {k: rng.randbytes(rng.choice([0, 10, 600])) for k in names}
        ops = [('write', k, b) for k, b in files.items()]
        f = ['0:1:0:0'] * len(ops)
        for _ in range(rng.choice([1, 1, 3])):
            ops.append(('move', rng.choice(names), rng.choice(names + [b'new' + b'm' * rng.choice([1, 12, 13, 40, 300])] * 3)))
            f.append('%d:%d:0:0' % (rng.choice([1, 1, 2, 2, 3, 4, 5]), rng.choice([1, 1, 1, 2, 1 << 40])))
            ops += [('list',), ('stats',)]
            f += ['0:1:0:0'] * 2
        ops += [('read', k) for k in sorted(set(names) | {o[2] for o in ops if o[0] == 'move'})]
        calls.append((['oomsteps', ','.join(f), 'vfs'] + [a for o in ops for a in o], (ops, f)))

    def judge(args, r, x):
        ops, f = x
        if r[0] != b'K':
            c.violation('vfs:script', 'a script could not be run: %s' % common.show(r[1:2]))
            return
        flags = r[-1].decode()
        cands = [{}]
        listed = None
        trace = []
        for i, (o, (st, v)) in enumerate(zip(ops, [pure.step(s) for s in r[1:-1]])):
            fired = flags[i:i + 1] == '1'
            c.count('moves_without_memory', int(fired and o[0] == 'move'))
            c.count('moves_failed', int(fired and o[0] == 'move' and st != 'K'))
            trace.append('%s%s%s' % (o[0], ''.join(' %s' % common.show(a, 12) for a in o[1:]), '!' if fired else ''))
            nxt = []
            for m in cands:
                if o[0] == 'write':
                    nxt.append({**m, o[1]: o[2]})
                elif o[0] == 'move':
                    if o[1] in m and (st == 'K'):
                        n = dict(m)
                        b = n.pop(o[1])
                        n[o[2]] = b
                        nxt.append(n)
                    elif st == 'E' and (fired or o[1] not in m):
                        nxt.append(m)
                elif st != 'K':
                    pass
                elif o[0] == 'list':
                    listed = totals(v)
                    if {q[0]: int(q[1]) for q in vfs.files_of(v)} == {k: len(b) for k, b in m.items()}:
                        nxt.append(m)
                elif o[0] == 'stats':
                    if tuple(int(q) for q in v) == listed:
                        nxt.append(m)
                elif o[0] == 'read' and (v[1] if v else None) == m.get(o[1]):
                    nxt.append(m)
            if not nxt:
                c.violation('vfs:move:' + o[0], 'after a move without memory %s gives %s; history (! allocation failed): %s' % (o[0], common.show(v, 80), ' '.join(trace)[:400]))
                return
            cands = nxt
        c.case(common.show(args, 300), 'vfs: ' + ' '.join(trace)[:200])
    pure.run(c, exe, calls, judge, env=env(so))


def snapshots(c, exe, so):
    """Saving and loading that fail leave the other files as they were."""
    tmp = tempfile.mkdtemp(prefix='c53-')
    rng = random.Random('%s/vfs' % c.seed)
    calls = []
    try:
        for i in range(c.scale(800, 8000)):
            files = {b'f%d' % j + b'n' * rng.choice([0, 50, 80]): rng.randbytes(rng.choice([0, 10, 600, 3000])) for j in range(rng.choice([1, 2, 5]))}
            other = {k: b'new' + rng.randbytes(20) for k in list(files)[:1]}
            other[b'more' * rng.choice([1, 20])] = rng.randbytes(rng.choice([0, 600, 2000]))
            ext = rng.choice(['.tar', '.tar.gz'])
            p = '%s/%d%s' % (tmp, i, ext)
            ops = [('write', k, b) for k, b in files.items()]
            f = ['0:1:0:0'] * len(ops) + ['%d:%d:0:0' % (rng.randrange(1, 30), rng.choice([1, 1, 2]))]
            if i % 2:
                ops.append(('save', p))
            else:
                data = vfs.std_tar(list(other.items()))
                ops.append(('loaddata', p, vfs.gz(data) if ext != '.tar' else data))
            ops += [('list',), ('stats',)] + [('read', k) for k in files] + [('save', p), ('new',), ('load', p)] + [('read', k) for k in files]
            calls.append((['oomsteps', ','.join(f), 'vfs'] + [a for o in ops for a in o], (ops, files, other)))

        def judge(args, r, x):
            ops, files, other = x
            if r[0] != b'K':
                c.violation('vfs:script', 'a script could not be run: %s' % common.show(r[1:2]))
                return
            fired = '1' in r[-1].decode()
            c.count('vfs_faults', int(fired))
            failed = False
            listed = None
            first = True
            for o, (st, v) in zip(ops, [pure.step(s) for s in r[1:-1]]):
                if o[0] in ('save', 'loaddata') and first:
                    first = False
                    failed = st != 'K'
                    loading = o[0] == 'loaddata'
                    if failed and not fired:
                        c.violation('vfs:error', '%s failed: %s' % (o[0], common.show(v[:1])))
                        return
                    c.count('vfs_%s_%s' % (o[0], 'failed' if failed else 'done'), int(fired))
                    continue
                if st != 'K':
                    c.violation('vfs:after:' + o[0], '%s failed after an operation without memory: %s' % (o[0], common.show(v[:1])))
                    return
                if o[0] == 'stats':
                    got = tuple(int(q) for q in v)
                    if got != listed:
                        c.violation('vfs:stats', 'after an operation without memory there are %d files of %d bytes by the statistics and %d of %d by the list' % (got + listed))
                        return
                elif o[0] == 'list':
                    names = {q[0] for q in vfs.files_of(v)}
                    listed = totals(v)
                    if not set(files) <= names or names - set(files) - (set(other) if loading else set()):
                        c.violation('vfs:names', 'files after an operation without memory: %s instead of %s' % (common.show(sorted(names)), common.show(sorted(files))))
                        return
                    if loading and not failed and not set(other) <= names:
                        c.violation('vfs:swallowed', 'loading reported no error and loaded only %s' % common.show(sorted(names)))
                        return
                elif o[0] == 'read' and o[1] in files:
                    may = {files[o[1]]} if not loading or o[1] not in other else {other[o[1]]} if not failed else {files[o[1]], other[o[1]]}
                    if not v or v[1] not in may:
                        c.violation('vfs:content', 'a file is %s after an operation without memory' % common.show(v[1] if v else None, 60))
                        return
            c.case(common.show(args, 300))
        pure.run(c, exe, calls, judge, env=env(so))
    finally:
        shutil.rmtree(tmp)


def run(c):
    c.rule = 'allocations that were made to fail within a call, and scripts with failing steps; non-trivial: distinct calls and scripts'
    exe = build.build('asan', ['pure'])['pure']
    so = build.shim('alloc')
    one_shots(c, exe, so)
    kv(c, exe, so)
    moves(c, exe, so)
    snapshots(c, exe, so)
    if not c.viol:
        c.require('failed_allocations', 3000)
        c.require('errors', 2000)
        for op in sorted(REPORTING - {'kv', 'splitc'}):
            c.require('op:' + op, 3)
        c.require('kv_faults', 500)
        c.require('kv_faults_set_error', 100)
        c.require('failed_openings', 60)
        c.require('vfs_faults', 200)
        c.require('moves_without_memory', 200)
