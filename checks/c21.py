"""C21: crashes of processes using the key-value store."""
import os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import build, pure, common, kv

TECHNIQUE = 'runtime monitoring with fault injection: the process is ended before and in the middle of every call that changes a file (preloaded library), and stores are cut to every length; the store is then reopened under ASan+UBSan and its content is compared with the states the history allows'
NOTE = 'The process dies; the operating system does not, so what reached a file stays there. Value sizes up to a few kilobytes.'


def states(possible, ops, done):
    """Contents allowed when `done` operations were completed and the next may have been."""
    out = []
    for p in possible:
        m = dict(p)
        for o in ops[:done]:
            kv.apply(m, o)
        out.append(m)
        if done < len(ops):
            m = dict(m)
            kv.apply(m, ops[done])
            out.append(m)
    return out


def run(c):
    bins = {}
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build.build, 'asan', ['pure']), ex.submit(build.build, 'plain', ['pure'])
        exe, plain = a.result()['pure'], b.result()['pure']
    so = build.shim('die')
    c.rule = 'a store left behind by a process that ended at one point of a history'
    rng = random.Random('%s/k' % c.seed)
    tmp = tempfile.mkdtemp(prefix='lambda-kv-')
    try:
        # 1. every length of a store
        scripts = []
        for i in range(c.scale(60, 600)):
            u = kv.universe(rng)
            u = [k for k in u if len(k) < 300]
            ops = [o for o in kv.ops(rng, u, rng.choice([1, 2, 4, 8, 14]), 0.08) if o[0] in ('set', 'rm', 'clear')]
            ops = [('set', o[1], o[2][:rng.choice([0, 3, 40, 400])]) if o[0] == 'set' else o for o in ops]
            path = os.path.join(tmp, 's%d' % i)
            seq = [('open', path), ('filesize', path)]
            for o in ops:
                seq += [o, ('filesize', path)]
            scripts.append((['kv'] + kv.flat(seq), (path, u, ops)))
        cutcalls = []
        torn = []

        def js(args, r, x):
            path, u, ops = x
            if r[0] != b'K' or any(s[:1] != b'K' for s in r[1:]):
                c.violation('history', 'a plain history failed: %s' % common.show(r[:3]))
                return
            sizes = [int(pure.step(s)[1][0]) for s in r[2::2]]
            data = open(path, 'rb').read()
            if len(data) != sizes[-1]:
                c.count('stores_changed_by_closing')
            with c.lock:
                cutcalls.append((path, u, ops, sizes, data))
        pure.run(c, exe, scripts, js)
        # (when an operation's bytes reach the file late, the second part notices)
        calls = []
        for path, u, ops, sizes, data in cutcalls:
            ls = range(len(data) + 1) if len(data) < 260 or c.thorough else sorted(set(list(range(0, 60)) + [s + d for s in sizes for d in (-3, -2, -1, 0, 1, 2, 7, 8, 9)] + [rng.randrange(len(data)) for _ in range(50)]))
            for L in ls:
                if not 0 <= L <= len(data):
                    continue
                done = max([i for i, s in enumerate(sizes) if s <= L] + [-1])
                p = '%s-%d' % (path, L)
                open(p, 'wb').write(data[:L])
                allow = states([{}], ops, max(done, 0))
                seq = [('open', p)] + kv.probe(u) + [('set', b'after', b'crash'), ('close',), ('open', p)] + kv.probe(u + [b'after']) + [('close',)]
                calls.append((['kv'] + kv.flat(seq), (u, ops, allow, 'the first %d of %d bytes' % (L, len(data)), done, p)))
                if rng.random() < 0.02 and len(torn) < 60:
                    torn.append((u, data[:L], allow))

        def judge(args, r, x):
            u, ops, allow, what, done, p = x
            brief = '; '.join(' '.join(common.show(y, 16) if isinstance(y, bytes) else y for y in o) for o in ops)[:1500]
            c.case(common.hashlib.sha1(repr((ops, what)).encode()).hexdigest(), '%s of %d operations: %d states allowed' % (what, len(ops), len(allow)) if rng.random() < 0.001 else None)
            st, v = pure.step(r[1]) if r[0] == b'K' else ('E', r[1:])
            if st != 'K':
                c.violation('open', 'a store holding %s cannot be opened: %s' % (what, common.show(v[0] if v else b'')), history=brief)
                return
            vals = [pure.step(s) for s in r[2:]]
            n = 1 + 2 * len(u)
            got, size = kv.content(u, [v[0] if v else b'' for s, v in vals[:n]])
            if got not in allow or size != len(got):
                c.violation('content', 'a store holding %s has %d items %s instead of %s (%d operations were completed)' % (what, size, common.show(got, 150), ' or '.join(common.show(a, 150) for a in allow[:2]), done), history=brief)
                return
            if any(s != 'K' for s, v in vals):
                c.violation('use', 'a store holding %s cannot be used after opening it' % what, history=brief)
                return
            u2 = u + [b'after']
            got2, size2 = kv.content(u2, [v[0] for s, v in vals[n + 3:n + 3 + 1 + 2 * len(u2)]])
            if got2 != {**got, b'after': b'crash'} or size2 != len(got2):
                c.violation('later', 'operations after reopening a store holding %s were lost: %s' % (what, common.show(got2, 150)), history=brief)
                return
            c.count('reopened_stores')
            if p:
                try:
                    os.unlink(p)
                except OSError:
                    pass
        pure.run(c, exe, calls, judge)

        # 2. ends at every call
        jobs = []
        for i in range(c.scale(70, 800)):
            u = [k for k in kv.universe(rng) if len(k) < 5000]
            d = os.path.join(tmp, 'd%d' % i)
            os.makedirs(d)
            start, possible = None, [{}]
            k = rng.random()
            if k < 0.25 and torn:
                u0, start, possible = rng.choice(torn)
                u = sorted(set(u + u0))
            elif k < 0.5 and cutcalls:
                _, u0, o0, _, start = rng.choice(cutcalls)
                m = {}
                for o in o0:
                    kv.apply(m, o)
                possible = [m]
                u = sorted(set(u + u0))
            ops, steps = [], []
            steps += [('open', d + '/db')]
            for _ in range(rng.choice([1, 1, 2, 3])):
                for o in kv.ops(rng, u, rng.choice([0, 1, 3, 6])):
                    if o[0] in ('set', 'rm', 'clear'):
                        ops.append(o)
                        steps += [o, ('mark', '@%d@' % len(ops))]
                if rng.random() < 0.8:
                    steps += [('close',)] if rng.random() < 0.5 else []
                    steps += [('open', d + '/db')]
            steps += [('close',)]
            jobs.append((i, d, u, start, possible, ops, kv.flat(steps)))

        def crash(job):
            i, d, u, start, possible, ops, steps = job
            out = []
            at = 0
            while at < 400:
                at += 1
                ended = False
                for part in (0, rng.choice([1, 10, 50, 90, 99])):
                    dd = '%s/%d-%d' % (d, at, part)
                    os.makedirs(dd)
                    if start is not None:
                        open(dd + '/db', 'wb').write(start)
                    env = dict(os.environ, LD_PRELOAD=so, DIE_AT=str(at), DIE_PART=str(part))
                    r = subprocess.run([plain, '30'], input=pure.enc(['kv'] + [x.replace(d + '/db', dd + '/db') if isinstance(x, str) else x for x in steps]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
                    if r.returncode == 0:
                        ended = True
                        shutil.rmtree(dd)
                        break
                    if r.returncode != 77:
                        c.violation('died', 'the process ended with %d: %s' % (r.returncode, r.stderr[-500:].decode('latin1')))
                        return out
                    marks = [int(x) for x in r.stderr.decode('latin1').split('@')[1::2]]
                    out.append((dd, u, ops, possible, marks[-1] if marks else 0, 'what a process left that ended at call %d%s' % (at, ' writing %d%%' % part if part else '')))
                if ended:
                    break
            c.note_max('crash_points_in_one_history', at)
            return out
        calls = []
        with ThreadPoolExecutor(8) as ex:
            for out in ex.map(crash, jobs):
                for dd, u, ops, possible, done, what in out:
                    c.count('crashes')
                    if os.path.exists(dd + '/db'):
                        c.count('crashes_leaving_a_file')
                    allow = states(possible, ops, done)
                    p = dd + '/db'
                    seq = [('open', p)] + kv.probe(u) + [('set', b'after', b'crash'), ('close',), ('open', p)] + kv.probe(u + [b'after']) + [('close',)]
                    calls.append((['kv'] + kv.flat(seq), (u, ops, allow, what, done, None)))
        pure.run(c, exe, calls, judge)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.require('reopened_stores', 5000)
    c.require('crashes', 2000)
    c.require('crashes_leaving_a_file', 1000)
