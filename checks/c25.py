"""C25: concurrent use of one virtual file system."""
import os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import build, proc, common, linear, vfs

TECHNIQUE = 'runtime monitoring: multi-threaded workloads under TSan and ASan; recorded histories of all operations, including the archives written by snapshots, are checked for linearizability against a map of files'
NOTE = 'Histories of up to eight threads and a few thousand operations on few names; the checker decides every history completely (it reports when it cannot). Loading a snapshot while others write is checked for races and for the files of the final state only.'


def snapshot(path):
    raw = open(path, 'rb').read()
    data = vfs.gunzip(raw) if path.endswith('gz') else raw
    ents = vfs.parse(data, True)
    d = {n.decode('latin1'): b.hex() for n, _, b, _ in ents}
    if len(d) != len(ents):
        raise vfs.Bad('a name occurs twice')
    return d


def parse(text):
    ops, fin, stats = [], {}, None
    for l in text.split('\n'):
        w = l.split(' ')
        if w[0] == 'OP':
            ops.append((int(w[2]), int(w[3]), (w[4], w[5], w[6], w[7])))
        elif w[0] == 'FINAL':
            fin[w[1]] = w[3]
        elif w[0] == 'FINALSTATS':
            stats = (int(w[1]), int(w[2]))
    return ops, fin, stats


def ln(h):
    return 0 if h == '-' else len(h) // 2


def step(st, op):
    """st: tuple of contents (hex, None: no file) of f0.."""
    name, f, arg, res = op
    i = int(f[1:])
    if name == 'read':
        return st if res == ('0' if st[i] is None else '1:' + st[i]) else None
    if name == 'info':
        return st if res == ('0' if st[i] is None else '1:%d' % ln(st[i])) else None
    if name == 'list':
        return st if res == frozenset(('f%d' % k, ln(v)) for k, v in enumerate(st) if v is not None) else None
    if name == 'stats':
        return st if res == '%d:%d' % (sum(v is not None for v in st), sum(ln(v) + 2 for v in st if v is not None)) else None
    if name == 'snapshot':
        return st if res == {('f%d' % k): v for k, v in enumerate(st) if v is not None} else None
    if name == 'write':
        return st[:i] + (arg,) + st[i + 1:]
    if name == 'remove':
        return st[:i] + (None,) + st[i + 1:]
    # move
    if (st[i] is not None) != (res == '1'):
        return None
    j = int(arg[1:])
    if st[i] is None or i == j:
        return st
    l = list(st)
    l[j], l[i] = l[i], None
    return tuple(l)


READS = ('read', 'info', 'list', 'stats', 'snapshot')


def one(c, variant, exe, tmp, i, threads, n, names, snap, env=None):
    d = '%s/%s-%d' % (tmp, variant, i)
    os.makedirs(d)
    o = proc.run(c, exe, ['vfs', 'dir=' + d, 'threads=%d' % threads, 'n=%d' % n, 'names=%d' % names, 'seed=%d' % (c.seed * 1000 + i), 'snap=%d' % snap], env=env)
    if o is None:
        return
    raw, fin, stats = parse(o[0].decode('latin1'))
    what = '%s, %d threads, %d names' % (variant, threads, names)
    if len(raw) != threads * n:
        c.problem('driver printed %d of %d operations' % (len(raw), threads * n))
        return
    ops = []
    for a, b, (name, f, arg, res) in raw:
        if name == 'list':
            ents = [] if res == '-' else [tuple(e.rsplit('=', 1)) for e in res.split(';')[:-1]]
            res = frozenset((k, int(v)) for k, v in ents)
            if len(res) != len(ents):
                c.violation('list', 'a listing has a name twice (%s)' % what)
                return
        elif name == 'snapshot':
            c.count('snapshots')
            path = bytes.fromhex(arg).decode()
            if res != '1':
                c.violation('snapshot', 'a snapshot failed: %s (%s)' % (bytes.fromhex(res[2:]).decode('latin1'), what))
                return
            try:
                res = {k: v or '-' for k, v in snapshot(path).items()}
            except Exception as e:
                c.violation('snapshot-archive', 'a snapshot saved while others write is not a well-formed archive: %s (%s)' % (e, what))
                return
        ops.append((a, b, (name, f, arg, res)))
        c.count('op_' + name)
    try:
        bad, states, st = linear.check(ops, (None,) * names, step, READS)
    except linear.TooHard:
        c.problem('a history is too hard to decide (%s)' % what)
        return
    if bad is not None:
        near = [x for x in ops if x[0] < ops[bad][1] and x[1] > ops[bad][0] - 100000]
        c.violation('linearizability:' + ops[bad][2][0], 'no order of the operations explains %s (%s); possible contents before: %s' % (common.show(ops[bad][2], 200), what, common.show(list(states)[:2], 200)), near=repr(near[-20:])[:4000])
        return
    want = [{('f%d' % k): v for k, v in enumerate(s) if v is not None} for s in states]
    if fin not in want:
        c.violation('final', 'the final content %s is explained by no order of the operations (%s)' % (common.show(fin, 200), what))
    if stats != (len(fin), sum(len(k) + ln(v) for k, v in fin.items())):
        c.violation('final-stats', 'the statistics at the end are %s, the files %s (%s)' % (stats, common.show({k: ln(v) for k, v in fin.items()}, 200), what))
    c.case('%s/%d' % (variant, i), '%s: %d operations, up to %d at once, %d orders in question' % (what, len(ops), st['pending'], st['configs']))
    c.count('histories')
    c.count('operations', len(ops))
    c.count('overlapping_operations', sum(1 for a, b in zip(sorted(ops, key=lambda o: o[:2]), sorted(ops, key=lambda o: o[:2])[1:]) if b[0] < a[1]))
    c.note_max('operations_at_once', st['pending'])
    c.note_max('configurations', st['configs'])
    shutil.rmtree(d, ignore_errors=True)


def loads(c, variant, exe, tmp, i):
    """Snapshots are loaded while others work: races and the final state."""
    d = '%s/load-%s-%d' % (tmp, variant, i)
    os.makedirs(d)
    files = {('g%d' % k).encode(): bytes([97 + k]) * (k * 300) for k in range(12)}
    data = vfs.std_tar(sorted(files.items()))
    for n, b in (('a.tar', data), ('a.tgz', vfs.gz(data)), ('bad.tar', data[:5000]), ('bad.tgz', vfs.gz(data)[:200])):
        open(d + '/' + n, 'wb').write(b)
    o = proc.run(c, exe, ['vfs', 'dir=' + d, 'threads=5', 'n=60', 'names=3', 'seed=%d' % (c.seed * 1000 + i), 'snap=1', 'loads=8'])
    if o is None:
        return
    raw, fin, stats = parse(o[0].decode('latin1'))
    for k, v in files.items():
        if fin.get(k.decode()) != (v.hex() or '-'):
            c.violation('loaded', 'after loading a snapshot while others wrote other files, %s has the content %s' % (k, common.show(fin.get(k.decode()), 60)))
            return
    if stats != (len(fin), sum(len(k) + ln(v) for k, v in fin.items())):
        c.violation('load-stats', 'after loading while others write the statistics are %s, the files %s' % (stats, common.show({k: ln(v) for k, v in fin.items()}, 200)))
    text = o[0].decode('latin1')
    if text.count('\nLOAD ') + text.startswith('LOAD ') != 8 * 2:
        c.problem('loads are missing in the output')
    for l in text.split('\n'):
        w = l.split(' ')
        if w[0] == 'LOAD' and w[1].startswith('a.') and w[2] != '1':
            c.violation('load', 'loading a good archive failed while others write')
    c.count('concurrent_loads', 16)
    c.case('load-%s/%d' % (variant, i), None)
    shutil.rmtree(d, ignore_errors=True)


def run(c):
    with ThreadPoolExecutor(3) as ex:
        bins = dict(zip(('tsan', 'asan', 'plain'), ex.map(lambda v: build.build(v, ['conc'])['conc'], ('tsan', 'asan', 'plain'))))
    c.rule = 'a multi-threaded history that was recorded and decided'
    tmp = tempfile.mkdtemp(prefix='lambda-vfsc-')
    try:
        jobs = []
        for i in range(c.scale(14, 150)):
            jobs.append(('tsan', i, 6, 120, [2, 4, 1][i % 3], i % 4 != 3))
        for i in range(c.scale(10, 100)):
            jobs.append(('asan', i, 6, 250, [2, 4, 1][i % 3], i % 4 != 3))
        for i in range(c.scale(40, 500)):
            jobs.append(('plain', i, [4, 6, 8, 5][i % 4], 400, [1, 2, 3, 5][i % 4], i % 3 != 2))
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(one, c, v, bins[v], tmp, i, t, n, k, s, {'LAMBDA_LOCKDELAY': '400'} if i % 5 == 2 else None) for v, i, t, n, k, s in jobs]
            fs += [ex.submit(loads, c, v, bins[v], tmp, i) for v in ('tsan', 'asan') for i in range(c.scale(4, 40))]
            for f in fs:
                f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.require('histories', 50)
    c.require('overlapping_operations', 5000)
    c.require('snapshots', 150)
    c.require('concurrent_loads', 100)
