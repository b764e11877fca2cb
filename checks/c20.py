"""C20: concurrent use of the key-value store."""
import os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import build, proc, common, linear

TECHNIQUE = 'runtime monitoring: multi-threaded workloads under TSan, ASan and with delayed file writes; recorded histories of all operations are checked for linearizability against a map, final and reopened contents must match'
NOTE = 'Histories of up to eight threads and a few thousand operations on few keys; the checker decides every history completely (it reports when it cannot).'


def parse(text):
    ops, fin, reop, sizes = [], {}, {}, {}
    for l in text.split('\n'):
        w = l.split(' ')
        if w[0] == 'OP':
            ops.append((int(w[2]), int(w[3]), (w[4], w[5], w[6], w[7])))
        elif w[0] in ('FINAL', 'REOPEN'):
            if w[2] == '1':
                (fin if w[0] == 'FINAL' else reop)[w[1]] = w[3]
            elif w[3] != '-':
                (fin if w[0] == 'FINAL' else reop)[w[1]] = 'missing but ' + w[3]
        elif w[0] in ('FINALSIZE', 'REOPENSIZE'):
            sizes[w[0]] = int(w[1])
    return ops, fin, reop, sizes


def step(st, op):
    name, key, arg, res = op
    i = int(key[1:])
    if name == 'get':
        return st if (st[i] or '-') == res else None
    if name == 'has':
        return st if (st[i] is not None) == (res == '1') else None
    if name == 'size':
        return st if sum(x is not None for x in st) == int(res) else None
    if name == 'set':
        return st[:i] + (arg,) + st[i + 1:]
    if name == 'remove':
        return st[:i] + (None,) + st[i + 1:]
    return (None,) * len(st)


def one(c, variant, exe, tmp, i, threads, n, keys, env=None):
    f = '%s/%s-%d' % (tmp, variant, i)
    o = proc.run(c, exe, ['kv', 'file=' + f, 'threads=%d' % threads, 'n=%d' % n, 'keys=%d' % keys, 'seed=%d' % (c.seed * 1000 + i)], env=env)
    if o is None:
        return
    ops, fin, reop, sizes = parse(o[0].decode('latin1'))
    if len(ops) != threads * n:
        c.problem('driver printed %d of %d operations' % (len(ops), threads * n))
        return
    what = '%s, %d threads, %d keys' % (variant, threads, keys)
    try:
        bad, states, stats = linear.check(ops, (None,) * keys, step, ('get', 'has', 'size'))
    except linear.TooHard:
        c.problem('a history is too hard to decide (%s)' % what)
        return
    if bad is not None:
        near = [x for x in ops if x[0] < ops[bad][1] and x[1] > ops[bad][0] - 100000]
        c.violation('linearizability', 'no order of the operations explains %s (%s); possible contents before: %s' % (ops[bad][2], what, common.show(list(states)[:2], 200)), near=repr(near[-20:])[:4000])
        return
    want = [{('k%d' % k): v for k, v in enumerate(s) if v is not None} for s in states]
    if fin not in want or sizes.get('FINALSIZE') != len(fin):
        c.violation('final', 'the final content %s is explained by no order of the operations (%s)' % (common.show(fin, 200), what))
    if reop != fin or sizes.get('REOPENSIZE') != len(reop):
        c.violation('reopen', 'the content after reopening differs from the final content (%s): %s and %s' % (what, common.show(reop, 200), common.show(fin, 200)))
    c.case('%s/%d' % (variant, i), '%s: %d operations, up to %d at once, %d orders in question' % (what, len(ops), stats['pending'], stats['configs']))
    c.count('histories')
    c.count('operations', len(ops))
    c.count('overlapping_operations', sum(1 for a, b in zip(sorted(ops), sorted(ops)[1:]) if b[0] < a[1]))
    c.note_max('operations_at_once', stats['pending'])
    c.note_max('configurations', stats['configs'])
    os.path.exists(f) and os.unlink(f)


def run(c):
    with ThreadPoolExecutor(3) as ex:
        bins = dict(zip(('tsan', 'asan', 'plain'), ex.map(lambda v: build.build(v, ['conc'])['conc'], ('tsan', 'asan', 'plain'))))
    so = build.shim('die')
    c.rule = 'a multi-threaded history that was recorded and decided'
    tmp = tempfile.mkdtemp(prefix='lambda-kvc-')
    try:
        jobs = []
        for i in range(c.scale(14, 150)):
            jobs.append(('tsan', i, 6, 200, [2, 4, 1][i % 3], {'LAMBDA_LOCKDELAY': '300'} if i % 4 == 3 else None))
        for i in range(c.scale(8, 80)):
            jobs.append(('asan', i, 6, 300, [2, 4, 1][i % 3], None))
        for i in range(c.scale(30, 400)):
            jobs.append(('plain', i, [4, 6, 8, 5][i % 4], 300, [1, 2, 3, 5][i % 4], dict(LD_PRELOAD=so, DIE_SLOW=str([50, 300, 1000][i % 3])) if i % 3 else {'LAMBDA_LOCKDELAY': '500'}))
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(one, c, v, bins[v], tmp, i, t, n, k, e) for v, i, t, n, k, e in jobs]:
                f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.require('histories', 40)
    c.require('overlapping_operations', 5000)
