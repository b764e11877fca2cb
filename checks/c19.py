"""C19: the key-value store is a persistent map."""
import os, random, shutil, tempfile
from vlib import build, pure, common, kv

TECHNIQUE = 'runtime monitoring: random histories of operations, reopenings and failing writes on the store built with ASan+UBSan, every result compared with a map model'
NOTE = 'Values up to a few megabytes. Writes that cannot be stored are provoked with oversized keys and a file size limit.'


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a history of operations on one store file'
    rng = random.Random('%s/k' % c.seed)
    tmp = tempfile.mkdtemp(prefix='lambda-kv-')
    try:
        calls = []
        n = c.scale(3000, 20000)
        for i in range(n):
            u = kv.universe(rng)
            kind = rng.choice(['plain', 'plain', 'plain', 'oversize', 'limit'])
            d = os.path.join(tmp, 'h%d' % i)
            path = rng.choice(['db', 'x/db', 'a/b/c/store.ldb', './db', 'a//db']) if rng.random() < 0.5 else 'db'
            os.makedirs(d)
            seq = [('chdir', d)]
            name = rng.choice([path, d + '/' + path])
            opener = ('open', name)
            if rng.random() < 0.1:
                opener = ('open0',)
            seq.append(opener)
            for part in range(rng.choice([1, 2, 3, 5])):
                body = kv.ops(rng, u, rng.choice([0, 1, 3, 10, 40]))
                if kind == 'oversize':
                    for _ in range(2):
                        k = rng.choice([b'k' * 65536, b'k' * 65537, b'x' * 65536 + b'a', b'y' * 131072, b'z' * 200000])
                        body.insert(rng.randrange(len(body) + 1), rng.choice([('set', k, kv.val(rng)), ('set', k, b'v' * 70000), ('rm', k), ('get', k), ('has', k)]))
                elif kind == 'limit':
                    at = rng.randrange(len(body) + 1)
                    body.insert(at, ('fsize', '%d' % rng.choice([0, 8, 20, 100, 1000, 9000, 70000])))
                    end = rng.randrange(at + 1, len(body) + 1)
                    body.insert(end, ('fsize', '-'))
                seq += body
                if rng.random() < 0.3:
                    seq += kv.probe(u)
                if rng.random() < 0.8:
                    seq.append(('close',))
                seq.append(opener)
            seq += kv.probe(u)
            seq.append(('close',))
            calls.append((['kv'] + kv.flat(seq), (seq, u, d)))
        # one big history
        big = [('open', tmp + '/big')] + [('set', b'key%d' % (k % 700), b'%d' % k * (k % 50)) for k in range(4000)] + [('set', b'large', rng.randbytes(3_000_000)), ('open', tmp + '/big'), ('size',), ('get', b'large')] + [('get', b'key%d' % k) for k in range(700)] + [('open', tmp + '/big'), ('size',), ('close',)]
        calls.append((['kv'] + kv.flat(big), (big, [], None)))

        def judge(args, r, x):
            seq, u, d = x
            if r[0] != b'K':
                c.violation('history', 'a history could not be run: %s' % common.show(r[1:2]))
                return
            m = {}
            res = r[1:]
            k = 0
            limited = False
            brief = []
            c.case(common.hashlib.sha1(pure.enc(args)).hexdigest(), None)
            for op in seq:
                if op[0] in ('chdir', 'fsize'):
                    if op[0] == 'fsize':
                        limited = op[1] != '-'
                        brief.append('[file size limit %s]' % op[1])
                    continue
                st, v = pure.step(res[k])
                k += 1
                brief.append('%s%s' % (' '.join(common.show(y, 12) if isinstance(y, bytes) else y for y in op), '' if st == 'K' else '!'))
                where = '; '.join(brief[-12:])
                c.count('op_' + op[0])
                if op[0] in ('open', 'open0', 'close'):
                    if st != 'K':
                        c.violation('open', 'the store cannot be opened: %s (%s)' % (common.show(v[0]), where), history=brief[-200:])
                        return
                    continue
                if st != 'K':
                    # only an operation that cannot be stored may be refused
                    if op[0] == 'set' and (len(op[1]) > 65535 or limited) or op[0] in ('rm', 'clear') and limited:
                        c.count('refused_operations')
                        continue
                    c.violation('error:' + op[0], 'operation failed: %s (%s)' % (common.show(v[0] if v else b''), where), history=brief[-200:])
                    return
                want = kv.apply(m, op)
                if want is not None and v[0] != want:
                    c.violation('result:' + op[0], 'gave %s instead of %s (%s)' % (common.show(v[0], 60), common.show(want, 60), where), history=brief[-200:])
                    return
            c.count('histories')
            if d:
                shutil.rmtree(d, ignore_errors=True)
        pure.run(c, exe, calls, judge, limit=60)
        lk = []
        for i in range(150):
            u = kv.universe(rng)
            p = '%s/l%d' % (tmp, i)
            lk.append(['kv', 'open', p] + kv.flat(kv.ops(rng, u, 10)) + ['open', p, 'close'])
        for i in range(20):
            p = '%s/bad%d' % (tmp, i)
            open(p, 'wb').write([b'not a db file', b'mlkvdb\x09\x00', b'mlkvdb\x03\x00\x00\x00\x01\x00\x01\x00\x00\x00kv\x77\x77\x00\x00\x00\x00\x00\x00'][i % 3])
            lk.append(['kv', 'open', p, 'close'])
        pure.leaks(c, exe, lk)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.require('histories', 1000)
    c.require('refused_operations', 200)
    c.require('op_set', 5000)
    c.require('op_rm', 2000)
    c.require('op_open', 2000)
