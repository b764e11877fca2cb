"""C22: the virtual file system as a map of files."""
import os, random, shutil, tempfile
from vlib import build, pure, common, vfs

TECHNIQUE = 'runtime monitoring: random histories of operations on the virtual file system built with ASan+UBSan, every result compared with a map model'
NOTE = 'The process runs on a wall clock that histories move forward between operations, so every operation has its own window of possible times; times are judged to the second. Files with arbitrary modification times come from loaded archives.'


def names(rng):
    u = [vfs.name(rng) for _ in range(rng.choice([1, 2, 3, 5]))] + ([b''] if rng.random() < 0.1 else []) + ([b'n\0x', b'n'] if rng.random() < 0.1 else [])
    return u + [n.upper() for n in u if rng.random() < 0.4] + [n.lower() for n in u if rng.random() < 0.4] + [n.swapcase() for n in u if rng.random() < 0.2]


def ops(rng, u, n, tmp, tag):
    out = []
    for i in range(n):
        k = rng.random()
        a, b = rng.choice(u), rng.choice(u)
        if rng.random() < 0.12:
            out.append(('tick', str(rng.choice([3, 60, 3600, 100000]))))
        if k < 0.25:
            out.append((rng.choice(['write', 'writeb']), a, vfs.content(rng)[:rng.choice([0, 5, 100, 3000])]))
        elif k < 0.40:
            out.append(('move', a, a if rng.random() < 0.1 else b))
        elif k < 0.50:
            out.append(('rm', a))
        elif k < 0.62:
            out.append(('read', a))
        elif k < 0.74:
            out.append(('info', a))
        elif k < 0.82:
            out.append(('list',))
        elif k < 0.94:
            out.append(('stats',))
        elif k < 0.98 and not any(b'\0' in x or not x for x in u):
            fs = [(rng.choice(u), vfs.content(rng)[:2000]) for _ in range(rng.choice([0, 1, 2, 3]))]
            t = 800_000_000 + rng.randrange(500_000_000)
            data = b''
            for nm, body in fs:
                if len(nm) > 99:
                    data += vfs.entry(b'././@LongLink', nm, typ=b'L')
                data += vfs.entry(nm[:99], body, t)
            p = '%s/%s-%d.tar' % (tmp, tag, i)
            data += vfs.END
            if rng.random() < 0.4:
                p += '.gz'
                data = vfs.gz(data)
            out.append(('loaddata', p, data, fs, t))
        elif not any(b'\0' in x or not x for x in u):
            out.append(('save', '%s/%s-%d%s' % (tmp, tag, i, rng.choice(['.tar', '.tgz']))))
    return out


class Model:
    """f: name -> content, window of the creation time, window of the modification time"""
    def __init__(self):
        self.f = {}

    def same(self, got, nm):
        """got: name, created, modified as reported for nm"""
        b, cr, mo = self.f[nm]
        if got[0] != nm:
            return 'the name %s' % common.show(got[0], 60)
        for what, x, w in (('creation', int(got[1]), cr), ('modification', int(got[2]), mo)):
            if not w[0] <= x <= w[1]:
                return 'the %s time %d instead of %s' % (what, x, w[0] if w[0] == w[1] else '%d..%d' % w)
        return None


def windows(seq, res):
    """the times every step can have seen"""
    at = [i for i, o in enumerate(seq) if o[0] == 'tick']
    out = [None] * len(seq)
    for a, b in zip(at, at[1:]):
        w = (int(pure.step(res[a])[1][1]), int(pure.step(res[b])[1][0]))
        for i in range(a, b):
            out[i] = w
    return out


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a history of operations on one virtual file system'
    rng = random.Random('%s/v' % c.seed)
    tmp = tempfile.mkdtemp(prefix='lambda-vfs-')
    try:
        calls = []
        for i in range(c.scale(2500, 25000)):
            u = names(rng)
            seq = ops(rng, u, rng.choice([3, 8, 20, 60]), tmp, 'h%d' % i)
            seq += [('list',), ('stats',)] + [x for n in u for x in (('read', n), ('info', n))]
            seq = [('tick', '0')] + seq + [('tick', '5')]
            calls.append((['vfs'] + [a for o in seq for a in o[:3]], seq))
        u = [b'f%d' % i for i in range(900)]
        seq = [('write', rng.choice(u), b'%d' % i * (i % 9)) for i in range(3000)]
        for i in range(3000):
            seq += [('move', rng.choice(u), rng.choice(u) if i % 3 else b'new%d' % i)]
        seq = [('tick', '0')] + seq + [('list',), ('stats',), ('tick', '5')]
        calls.append((['vfs'] + [a for o in seq for a in o[:3]], seq))

        def judge(args, r, seq):
            if r[0] != b'K':
                c.violation('history', 'a history could not be run: %s' % common.show(r[1:2]))
                return
            m = Model()
            res = r[1:]
            win = windows(seq, res)
            brief = []
            c.case(common.hashlib.sha1(pure.enc(args)).hexdigest(), None)
            for op, raw, w in zip(seq, res, win):
                st, v = pure.step(raw)
                brief.append('%s%s' % (' '.join(common.show(y, 16) if isinstance(y, bytes) else y for y in op[:3]), '' if st == 'K' else '!'))
                where = 'after ' + '; '.join(brief[-12:])
                low = op[1].lower() if len(op) > 1 and isinstance(op[1], bytes) else None
                c.count('op_' + op[0].replace('writeb', 'write'))

                def bad(key, msg):
                    c.violation(key, '%s (%s)' % (msg, where), history=brief[-300:])
                fail = op[0] == 'move' and low not in m.f
                if st == 'X' or (st == 'E') != fail:
                    if fail:
                        return bad('move-missing', 'moving a file that does not exist was not reported')
                    return bad('error:' + op[0], 'operation failed: %s' % common.show(v[:1]))
                if op[0] in ('write', 'writeb'):
                    m.f[low] = (op[2], m.f[low][1] if low in m.f else w, w)
                    c.count('rewrites_at_another_time', m.f[low][1] != w)
                elif op[0] == 'rm':
                    m.f.pop(low, None)
                elif op[0] == 'move':
                    if not fail:
                        to = op[2].lower()
                        c.count('moves_onto_itself' if to == low else 'moves_onto_existing' if to in m.f else 'moves_to_new_name')
                        x = m.f.pop(low)
                        m.f[to] = x
                    else:
                        c.count('moves_of_missing')
                elif op[0] == 'loaddata':
                    for nm, body in op[3]:
                        m.f[nm.lower()] = (body, w, (op[4], op[4]))
                elif op[0] == 'read':
                    if (not v) != (low not in m.f):
                        return bad('existence:read', 'a file that %s was %s' % ('exists' if low in m.f else 'does not exist', 'read' if v else 'not found'))
                    if v:
                        if v[1] != m.f[low][0] or v[2] != b'1':
                            return bad('content', 'reading gave %s instead of %s' % (common.show(v[1], 60), common.show(m.f[low][0], 60)))
                        bad_ = m.same((v[0], v[3], v[4]), low)
                        if bad_:
                            return bad('read-info', 'reading reported ' + bad_)
                elif op[0] == 'info':
                    if (not v) != (low not in m.f):
                        return bad('existence:info', 'a file that %s was %s' % ('exists' if low in m.f else 'does not exist', 'reported' if v else 'not found'))
                    if v:
                        if int(v[1]) != len(m.f[low][0]):
                            return bad('info-size', 'the size is reported as %s instead of %d' % (v[1].decode(), len(m.f[low][0])))
                        bad_ = m.same((v[0], v[2], v[3]), low)
                        if bad_:
                            return bad('info', 'the file information has ' + bad_)
                elif op[0] == 'list':
                    l = vfs.files_of(v)
                    if sorted(x[0] for x in l) != sorted(m.f):
                        return bad('list-names', 'the listing has %s instead of %s' % (common.show(sorted(x[0] for x in l), 120), common.show(sorted(m.f), 120)))
                    for x in l:
                        if int(x[1]) != len(m.f[x[0]][0]):
                            return bad('list-size', 'the listing has the size %s instead of %d for %s' % (x[1].decode(), len(m.f[x[0]][0]), common.show(x[0], 60)))
                        bad_ = m.same((x[0], x[2], x[3]), x[0])
                        if bad_:
                            return bad('list-info', 'the listing has %s for %s' % (bad_, common.show(x[0], 60)))
                elif op[0] == 'stats':
                    want = (len(m.f), sum(len(k) + len(x[0]) for k, x in m.f.items()))
                    got = (int(v[0]), int(v[1]))
                    if got != want:
                        return bad('stats', 'statistics are %d files of %d bytes instead of %d files of %d bytes' % (got + want))
                c.note_max('files', len(m.f))
            c.count('histories')
            for op in seq:
                if op[0] in ('save', 'loaddata'):
                    os.path.exists(op[1]) and os.unlink(op[1])
        pure.run(c, exe, calls, judge, limit=60)
        lk = []
        for i in range(150):
            u = names(rng)
            seq = ops(rng, u, 12, tmp, 'l%d' % i)
            lk.append(['vfs'] + [a for o in seq for a in o[:3]])
        pure.leaks(c, exe, lk)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.require('histories', 1500)
    for k in ('op_write', 'op_rm', 'op_read', 'op_info', 'op_list', 'op_stats', 'moves_of_missing', 'moves_onto_existing', 'moves_to_new_name'):
        c.require(k, 800)
    c.require('moves_onto_itself', 300)
    c.require('op_loaddata', 150)
    c.require('rewrites_at_another_time', 800)
