"""C24: hostile and truncated archives."""
import os, random, shutil, tempfile
from vlib import build, pure, common, vfs, blobs

TECHNIQUE = 'runtime monitoring: truncated, altered and made-up archives loaded by the library built with ASan+UBSan, with a time limit, a bound on single allocations and leak accounting; what is loaded is compared with an independent reader'
NOTE = 'Archives that an independent strict reader accepts must load to the same files; of others only that loading ends safely, that files reported after success are complete, and that the file system stays consistent and usable.'
# the largest archive is well below this
ENV = {'ASAN_OPTIONS': 'abort_on_error=0:exitcode=97:detect_leaks=0:max_allocation_size_mb=192:handle_abort=1:print_legend=0'}


def base(rng, n, small=False):
    data, ents = b'', []
    for _ in range(n):
        nm, b = vfs.name(rng), vfs.content(rng)
        if small:
            nm, b = nm[:rng.choice([5, 50, 110])], b[:rng.choice([0, 10, 512, 600])]
        if len(nm) > 100:
            data += vfs.entry(b'././@LongLink', nm, typ=b'L')
        data += vfs.entry(nm[:100], b, 1_000_000_000)
        ents.append((nm, b))
        if rng.random() < 0.2:
            data += vfs.entry(b'dir/', b'', typ=b'5')
    return data + vfs.END, ents


NUMS = [b'77777777777', b'777777777777', b'-0000000001', b'-7777777777\0', b'\x80' + b'\0' * 10 + b'\x05', b'\xff' * 12, b'            ', b'\0' * 12, b'zzzzzzzzzzz', b'0x000000010', b'00000000009', b'+0000000010', b'37777777777\0', b'17777777777 ', b'20000000000\0', b'00000001 000', b'00000000001', b'00000000777', b'00000001000', b'00000001001', b'00000002000', b'00000100000', b'10000000000', b' 1000       ', b'0000000000a', b'99999999999']


def hostile(rng):
    """One made-up archive."""
    out = b''
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.random()
        nm = vfs.name(rng)
        b = vfs.content(rng)[:2000]
        kw = {}
        if k < 0.35:
            at, w = rng.choice([(124, 12), (124, 12), (136, 12), (100, 8), (148, 8)])
            kw['fields'] = {at: rng.choice(NUMS)[:w].ljust(w, rng.choice([b'\0', b' ', b'0']))}
        elif k < 0.45:
            kw['fields'] = {257: rng.choice([b'ustar  \0', b'ustar\0  ', b'ustar\x0000', b'USTAR\x0000', b'\0' * 8, b'ustarx00', b'ustar'])}
        elif k < 0.55:
            kw['prefix'] = rng.choice([b'p' * 155, b'/', b'..', rng.randbytes(rng.randrange(156)), vfs.name(rng)[:155]])
        elif k < 0.65:
            kw['fields'] = {rng.randrange(500): rng.randbytes(rng.choice([1, 4, 12]))}
        typ = bytes([rng.choice([48, 48, 48, 76, 76, 76, 53, 0, 55, 120, 103, 75, 49, 50, rng.randrange(256)])])
        e = vfs.entry(nm[:100], b, rng.randrange(1 << 33), typ, **kw)
        if rng.random() < 0.15:
            e = e[:512] + e[512:][:rng.randrange(len(e))]
        if rng.random() < 0.05:
            i = rng.randrange(512)
            e = e[:i] + bytes([e[i] ^ (1 << rng.randrange(8))]) + e[i + 1:]
        out += e
    return out + rng.choice([vfs.END, vfs.END, b'', b'\0' * 512, b'\0' * 100, b'junk' * 300, rng.randbytes(700)])


def mutate(rng, s):
    b = bytearray(s)
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.randrange(7)
        i = rng.randrange(len(b)) if b else 0
        if k <= 2 and b:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 3 and b:
            b[i:i + 8] = rng.randbytes(min(8, len(b) - i))
        elif k == 4:
            del b[i:i + rng.choice([1, 100, 512, 1024])]
        elif k == 5:
            b[i:i] = rng.choice([b'\0' * 512, rng.randbytes(rng.choice([1, 100, 512])), bytes(b[:512])])
        else:
            b = b[:i]
    return bytes(b)


def expect(data, gz):
    """Files of an archive that any reader must accept, or None."""
    try:
        if gz:
            data = vfs.gunzip(data)
        ents = vfs.parse(data)
    except Exception:
        return None
    out = {}
    for nm, t, b, _ in ents:
        if t in (b'0', b'\0', b'7'):
            if not nm:
                return None
            out[nm.lower()] = b
        elif t not in (b'1', b'2', b'3', b'4', b'5', b'6', b'g'):
            return None
        elif b and t != b'g':
            return None
    return out


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a byte string that was loaded as an archive, distinct by content'
    rng = random.Random('%s/h' % c.seed)
    tmp = tempfile.mkdtemp(prefix='lambda-hostile-')
    try:
        inputs = []

        def add(data, gz, what, prefix_of=None):
            inputs.append((data, gz, what, prefix_of))
        # every length of small archives
        for i in range(c.scale(3, 30)):
            d, ents = base(rng, rng.choice([1, 2, 3]), True)
            step = 1 if i == 0 or c.thorough else 7
            for n in range(0, len(d), step):
                add(d[:n], False, 'a tar cut at %d of %d' % (n, len(d)), ents)
            for n in (-2, -1, 0, 1, 2, 511):
                for blk in range(0, len(d), 512):
                    add(d[:max(0, blk + n)], False, 'a tar cut at %d of %d' % (blk + n, len(d)), ents)
        for i in range(c.scale(6, 60)):
            d, ents = base(rng, rng.choice([1, 2, 4]), i % 2 == 0)
            z = vfs.gz(d, rng.choice([0, 1, 6, 9]))
            for n in range(0, len(z)) if len(z) < 1500 else sorted(rng.sample(range(len(z)), 700)):
                add(z[:n], True, 'a tar.gz cut at %d of %d' % (n, len(z)), ents)
            for n in range(0, len(d), 512 if len(d) < 50000 else 5120):
                add(vfs.gz(d[:n + rng.choice([0, 0, 1, 100, 511])]), True, 'a tar cut at about %d in a complete gzip' % n, ents)
        # headers with every value of the type and odd numbers
        for t in range(256):
            b = b'x' * rng.choice([0, 5, 512, 700])
            for gz in (False, True):
                d = vfs.entry(b'before', b'1') + vfs.entry(b'it', b, typ=bytes([t])) + vfs.entry(b'after', b'2') + vfs.END
                add(vfs.gz(d) if gz else d, gz, 'an entry of type %d' % t)
        for v in NUMS:
            for at, w in ((124, 12), (136, 12), (148, 8), (100, 8), (108, 8)):
                for typ in (b'0', b'L', b'5', b'\0', b'g', b'S'):
                    h = vfs.header(b'it', 5, 0, typ, fields={at: v[:w]})
                    if at == 148:
                        h = h[:148] + v[:8] + h[156:]
                    d = vfs.entry(b'before', b'1') + h + b'hello'.ljust(512, b'\0') + vfs.entry(b'after', b'2') + vfs.END
                    gz = rng.random() < 0.5
                    add(vfs.gz(d) if gz else d, gz, 'a number %r at %d of an entry of type %r' % (v, at, typ))
        # entries that claim more than there is, and headers that fail their checksum
        for v in (b'00000001001', b'00000002001', b'00004000000', b'17777777777', b'20000000000', b'37777777777', b'77777777777', b'100000000000', b'100000000001', b'200000000000', b'377777777777', b'400000000000', b'777777777777'):
            for typ in (b'0', b'\0', b'7', b'L'):
                for gz in (False, True):
                    d = vfs.entry(b'before', b'1') + vfs.header(b'it', 5, 0, typ, fields={124: v.ljust(12, b'\0')}) + b'hello'.ljust(512, b'\0')
                    add(vfs.gz(d) if gz else d, gz, 'an entry of type %r claiming %s bytes' % (typ, v.decode()), 'refuse')
        for i in range(c.scale(600, 8000)):
            h = bytearray(vfs.header(b'it', 5, rng.randrange(1 << 30), b'0'))
            k = rng.randrange(6)
            if k == 0:
                h[148:156] = rng.choice([b'0000000\0', b'000000\0 ', b'0      \0', b'0000001\0', b'7777777\0', b'777777\0 ', b'0000000 '])
            elif k == 1:
                h[rng.choice(list(range(148)) + list(range(156, 257)))] ^= 1 << rng.randrange(8)
            elif k == 2:
                h[rng.randrange(263, 512)] ^= 1 << rng.randrange(8)
            elif k == 3:
                h[rng.randrange(2)] = ord('a') + rng.randrange(7)
            elif k == 4:
                h[rng.randrange(265, 512)] = 200
            else:
                h[148:156] = b'%06o\0 ' % ((sum(h[:148]) + 256 + sum(h[156:]) + rng.choice([-1, 1, 256, -256, 128, 512, 8])) % 0o777777)
            if not h[0] or sum(h[:148]) + 256 + sum(h[156:]) == int(bytes(h[148:156]).split(b'\0')[0].strip() or b'0', 8):
                continue
            d = vfs.entry(b'before', b'1') + bytes(h) + b'hello'.ljust(512, b'\0') + vfs.entry(b'after', b'2') + vfs.END
            gz = rng.random() < 0.4
            add(vfs.gz(d) if gz else d, gz, 'an entry that fails its checksum', 'refuse')
        for seq in ('LL', 'L', 'L5', 'L50', 'L0L0', 'LLL0', 'L2', 'Lx0', 'Lg0', 'L0', 'LK0'):
            for ln in (0, 1, 99, 100, 511, 512, 513, 5000, 70000):
                d = b''.join(vfs.entry(b'././@LongLink' if t in 'LK' else b'n%d' % i, b'l' * ln if t in 'LK' else b'c' * 10, typ=t.encode()) for i, t in enumerate(seq)) + vfs.END
                gz = rng.random() < 0.5
                add(vfs.gz(d) if gz else d, gz, 'entries of types %s, long name of %d' % (seq, ln))
        for i in range(c.scale(7000, 120000)):
            gz = rng.random() < 0.45
            k = rng.random()
            if k < 0.5:
                d = hostile(rng)
                if gz:
                    d = vfs.gz(d, rng.choice([0, 6]))
                what = 'a made-up archive'
            elif k < 0.75:
                d, _ = base(rng, rng.choice([1, 2, 4]), True)
                if rng.random() < 0.6:
                    d = mutate(rng, d)
                    if rng.random() < 0.8:
                        # with right checksums where headers were
                        for at in range(0, len(d) - 511, 512):
                            if d[at + 257:at + 262] == b'ustar':
                                d = d[:at] + vfs.refix(d[at:at + 512]) + d[at + 512:]
                    if gz:
                        d = vfs.gz(d)
                elif gz:
                    d = mutate(rng, vfs.gz(d))
                what = 'an altered archive'
            elif k < 0.85:
                d, _ = base(rng, 2, True)
                z = vfs.gz(d) if gz else d
                d = z + rng.choice([b'\0', b'x' * 600, z, rng.randbytes(300), b'\x1f\x8b\x08'])
                what = 'an archive with data after it'
            elif k < 0.9:
                d = rng.randbytes(rng.choice([0, 1, 10, 511, 512, 513, 2000]))
                what = 'noise'
            else:
                d, _ = base(rng, rng.choice([1, 3]), True)
                what = 'a good archive'
                if gz:
                    d = vfs.gz(d)
            add(d, gz, what)
        # little data claiming or unpacking to much
        for mb in (1, 20):
            add(vfs.gz(b'\0' * (mb << 20)), True, 'zeros')
            add(vfs.gz(vfs.entry(b'z', b'\0' * (mb << 20)) + vfs.END), True, 'a large file')
        calls = []
        for i, (d, gz, what, pre) in enumerate(inputs):
            p = '%s/h%d%s' % (tmp, i, '.tar.gz' if gz else '.tar')
            names = [b'before', b'after', b'it']
            calls.append((['vfs', 'write', 'already', 'here', 'loaddata', p, d, 'list', 'stats', 'read', 'already', 'write', 'new', 'one', 'read', 'new', 'stats', 'readall'], (p, d, gz, what, pre)))

        def judge(args, r, x):
            p, d, gz, what, pre = x
            os.path.exists(p) and os.unlink(p)
            if r[0] != b'K':
                c.violation('script', 'a script could not be run: %s' % common.show(r[1:2]))
                return
            res = [pure.step(s) for s in r[1:]]
            desc = '%s (%s, %d bytes)' % (what, 'tar.gz' if gz else 'tar', len(d))
            st = res[1][0]
            c.case(common.hashlib.sha1(d).hexdigest(), None)
            c.count('loads')
            c.count('loaded' if st == 'K' else 'refused')
            if st == 'X' or any(s[0] != 'K' for i, s in enumerate(res) if i != 1):
                c.violation('after', 'an operation failed after loading ' + desc)
                return
            l = {e[0]: int(e[1]) for e in vfs.files_of(res[2][1])}
            files = dict((e[0], e[1]) for e in vfs.files_of(res[8][1], 2))
            if (int(res[3][1][0]), int(res[3][1][1])) != (len(l), sum(len(k) + v for k, v in l.items())):
                c.violation('stats', 'statistics %s do not match the files after loading %s' % (common.show(res[3][1]), desc))
            if res[6][1][1] != b'one' or (not res[4][1] or res[4][1][1] != b'here') and b'already' not in d.lower():
                c.violation('state', 'other files changed by loading ' + desc)
            if pre == 'refuse':
                c.count('must_be_refused')
                if st == 'K':
                    c.violation('unreported', '%s was loaded without an error' % desc, archive=d[:20000])
                elif any(k not in (b'before', b'already', b'new') for k in files):
                    c.violation('invalid-entry', '%s: the entry or what follows it was loaded: %s' % (desc, common.show(sorted(files))), archive=d[:20000])
                return
            want = expect(d, gz)
            got = {k: v for k, v in files.items() if k not in (b'new', b'already')}
            if want is not None and b'already' not in want and b'new' not in want:
                c.count('well_formed')
                if st != 'K':
                    c.violation('refused', '%s is well-formed but was refused: %s' % (desc, common.show(res[1][1])), archive=d[:20000])
                elif got != want:
                    c.violation('wrong', '%s was loaded as %s instead of %s' % (desc, common.show([(k, len(v)) for k, v in got.items()], 150), common.show([(k, len(v)) for k, v in want.items()], 150)), archive=d[:20000])
            elif pre is not None:
                # a cut archive: what was loaded is a part of it
                lows = [(n.lower(), b) for n, b in pre]
                ok = any(got == dict(lows[:k]) for k in range(len(lows) + 1))
                if not ok:
                    c.violation('partial', '%s gave files that are not a first part of it: %s' % (desc, common.show([(k, len(v)) for k, v in got.items()], 150)), archive=d[:20000])
                c.count('cut_archives')
        pure.run(c, exe, calls, judge, limit=20, env=ENV)
        lk = [x[0][:7] for x in calls if len(x[0][6]) < 20000]
        rng.shuffle(lk)
        pure.leaks(c, exe, lk[:c.scale(1200, 8000)], env=ENV)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.require('loads', 10000)
    c.require('refused', 5000)
    c.require('well_formed', 500)
    c.require('cut_archives', 2000)
    c.require('must_be_refused', 500)
    c.require('leak_checked_calls', 800)
