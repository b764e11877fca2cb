"""C27: streaming compression and decompression."""
import random, zlib
from vlib import build, pure, common, codecs, blobs

TECHNIQUE = 'runtime monitoring: generated data cut into generated chunk sequences through the streaming compressor and decompressor built with ASan+UBSan, with moves, resets and abandoned streams, compared with independent codecs; allocation accounting'
NOTE = 'The streaming decompressor is given single gzip members or zlib streams, with nothing after their end.'


def cuts(rng, d, empties=True):
    k = rng.randrange(7)
    if k == 0:
        parts = [d]
    elif k == 1 and len(d) <= 700:
        parts = [d[i:i + 1] for i in range(len(d))]
    elif k == 2:
        parts = [d[i:i + blobs.CH] for i in range(0, len(d), blobs.CH)]
    else:
        mean = rng.choice([1, 10, 100, 1000, 50000])
        if len(d) / mean > 120:
            mean = len(d) // 120 + 1
        parts, i = [], 0
        while i < len(d):
            n = rng.randrange(1, 2 * mean + 1)
            parts.append(d[i:i + n])
            i += n
    if empties and rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 5])):
            parts.insert(rng.randrange(len(parts) + 1), b'')
    return parts


def mover(rng):
    return [rng.choice(['move', 'massign', 'massignused'])] if rng.random() < 0.08 else []


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'data that went through a stream in one sequence of chunks'
    rng = random.Random('%s/d' % c.seed)
    CH = blobs.CH
    # compressor
    calls = []
    todo = c.scale(3500, 40000)
    noise = rng.randbytes(4 * CH)
    fixed = [b'', b'a', b'\0' * CH, noise[:CH], noise[:2 * CH]] + [noise[:CH - k] for k in range(0, 60, 3)]
    for i in range(todo):
        d = fixed[i % len(fixed)] if i < 3 * len(fixed) else blobs.blob(rng, blobs.size(rng)) if rng.random() > 0.01 else b''
        q = rng.randrange(10)
        ops, want = [], []
        streams = rng.choice([1, 1, 1, 2, 3])
        expect = []
        for s in range(streams):
            abandon = s < streams - 1 and rng.random() < 0.4
            seg = d if s == 0 else blobs.blob(rng, rng.randrange(1, 3000))
            parts = cuts(rng, seg)
            if abandon:
                parts = parts[:rng.randrange(len(parts) + 1)]
            finish = rng.choice(['e', 'f', 'f-last'])
            for j, p in enumerate(parts):
                ops += mover(rng)
                if not abandon and finish == 'f-last' and j == len(parts) - 1:
                    ops += ['f', p]
                else:
                    ops += [rng.choice(['c', 'c', 'n']), p]
            ops += mover(rng)
            if abandon:
                expect.append((None, None))
            else:
                expect.append((b''.join(parts), finish))
                if finish == 'e':
                    ops += ['e']
                elif finish == 'f' or not parts:
                    ops += ['f', b'']
                if rng.random() < 0.2:
                    ops += [('c'), b'late'] if rng.random() < 0.5 else ['e']
            ops += ['r']
        calls.append((['gzs', q] + ops, expect))

    def jc(args, r, expect):
        d0 = expect[0][0] or b''
        c.case('%d %s' % (args[1], common.hashlib.sha1(pure.enc(args)).hexdigest()))
        if r[0] != b'K':
            c.violation('stream-compressor', 'constructor or stream failed: %s' % common.show(r[1:2]))
            return
        # walk operations with their results
        i, res, si = 2, r[1:], 0
        k = 0
        out, ended, given = b'', False, b''
        trace = []
        while i < len(args):
            op = args[i]
            has = op in ('c', 'n', 'f')
            arg = args[i + 1] if has else None
            i += 2 if has else 1
            st, val = pure.step(res[k])
            k += 1
            trace.append('%s%s%s' % (op, '' if arg is None else len(arg), '' if st == 'K' else '!'))
            c.count('stream_ops')
            if op in ('move', 'massign', 'massignused'):
                continue
            if op == 'r':
                if st != 'K':
                    c.violation('stream-compressor:reset', 'reset failed')
                want, fin = expect[si]
                if want is not None:
                    if not ended:
                        c.violation('stream-compressor:end', 'the stream could not be finished (%s): %s' % (' '.join(trace[-30:]), err))
                        return
                    dec, why = codecs.zdecode(out, 31)
                    if dec != want:
                        c.violation('stream-compressor:data', 'chunks (%s) do not decode to the data: %s' % (' '.join(trace[-30:]), why or 'different data'), data=want)
                        return
                    c.count('streams_compressed')
                    c.count('bytes_compressed', len(want))
                else:
                    c.count('streams_abandoned')
                si += 1
                out, ended, given, trace = b'', False, b'', []
                continue
            if ended:
                c.count('late_operations')
                if st == 'K':
                    c.violation('stream-compressor:late', 'a stream that had been finished took more (%s)' % ' '.join(trace[-30:]))
                continue
            if st != 'K':
                err = common.show(val[0])
                c.violation('stream-compressor:error', 'chunks (%s) fail: %s' % (' '.join(trace[-30:]), err), ops=repr(trace)[:2000])
                return
            out += val[0]
            if op in ('e', 'f'):
                ended = True
    pure.run(c, exe, calls, jc)

    # decompressor
    dec = []
    srcs = []
    for i in range(c.scale(3500, 40000)):
        d = blobs.blob(rng, blobs.size(rng)) if i > 40 else [b'', b'a', b'\0' * CH, noise[:CH], b'\0' * (2 * CH), b'a' * (CH + 1), noise[:CH] + b'\0' * CH][i % 7]
        co = zlib.compressobj(rng.randrange(10), zlib.DEFLATED, rng.choice([31, 31, 31, 15, 9]), rng.choice([1, 8, 9]))
        s = co.compress(d) + co.flush()
        srcs.append((d, s))
    # a chunk that ends exactly when the output buffer is full
    for lv in (0, 1, 6, 9):
        def comp(x):
            co = zlib.compressobj(lv, zlib.DEFLATED, 31)
            return co.compress(x) + co.flush()
        for cut in (1000, 5000, CH, CH + 1000):
            b = blobs.boundary(rng, comp, lambda s: len(zlib.decompressobj(47).decompress(s)), cut=cut, tail=cut + 3000)
            if b:
                c.count('boundary_streams')
                srcs.append((b[0], b[1], [b[1][:cut], b[1][cut:]]))
    for x in srcs:
        d, s = x[0], x[1]
        ops, expect = [], []
        for n in range(rng.choice([1, 1, 2])):
            parts = x[2] if len(x) > 2 else cuts(rng, s)
            part_abandon = len(x) == 2 and rng.random() < 0.15
            if part_abandon:
                parts = parts[:rng.randrange(len(parts) + 1)]
                if b''.join(parts) == s:
                    parts = [s[:-1]]
            # nothing is given after the end of the stream
            while not part_abandon and parts and parts[-1] == b'':
                parts.pop()
            for p in parts:
                ops += mover(rng) + ['c', p]
            ops += ['d']
            ops += mover(rng)
            expect.append((d, s, len(parts), part_abandon))
            if rng.random() < 0.2 and not part_abandon:
                ops += ['c', b'late']
            ops += ['r']
        dec.append((['gzd'] + ops, expect))

    def jd(args, r, expect):
        c.case('dec %s' % common.hashlib.sha1(pure.enc(args)).hexdigest())
        if r[0] != b'K':
            c.violation('stream-decompressor', 'constructor or stream failed: %s' % common.show(r[1:2]))
            return
        i, res, si, k = 1, r[1:], 0, 0
        out, given, done = b'', 0, False
        trace = []
        while i < len(args):
            op = args[i]
            arg = args[i + 1] if op == 'c' else None
            i += 2 if op == 'c' else 1
            st, val = pure.step(res[k])
            k += 1
            trace.append('%s%s%s' % (op, '' if arg is None else len(arg), '' if st == 'K' else '!'))
            d, s, n, abandoned = expect[si]
            c.count('stream_ops')
            if op == 'c':
                if done:
                    c.count('late_operations')
                    if st == 'K':
                        c.violation('stream-decompressor:late', 'a stream that was complete took more data (%s)' % ' '.join(trace[-30:]))
                    continue
                if st != 'K':
                    c.violation('stream-decompressor:error', 'chunks of a valid stream (%s) fail: %s' % (' '.join(trace[-30:]), common.show(val[0])), stream=s, chunks=repr(trace)[:2000])
                    return
                out += val[0]
                given += len(arg)
                done = val[1] == b'1'
                if done != (given == len(s)):
                    c.violation('stream-decompressor:done', 'after %d of %d bytes of the stream isDone() is %s (%s)' % (given, len(s), done, ' '.join(trace[-30:])), stream=s)
                    return
                if not d.startswith(out):
                    c.violation('stream-decompressor:data', 'chunks (%s) give other data' % ' '.join(trace[-30:]), stream=s)
                    return
            elif op == 'd':
                if (val[0] == b'1') != (not abandoned):
                    c.violation('stream-decompressor:done', 'isDone() is %s after %s stream' % (val[0], 'an incomplete' if abandoned else 'a complete'), stream=s)
                    return
                if not abandoned and out != d:
                    c.violation('stream-decompressor:data', 'chunks (%s) give %d bytes instead of %d' % (' '.join(trace[-30:]), len(out), len(d)), stream=s)
                    return
            elif op == 'r':
                c.count('streams_abandoned' if abandoned else 'streams_decompressed')
                if st != 'K':
                    c.violation('stream-decompressor:reset', 'reset failed')
                si += 1
                out, given, done, trace = b'', 0, False, []
    pure.run(c, exe, dec, jd)

    # leaks: finished, abandoned, moved, failed
    small = [x[0] for x in calls + dec if len(pure.enc(x[0])) < 30000]
    lk = rng.sample(small, min(len(small), c.scale(1500, 15000)))
    for q in range(10):
        lk += [['gzs', q], ['gzs', q, 'c', b'abc'], ['gzs', q, 'e'], ['gzs', q, 'massign', 'massignused', 'c', b'x' * 1000], ['gzs', q, 'c', b'x', 'move', 'massignused', 'e', 'r']]
    lk += [['gzd'], ['gzd', 'c', b'garbage'], ['gzd', 'massign'], ['gzd', 'massignused'], ['gzd', 'c', zlib.compress(b'a')[:5], 'massign', 'massignused'], ['gzd', 'c', b'\x1f\x8b\x08', 'move', 'r', 'c', b'bad bad bad'], ['gzs', 10], ['gzs', 77, 'c', b'x']]
    pure.leaks(c, exe, lk)
    c.require('streams_compressed', 3000)
    c.require('streams_decompressed', 2500)
    c.require('streams_abandoned', 300)
    c.require('boundary_streams', 8)
    c.require('late_operations', 500)
    c.require('leak_checked_calls', 1000)
