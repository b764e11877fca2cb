"""C28: corrupt compressed data."""
import gzip, random, zlib
from vlib import build, pure, common, codecs, blobs

TECHNIQUE = 'runtime monitoring: truncated, bit-flipped, spliced and arbitrary inputs through the decompressors built with ASan+UBSan, each outcome compared with an independent decoder; time limit per call and allocation accounting'
NOTE = 'Data after a complete gzip or zlib stream is ignored by the one-shot function and not judged. Empty input is not judged.'


def ref_z(s):
    """('K', data) | ('E', None) | ('?', data) with data after the stream"""
    d = zlib.decompressobj(47)
    try:
        out = d.decompress(s) + d.flush()
    except zlib.error:
        return 'E', None
    if not d.eof:
        return 'E', None
    return ('?' if d.unused_data else 'K'), out


def damaged(s):
    """Wrong and not just incomplete."""
    try:
        zlib.decompressobj(47).decompress(s)
        return False
    except zlib.error:
        return True


def ref_b(s):
    out, why = codecs.brotli_decode(s)
    return ('K', out) if why is None else ('E', None)


def mutations(rng, s, n):
    out = []
    for _ in range(n):
        b = bytearray(s)
        k = rng.randrange(8)
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            i = rng.randrange(len(b)) if b else 0
            if k <= 2 and b:
                b[i] ^= 1 << rng.randrange(8)
            elif k == 3 and b:
                b[i] = rng.randrange(256)
            elif k == 4:
                del b[i:i + rng.choice([1, 2, 10])]
            elif k == 5:
                b[i:i] = rng.randbytes(rng.choice([1, 2, 10]))
            elif k == 6:
                b = b[:i]
            elif b:
                # the trailer
                j = len(b) - 1 - rng.randrange(min(8, len(b)))
                b[j] ^= 1 << rng.randrange(8)
        out.append(bytes(b))
    return out


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'an input that was given to a decompressor, distinct by content'
    rng = random.Random('%s/d' % c.seed)
    CH = blobs.CH
    src = []
    for i in range(c.scale(260, 2500)):
        d = blobs.blob(rng, rng.choice([1, 5, 50, 300, 2000, 30000]) if i % 25 else rng.choice([CH, 2 * CH, 3 * CH + 5]))
        lv = rng.randrange(10)
        src.append(('zd', gzip.compress(d, lv), d))
        co = zlib.compressobj(lv, zlib.DEFLATED, rng.choice([9, 15]))
        src.append(('zd', co.compress(d) + co.flush(), d))
        src.append(('bd', codecs.brotli_encode(d, rng.randrange(0, 8)), d))
    inputs = []
    for n, (op, s, d) in enumerate(src):
        if len(s) < 90:
            for i in range(len(s)):
                inputs.append((op, s[:i], 'truncated to %d of %d' % (i, len(s))))
                for bit in range(8) if n < 60 or c.thorough else (rng.randrange(8),):
                    inputs.append((op, s[:i] + bytes([s[i] ^ (1 << bit)]) + s[i + 1:], 'bit %d of byte %d of %d flipped' % (bit, i, len(s))))
        else:
            for i in [0, 1, 2, 9, 10, 11, len(s) // 2, len(s) - 9, len(s) - 8, len(s) - 5, len(s) - 4, len(s) - 1] + [rng.randrange(len(s)) for _ in range(4)] + ([CH, CH - 1] if len(s) > CH else []):
                inputs.append((op, s[:i], 'truncated to %d of %d' % (i, len(s))))
        for m in mutations(rng, s, 12):
            inputs.append((op, m, 'mutated'))
        o = rng.choice(src)[1]
        inputs.append((op, s[:rng.randrange(len(s))] + o[rng.randrange(len(o)):], 'spliced'))
        inputs.append((op, d, 'plain data'))
        inputs.append(('bd' if op == 'zd' else 'zd', s, 'other format'))
        if op == 'bd':
            inputs.append((op, s + rng.choice([b'\0', b'x', rng.randbytes(100), b'\x03', s]), 'data after the stream'))
        else:
            t = bytearray(s)
            if s[:2] == b'\x1f\x8b':
                t[-1] ^= 0x80
            inputs.append((op, bytes(t), 'wrong length'))
            inputs.append((op, s[2:], 'no header'))
            inputs.append((op, s[:-4] + b'\0\0\0\0', 'zero checksum'))
    # unused data that begins at a border of the chunks in which the input is given to the decoder
    for n in (CH, 2 * CH):
        for i in range(c.scale(3, 10)):
            k = n - 40
            while k < n:
                s = codecs.brotli_encode(rng.randbytes(k), rng.randrange(0, 5))
                if len(s) >= n:
                    break
                k += n - len(s) if n - len(s) < 8 else 1
            if len(s) == n:
                c.count('border_streams')
                inputs.append(('bd', s, 'ends at a border'))
                for more in (b'x', b'\0' * 100, s[:1000], s):
                    inputs.append(('bd', s + more, 'data after the stream at a border'))
    # data with a preset dictionary cannot be decoded
    co = zlib.compressobj(6, zlib.DEFLATED, 15, zdict=b'hello world')
    inputs.append(('zd', co.compress(b'hello world hello') + co.flush(), 'preset dictionary'))
    for _ in range(c.scale(4000, 60000)):
        b = rng.choice([b'', b'', b'\x1f\x8b\x08', b'\x78\x9c', b'\x78\x01', b'\x1f\x8b\x08\0\0\0\0\0\0\3', b'\x0b', b'\x8b', b'\x1b']) + rng.randbytes(rng.choice([1, 2, 3, 5, 10, 50, 300]))
        inputs.append((rng.choice(['zd', 'bd']), b, 'random'))
    for b in range(256):
        inputs += [('zd', bytes([b]), 'one byte'), ('bd', bytes([b]), 'one byte')]
    inputs = [x for x in inputs if x[1]]
    rng.shuffle(inputs)

    def judge(args, r, x):
        op, s, what = x
        ref, val = (ref_z if op == 'zd' else ref_b)(s)
        c.case(op.encode() + s[:4000] + b'%d' % len(s), '%s, %s: %s' % (op, what, ref) if rng.random() < 0.0005 else None)
        c.count('inputs_' + {'K': 'valid', 'E': 'corrupt', '?': 'followed_by_data'}[ref])
        if ref == 'E' and r[0] == b'K':
            c.violation('accepted:' + op, 'corrupt input (%s, %d bytes) was returned as %d bytes of data' % (what, len(s), len(r[1])), input=s)
        elif ref == 'K' and (r[0] != b'K' or r[1] != val):
            c.violation('valid:' + op, 'input (%s, %d bytes) is valid but gave %s' % (what, len(s), common.show(r)), input=s)
        elif ref == '?' and r[0] == b'K' and r[1] != val:
            c.violation('wrong:' + op, 'input (%s, %d bytes) gave %d wrong bytes' % (what, len(s), len(r[1])), input=s)
    pure.run(c, exe, [([x[0], x[1]], x) for x in inputs], judge)

    # the streaming decompressor: never finishes a stream that is not valid
    strm = []
    for op, s, what in inputs:
        if op == 'zd' and rng.random() < 0.5 or len(s) > 50000:
            cutn = rng.choice([len(s), 1000, 7, 1]) if len(s) < 300 else len(s) // rng.randrange(1, 9) + 1
            parts = [s[i:i + cutn] for i in range(0, len(s), cutn)]
            ops = []
            for p in parts:
                ops += ['c', p]
            strm.append((['gzd'] + ops, (s, what)))

    def js(args, r, x):
        s, what = x
        ref, val = ref_z(s)
        out, failed, done = b'', False, False
        for y in r[1:]:
            st, v = pure.step(y)
            if done:
                break
            if st != 'K':
                failed = True
                break
            out += v[0]
            done = v[1] == b'1'
        c.count('corrupt_streams' if ref == 'E' else 'valid_streams')
        c.case(b's' + s[:4000])
        if ref == 'E' and done:
            c.violation('stream-accepted', 'corrupt input (%s, %d bytes) in %d chunks was completed as %d bytes of data' % (what, len(s), (len(args) - 1) // 2, len(out)), input=s)
        elif ref == 'E' and not failed and damaged(s):
            c.violation('stream-unreported', 'corrupt input (%s, %d bytes) in %d chunks was taken without an error' % (what, len(s), (len(args) - 1) // 2), input=s)
        elif ref == 'K' and (failed or not done or out != val):
            c.violation('stream-valid', 'valid input (%s, %d bytes) in %d chunks: failed %s done %s' % (what, len(s), (len(args) - 1) // 2, failed, done), input=s)
        elif ref == '?' and done and out != val:
            c.violation('stream-wrong', 'input (%s, %d bytes) gave wrong data' % (what, len(s)), input=s)
    pure.run(c, exe, strm, js)

    # small inputs with much output
    bombs = []
    for n in (10_000_000, 60_000_000):
        z = zlib.compress(b'\0' * n, 9)
        bombs += [['zd', z], ['zd', z[:-1]], ['zd', z[:-4] + b'abcd'], ['zd', z[:len(z) // 2]]]
        if n == 10_000_000:
            b = codecs.brotli_encode(b'\0' * n)
            bombs += [['bd', b], ['bd', b[:-1]]]

    def jb(args, r, n):
        c.count('bombs')
    pure.run(c, exe, [(b, None) for b in bombs], jb, workers=2, limit=60)
    pure.leaks(c, exe, [[x[0], x[1]] for x in rng.sample(inputs, min(len(inputs), c.scale(5000, 40000))) if len(x[1]) < 5000] + [x[0] for x in strm[:800] if len(x[1][0]) < 1000])
    c.require('inputs_corrupt', 10000)
    c.require('inputs_valid', 300)
    c.require('corrupt_streams', 2000)
    c.require('bombs', 8)
    c.require('border_streams', 2)
    c.require('leak_checked_calls', 3000)
