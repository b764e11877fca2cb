"""C26: one-shot compression."""
import gzip, io, random, zlib
from vlib import build, pure, common, codecs, blobs

TECHNIQUE = 'runtime monitoring: generated data of all kinds and sizes through the one-shot compressors and decompressors built with ASan+UBSan, crossed with independent encoders and decoders in both directions, with allocation accounting'
NOTE = 'Empty data is only required to map to itself. Decoded data is a single gzip member, zlib stream or brotli stream; raw deflate output has no matching decompressor in the library and is checked with an independent decoder only.'

GZIP, DEFLATE, RAW = 26, 8, -15


def gz_made(rng, d, level):
    """A gzip member with optional header fields."""
    flg, extra = 0, b''
    if rng.random() < 0.3:
        e = rng.randbytes(rng.choice([0, 1, 20, 300, 65535]))
        flg |= 4
        extra += len(e).to_bytes(2, 'little') + e
    if rng.random() < 0.3:
        flg |= 8
        extra += bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 50]))) + b'\0'
    if rng.random() < 0.2:
        flg |= 16
        extra += bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 50]))) + b'\0'
    if rng.random() < 0.2:
        flg |= 1
    h = bytes([31, 139, 8, flg]) + rng.randbytes(4) + rng.choice([b'\0', b'\2', b'\4']) + rng.choice([b'\0', b'\3', b'\xff']) + extra
    if rng.random() < 0.2:
        h = bytes([h[0], h[1], h[2], h[3] | 2]) + h[4:]
        h += (zlib.crc32(h) & 0xffff).to_bytes(2, 'little')
    return h + deflate(rng, d, level, -15) + zlib.crc32(d).to_bytes(4, 'little') + (len(d) & 0xffffffff).to_bytes(4, 'little')


def deflate(rng, d, level, wbits):
    co = zlib.compressobj(level, zlib.DEFLATED, wbits, rng.choice([1, 8, 9]), rng.choice([0, 0, 1, 2, 3, 4]))
    out = b''
    i = 0
    while i < len(d):
        n = rng.choice([len(d), len(d), 1000, 70000])
        out += co.compress(d[i:i + n])
        i += n
        if rng.random() < 0.2:
            out += co.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
    return out + co.flush()


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'data that was compressed and decompressed, at one quality in one format'
    rng = random.Random('%s/d' % c.seed)
    CH = blobs.CH
    data = [b'\0', b'a', b'\x1f\x8b', b'\x78\x9c', b'\x8b\x1f\x00']
    for n in blobs.SIZES:
        data += [blobs.blob(rng, n), rng.randbytes(n), b'\0' * n]
    # stored output grows by a constant: look for outputs that end with the buffer
    for n in list(range(CH - 60, CH + 3)) + [CH - 60 + k * 3 + CH for k in range(20)]:
        data.append(n)
    while len(data) < c.scale(1500, 20000):
        data.append(blobs.blob(rng, blobs.size(rng)))
    if c.thorough:
        data += [blobs.blob(rng, rng.randrange(1 << 22, 1 << 24)) for _ in range(20)]
    # large, with repetitions nearby and further away than any window
    block = rng.randbytes(1 << 20)
    large = [block + block[:5000], bytes(rng.choices(b'abcde', k=(1 << 20) - 1)), bytes(rng.choices(b'abcdefg', k=3 << 20)), blobs.blob(rng, 5 << 20), block + b'\0' * (18 << 20) + block, bytes(rng.choices(b'ab', k=(1 << 20) + 1))]
    noise = rng.randbytes(3 * CH)
    data = [noise[:d] if isinstance(d, int) else d for d in data]
    calls = []
    for i, d in enumerate(data):
        qs = range(10) if len(d) < 3000 or i < 60 else rng.sample(range(10), 3)
        if len(d) > CH - 100 and len(d) < CH + 5 and i > 60:
            qs = (0, 1, 9)
        for q in qs:
            for h in ((GZIP, DEFLATE, RAW) if len(d) < 3000 else (rng.choice([GZIP, DEFLATE]),)):
                calls.append((['zc', q, h, d], (d, q, h)))
            if len(d) < 3000 or q % 3 == 0:
                calls.append((['bc', q, d], (d, q, 'br')))
    for d in large:
        for q in rng.sample(range(10), c.scale(2, 6)):
            h = rng.choice([GZIP, DEFLATE])
            calls.append((['zc', q, h, d], (d, q, h)))
            calls.append((['bc', q, d], (d, q, 'br')))
    rng.shuffle(calls)
    back = []

    def jc(args, r, x):
        d, q, h = x
        name = {GZIP: 'gzip', DEFLATE: 'deflate', RAW: 'raw', 'br': 'br'}[h]
        c.case('%s %d %s' % (name, q, common.hashlib.sha1(d).hexdigest()), '%s quality %d: %d bytes -> %d' % (name, q, len(d), len(r[1])) if rng.random() < 0.001 else None)
        if r[0] != b'K':
            c.violation('compress:' + name, '%s at quality %d of %d bytes failed: %s' % (name, q, len(d), common.show(r[1] if len(r) > 1 else b'')), data=d)
            return
        out, why = codecs.zdecode(r[1], -15) if h == RAW else codecs.decode({'br': 'br'}.get(name, name), r[1])
        if out != d:
            c.violation('compress:' + name, '%s at quality %d of %d bytes is not readable as the same data: %s' % (name, q, len(d), why or 'different data'), data=d)
        c.count('compressed_' + name)
        c.count('compressed_bytes', len(d))
        if h != RAW:
            with c.lock:
                back.append((['bd' if h == 'br' else 'zd', r[1]], (d, name + ' of the library, quality %d' % q, 'own')))
    pure.run(c, exe, calls, jc)

    # data produced elsewhere
    for i, d in enumerate(rng.sample(data, min(len(data), c.scale(900, 9000)))):
        lv = rng.randrange(0, 10)
        back.append((['zd', gz_made(rng, d, lv)], (d, 'gzip made elsewhere', 'gzip')))
        back.append((['zd', deflate(rng, d, lv, rng.choice([9, 10, 12, 15]))], (d, 'zlib made elsewhere', 'zlib')))
        if i % 3 == 0:
            back.append((['zd', gzip.compress(d, lv)], (d, 'gzip made by gzip', 'gzip')))
            back.append((['bd', codecs.brotli_encode(d, rng.randrange(0, 12 if len(d) < 20000 else 8), rng.choice([10, 16, 22, 24]))], (d, 'brotli made elsewhere', 'br')))
    # empty contents are data as well
    for e in (zlib.compress(b''), gzip.compress(b''), zlib.compress(b'', 0)):
        back.append((['zd', e], (b'', 'empty content', 'gzip')))
    back.append((['bd', codecs.brotli_encode(b'')], (b'', 'empty content', 'br')))
    # output buffer and input chunk run out at the same time
    for lv in (0, 1, 6):
        for wb in (31, 15):
            def comp(x):
                co = zlib.compressobj(lv, zlib.DEFLATED, wb)
                return co.compress(x) + co.flush()
            for cut in (CH, 2 * CH):
                b = blobs.boundary(rng, comp, lambda s: len(zlib.decompressobj(47).decompress(s)), cut=cut, tail=350000)
                if b:
                    c.count('boundary_streams')
                    back.append((['zd', b[1]], (b[0], 'stream with matching buffer boundaries', 'zlib')))
    for op in ('zd', 'bd'):
        back.append(([op, b''], (b'', 'empty', 'empty')))
    for q in (0, 5, 9):
        back += [(['zc', q, GZIP, b''], (b'', 'empty', 'empty')), (['zc', q, DEFLATE, b''], (b'', 'empty', 'empty')), (['bc', q, b''], (b'', 'empty', 'empty'))]

    def jd(args, r, x):
        d, what, kind = x
        c.case('back %s %s' % (what, common.hashlib.sha1(args[1] if isinstance(args[1], bytes) else b'').hexdigest()))
        if r[0] != b'K':
            c.violation('decompress:' + kind, '%s, %d bytes of %d, was refused: %s' % (what, len(args[-1]), len(d), common.show(r[1] if len(r) > 1 else b'')), data=args[-1])
        elif r[1] != d:
            c.violation('decompress:' + kind, '%s, %d bytes of %d, was decompressed to %d different bytes' % (what, len(args[-1]), len(d), len(r[1])), data=args[-1])
        c.count('decompressed_' + kind)
    rng.shuffle(back)
    pure.run(c, exe, back, jd)
    # levels that don't exist are refused or work
    bad = [(['zc', q, GZIP, b'data' * 50], (b'data' * 50, q)) for q in (-1, 10, 100)]

    def jb(args, r, x):
        if r[0] == b'K' and codecs.zdecode(r[1], 31)[0] != x[0]:
            c.violation('badlevel', 'quality %d gives unreadable output' % x[1])
    pure.run(c, exe, bad, jb)
    sub = [x[0] for x in calls + back if len(x[0][-1]) < 20000]
    pure.leaks(c, exe, rng.sample(sub, min(len(sub), 1500)))
    for n in ('compressed_gzip', 'compressed_deflate', 'compressed_br'):
        c.require(n, 2000)
    c.require('boundary_streams', 3)
    c.require('decompressed_own', 5000)
    c.require('decompressed_zlib', 500)
    c.require('decompressed_gzip', 500)
    c.require('decompressed_br', 200)
