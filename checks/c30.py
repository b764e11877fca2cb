"""C30: SHA-1."""
import hashlib, random
from concurrent.futures import ThreadPoolExecutor
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: generated messages fed in generated pieces to the hash built with ASan+UBSan, digests compared with an independent implementation; objects reused after reset'
NOTE = 'A digest ends a message; the next message on the same object starts with reset().'


def pieces(rng, d):
    out, i = [], 0
    mode = rng.choice(['one', 'bytes', 'block', 'random', 'random', 'empty'])
    if mode == 'one':
        return [d]
    while i < len(d):
        n = {'bytes': 1, 'block': rng.choice([63, 64, 65, 128, 55, 56, 9]), 'random': rng.randrange(1, 150), 'empty': rng.choice([0, 0, 1, 64, 130])}[mode]
        out.append(d[i:i + n])
        i += n
    if mode == 'empty':
        out.append(b'')
    return out or [b'']


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a message of at least one byte, identified by content and chunking'
    calls = []

    def script(rng, msgs):
        a, want = ['sha1'], []
        for k, (m, how) in enumerate(msgs):
            if k and not how.get('noreset'):
                a.append('r')
            if rng.random() < 0.15:
                a += ['u', b'garbage', 'r']
            if rng.random() < 0.05:
                a += ['u', rng.randbytes(rng.randrange(200)), 'd', 'r']
                want.append(hashlib.sha1(a[-3]).digest())
            for p in how['p']:
                a += [rng.choice(['u', 't']), p]
            a.append('d')
            want.append(hashlib.sha1(m).digest())
        return a, want
    # every length around the block boundaries, whole, by bytes, and at every cut
    rng = random.Random('%s/l' % c.seed)
    for n in range(0, c.scale(330, 700)):
        for m in (rng.randbytes(n), b'\xff' * n, b'\0' * n):
            calls.append(script(rng, [(m, {'p': [m]}), (m, {'p': [m[i:i + 1] for i in range(n)]})]))
        m = rng.randbytes(n)
        cuts = range(n + 1) if n <= 130 else rng.sample(range(n + 1), 12)
        calls.append(script(rng, [(m, {'p': [m[:k], m[k:]]}) for k in cuts]))
    for i in range(c.scale(1500, 20000)):
        rng = random.Random('%s/%d' % (c.seed, i))
        msgs = []
        for _ in range(rng.randrange(1, 5)):
            m = rng.randbytes(rng.choice([0, 3, 55, 56, 63, 64, 65, 119, 120, 128, rng.randrange(3000)]))
            msgs.append((m, {'p': pieces(rng, m)}))
        calls.append(script(rng, msgs))
    for n in (1 << 16, 1 << 20, c.scale(20 << 20, 68 << 20)) + ((520 << 20,) if c.thorough else ()):
        m = random.Random(n).randbytes(4096) * (n // 4096)
        calls.append(script(rng, [(m, {'p': [m]})]))
        c.note_max('largest_message', n)

    def judge(args, r, want):
        if r[0] != b'K':
            c.violation('exception', 'hashing threw %r' % r[1:])
            return
        for w, g in zip(want, r[1:]):
            c.case(w, g.hex())
            if w != g:
                lens = [len(x) for x in args[1:] if isinstance(x, bytes)]
                c.violation('digest', 'wrong digest %s instead of %s; pieces of lengths %s' % (g.hex(), w.hex(), lens[:80]), args=repr(args)[:3000])
                return
        if len(r) - 1 != len(want):
            c.problem('lost results')
    pure.run(c, exe, calls, judge, limit=120)

    # lengths that do not fit 29, 31 or 32 bits; without sanitizers for their speed
    plain = build.build('plain', ['pure'])['pure']

    def jbig(args, r, want):
        if r[0] != b'K':
            c.violation('exception', 'hashing %s bytes threw %r' % (args[1], r[1:]))
        elif r[1] != want():
            c.violation('digest-of-much', 'wrong digest %s of %s bytes fed in pieces of %s' % (r[1].hex(), args[1], args[2]))
        c.case('big%s/%s' % (args[1], args[2]))
        c.note_max('largest_message', int(args[1]))
        c.count('messages_above_half_a_gigabyte')

    def oracle(total, piece):
        b = bytes((i * 131 + (i >> 8)) & 255 for i in range(piece))
        h = hashlib.sha1()
        for _ in range(total // piece):
            h.update(b)
        h.update(b[:total % piece])
        return h.digest()
    big = [((512 << 20) + 5, 1000003), ((512 << 20) - 1, 65536), ((2 << 30) + 77, 1 << 20), ((4 << 30) + 123, 1 << 20)]
    with ThreadPoolExecutor(len(big)) as ex:
        for f in [ex.submit(pure.run, c, plain, [(['sha1big', str(t), str(p)], (lambda t=t, p=p: oracle(t, p)))], jbig, limit=400) for t, p in big]:
            f.result()
    c.require('messages_above_half_a_gigabyte', 4)
    c.require('distinct', 2000)
