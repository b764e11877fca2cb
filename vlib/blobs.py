"""Byte strings with different redundancy, around the library's buffer size."""
CH = 128 * 1024


def blob(rng, n):
    k = rng.randrange(7)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        return bytes([rng.randrange(256)]) * n
    if k == 2:
        w = [rng.randbytes(rng.randrange(1, 12)) for _ in range(20)]
        out = bytearray()
        while len(out) < n:
            out += rng.choice(w)
        return bytes(out[:n])
    if k == 3:
        p = rng.randbytes(rng.choice([1, 2, 3, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 32768, 32769]))
        return (p * (n // len(p) + 1))[:n]
    if k == 4:
        return bytes(rng.choices(b'ab', k=n))
    if k == 5:
        half = rng.randrange(n + 1)
        return rng.randbytes(half) + b'\0' * (n - half)
    half = rng.randrange(n + 1)
    return b'z' * half + rng.randbytes(n - half)


SIZES = [1, 2, 3, 5, 17, 100, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 16383, 32767, 32768, 32769, 65535, 65536, 65537, CH - 1, CH, CH + 1, 2 * CH - 1, 2 * CH, 2 * CH + 1, 3 * CH, 4 * CH + 7]


def size(rng, big=True):
    k = rng.random()
    if k < 0.55:
        return rng.randrange(1, 2000)
    if k < 0.8:
        return rng.randrange(1, 70000)
    if k < 0.9:
        return rng.choice(SIZES)
    return rng.randrange(1, 4 * CH if big else CH)


def boundary(rng, codec_compress, feed, want_mult=CH, cut=CH, tries=3000, tail=200000):
    """A compressed stream whose first `cut` bytes decode to a nonzero multiple of `want_mult` bytes.
    codec_compress(data) -> stream, feed(stream prefix) -> number of bytes it decodes to."""
    t = rng.randbytes(tail)
    L = 2 * want_mult - cut + 40
    for _ in range(40):
        s = codec_compress(b'a' * L + t)
        n = feed(s[:cut])
        d = n % want_mult
        if d == 0 and n:
            return b'a' * L + t, s
        L += want_mult - d if L < want_mult * 2 else -d
    return None
