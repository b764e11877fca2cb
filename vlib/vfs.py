"""Virtual file system scripts, their model, and an independent reader and writer of tar archives."""
import gzip, io, tarfile
from . import blobs

BLOCK = 512
NAMES = [b'a', b'b.txt', b'index.html', b'Dir/File.TXT', b'dir/file.txt', b'DIR/x', b'x y', b'/abs', b'../up', b'.', b'a/b/c/d', b'sp ace/\xd0\x96.bin', b'\xff\xfe', b'tab\tname', b'new\nline', b'"q"', b'a\\b', b'././@LongLink', b'trailing/']


def name(rng):
    k = rng.randrange(10)
    if k < 5:
        return rng.choice(NAMES)
    n = rng.choice([1, 3, 20, 98, 99, 100, 101, 102, 155, 156, 199, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2048]) if k < 8 else rng.randrange(1, 140)
    alpha = b'abcXYZ019._-/ ' if rng.random() < 0.7 else bytes(range(1, 256))
    return bytes(rng.choices(alpha, k=n))


def safe_name(rng, maxlen=255):
    n = rng.choice([1, 2, 10, 50, 99, 100, 101, 120, 154, 155, 156, 200, 255])
    n = min(n, maxlen)
    parts, left = [], n
    while left > 0:
        k = min(left, rng.choice([1, 3, 8, 30, 60, 90]))
        if left - k == 1:
            k = left
        parts.append(''.join(rng.choices('abcdefxyz0189_-', k=k)))
        left -= k + 1
    return '/'.join(parts).encode()


SIZES = [0, 1, 100, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 2048, 4096, 5119, 5120, 10240, 65536, 131071, 131072, 131073, 262144]


def content(rng, big=False):
    k = rng.random()
    n = rng.randrange(0, 3000) if k < 0.4 else rng.choice(SIZES[:17]) if k < 0.9 else rng.choice(SIZES)
    if big:
        n = rng.choice([300000, 1 << 20, (1 << 20) + 1, 2 * 1024 * 1024, 2 * 1024 * 1024 + 512, 3_000_001])
    return blobs.blob(rng, n) if n else b''


def fileset(rng, n, big=False):
    out = {}
    for i in range(n):
        out[name(rng)] = content(rng, big and i == 0)
    return out


# independent reading of an archive

class Bad(Exception):
    pass


def octal(b):
    t = b.strip(b' \0')
    if not t or t.strip(b'01234567'):
        raise Bad('number %r' % b)
    return int(t, 8)


def parse(data, strict=False):
    """Entries (name, type, content, mtime) of a complete ustar archive; Bad when it is not one.
    strict: what a writer must keep to (padding is zero, the end is marked and nothing follows but zeros)."""
    out, i, long = [], 0, None
    while True:
        h = data[i:i + BLOCK]
        if len(h) < BLOCK:
            raise Bad('archive ends without an end mark')
        if h == b'\0' * BLOCK:
            rest = data[i:]
            if len(rest) < 2 * BLOCK or rest[BLOCK:2 * BLOCK] != b'\0' * BLOCK:
                raise Bad('no second zero block at the end')
            if strict and (rest.strip(b'\0') or len(data) % BLOCK):
                raise Bad('data after the end mark')
            if long is not None:
                raise Bad('long name without entry')
            return out
        if h[257:263] != b'ustar\0':
            raise Bad('magic %r' % h[257:263])
        if strict and h[263:265] != b'00':
            raise Bad('version %r' % h[263:265])
        s = sum(h[:148]) + 256 + sum(h[156:])
        if octal(h[148:156]) != s:
            raise Bad('checksum')
        size, mtime = octal(h[124:136]), octal(h[136:148])
        body = data[i + BLOCK:i + BLOCK + size]
        pad = -size % BLOCK
        if len(body) < size or len(data) < i + BLOCK + size + pad:
            raise Bad('content ends early')
        if strict and data[i + BLOCK + size:i + BLOCK + size + pad].strip(b'\0'):
            raise Bad('padding')
        nm = h[:100].split(b'\0')[0]
        pre = h[345:500].split(b'\0')[0]
        if pre:
            nm = pre + b'/' + nm
        t = h[156:157]
        i += BLOCK + size + pad
        if t == b'L':
            if long is not None:
                raise Bad('two long names')
            long = body.split(b'\0')[0]
            continue
        if long is not None:
            nm, long = long, None
        out.append((nm, t, body, mtime))


def gunzip(data):
    import zlib
    d = zlib.decompressobj(31)
    out = d.decompress(data) + d.flush()
    if not d.eof:
        raise Bad('gzip stream is not complete')
    if d.unused_data:
        raise Bad('data after the gzip stream')
    return out


# independent writing

def header(nm, size, mtime=0, typ=b'0', prefix=b'', magic=b'ustar\x0000', mode=b'0000644', fields=None, signed=False):
    h = bytearray(BLOCK)

    def put(at, n, b):
        h[at:at + n] = b[:n].ljust(n, b'\0')
    put(0, 100, nm)
    put(100, 8, mode)
    put(108, 8, b'0000000')
    put(116, 8, b'0000000')
    put(124, 12, size if isinstance(size, bytes) else b'%011o' % size)
    put(136, 12, mtime if isinstance(mtime, bytes) else b'%011o' % mtime)
    put(156, 1, typ)
    put(257, 8, magic)
    put(345, 155, prefix)
    for at, b in (fields or {}).items():
        h[at:at + len(b)] = b
    h = h[:BLOCK]
    return refix(h)


def refix(h, at=0):
    """Sets the right checksum of the header at that offset."""
    h = bytearray(h)
    s = sum(h[at:at + 148]) + 256 + sum(h[at + 156:at + BLOCK])
    h[at + 148:at + 156] = b'%06o\0 ' % s
    return bytes(h)


def entry(nm, body, mtime=0, typ=b'0', **kw):
    return header(nm, len(body), mtime, typ, **kw) + body + b'\0' * (-len(body) % BLOCK)


END = b'\0' * (2 * BLOCK)


def std_tar(files, dirs=False, links=False, times=None, fmt=tarfile.USTAR_FORMAT):
    """An archive written by Python's tar implementation."""
    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode='w', format=fmt, encoding='utf-8', errors='surrogateescape') as t:
        for n, b in files:
            nm = n.decode('utf-8', 'surrogateescape')
            if dirs and '/' in nm.strip('/'):
                d = tarfile.TarInfo(nm.rsplit('/', 1)[0])
                if len(d.name) < 90:
                    d.type = tarfile.DIRTYPE
                    d.mode = 0o755
                    t.addfile(d)
            if links:
                l = tarfile.TarInfo('link-to-something')
                l.type = tarfile.SYMTYPE
                l.linkname = 'target'
                t.addfile(l)
            i = tarfile.TarInfo(nm)
            i.size = len(b)
            i.mtime = times[n] if times else 1_000_000_000
            t.addfile(i, io.BytesIO(b))
    return f.getvalue()


def gz(data, level=6):
    return gzip.compress(data, level, mtime=0)


def files_of(step_list, per=4):
    return [tuple(step_list[i:i + per]) for i in range(0, len(step_list), per)]
