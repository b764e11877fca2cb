"""Scripts for the key-value store and the map they are compared with."""
from . import pure, common

KEYS = [b'', b'a', b'b', b'key', b'\0', b'\0\0', b'a\0b', b'\xff\xfe', b'mlkvdb', 'ключ'.encode(), b'k' * 255, b'k' * 256, b'K' * 4096, b'q' * 65535, b'\n', b' ', b'\x01\x00\x01\x00\x00\x00\x00\x00', b'\x02\x00\x00\x00\x00\x00\x00\x00']


def key(rng, universe):
    return rng.choice(universe)


def val(rng):
    k = rng.random()
    if k < 0.1:
        return b''
    if k < 0.3:
        return rng.choice([b'\0', b'v', b'\n', b'\xff' * 8, b'\x00\x00\x01\x00\x01\x00\x00\x00kv', b'mlkvdb\x03\x00'])
    n = rng.choice([1, 7, 20, 100, 255, 256, 1000, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 70000]) if rng.random() < 0.25 else rng.randrange(1, 60)
    return rng.randbytes(n)


def universe(rng):
    u = [rng.randbytes(rng.randrange(1, 6)) for _ in range(rng.randrange(1, 7))] + rng.sample(KEYS, 3)
    return sorted(set(u))


def ops(rng, u, n, clear=0.04):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            out.append(('set', key(rng, u), val(rng)))
        elif k < 0.72:
            out.append(('rm', key(rng, u)))
        elif k < 0.72 + clear:
            out.append(('clear',))
        else:
            out.append((rng.choice(['get', 'has', 'size']),) + ((key(rng, u),) if True else ()))
            if out[-1][0] == 'size':
                out[-1] = ('size',)
    return out


def apply(m, op):
    """Applies to a dict; returns what the operation gives (None: nothing)."""
    if op[0] == 'set':
        m[op[1]] = op[2]
    elif op[0] == 'rm':
        m.pop(op[1], None)
    elif op[0] == 'clear':
        m.clear()
    elif op[0] == 'get':
        return m.get(op[1], b'')
    elif op[0] == 'has':
        return b'1' if op[1] in m else b'0'
    elif op[0] == 'size':
        return b'%d' % len(m)


def probe(u):
    """Operations that read everything."""
    out = [('size',)]
    for k in u:
        out += [('has', k), ('get', k)]
    return out


def flat(ops):
    return [x for o in ops for x in o]


def content(u, vals):
    """The dict that the results of probe() describe, and the size they claim."""
    m = {}
    for i, k in enumerate(u):
        if vals[1 + 2 * i] == b'1':
            m[k] = vals[2 + 2 * i]
    return m, int(vals[0])
