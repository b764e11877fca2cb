"""Values exchanged with the JSON operations of harness/pure.cpp: ('u',), ('n',), ('t',), ('f',), ('i', n), ('d', Fraction-like text), ('s', bytes), ('a', list), ('m', dict)."""
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)

CHARS = ['"', '\\', '/', '{', '}', '[', ']', ',', ':', ' ', '\n', '\r', '\t', '\b', '\f', '\0', '\x01', '\x1f', '\x7f', '\x80', '\xa0', '\xff', '\u0100', '\u2028', '\u2029', '\uffff', '\ufeff', '\ufffd', '\ud7ff', '\ue000', '\U00010000', '\U0001f600', '\U0010ffff', 'n', 'u', 't', 'f', 'e', '0', '1', '-', '+', '.', "'", 'true', 'null', '\\u', '\\"', '\\\\', '",', '":', '"}', '"]', 'u0041', '\\n', '//', '/*', '</script>', 'é', 'ж', '漢']


def text(rng, maxlen=12):
    k = rng.random()
    if k < 0.1:
        return ''
    if k < 0.25:
        return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABC _0123456789') for _ in range(rng.randrange(1, maxlen + 1)))
    if k < 0.4:
        return ''.join(rng.choice('\\"') for _ in range(rng.randrange(1, 9)))
    if k < 0.5:
        return ''.join(rng.choice('\\"n,]}: ') for _ in range(rng.randrange(1, 12)))
    return ''.join(rng.choice(CHARS) for _ in range(rng.randrange(1, maxlen + 1)))


def integer(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice([0, 1, -1, 9, 10, -10, 2147483647, -2147483648, 2147483646, -2147483647, 65535, 65536, 1000000000])
    return rng.randrange(-(1 << 31), 1 << 31) if k < 0.7 else rng.randrange(-1000, 1000)


def floating(rng):
    k = rng.random()
    if k < 0.2:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1e-6, 1e-7, 5e-324, 1e15, 1e16, 1e17, 1e18, 1e19, 1e21, 1e22, 1e100, -1e100, 1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 123456.789, 2147483648.0, -2147483649.0, 4294967296.0, 0.000001, 999999.999999, 0.3333333333333333])
    if k < 0.6:
        return rng.uniform(-1000, 1000)
    if k < 0.8:
        return round(rng.uniform(-1e6, 1e6), 6)
    return rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 200)


def value(rng, depth=4, width=5):
    k = rng.random()
    if depth <= 0 or k < 0.45:
        k = rng.randrange(9)
        if k == 0:
            return ('n',)
        if k == 1:
            return ('t',)
        if k == 2:
            return ('f',)
        if k <= 4:
            return ('i', integer(rng))
        if k == 5:
            return ('d', floating(rng))
        return ('s', text(rng).encode())
    n = rng.choice([0, 1, 1, 2, 3, rng.randrange(width + 1)])
    if k < 0.72:
        return ('a', [value(rng, depth - 1, width) for _ in range(n)])
    return ('m', {text(rng, 6).encode(): value(rng, depth - 1, width) for _ in range(n)})


def size(v):
    if v[0] == 'a':
        return 1 + sum(size(x) for x in v[1])
    if v[0] == 'm':
        return 1 + sum(size(x) for x in v[1].values())
    return 1


def nest(rng, n, leaf):
    v = leaf
    for _ in range(n):
        v = ('a', [v]) if rng.random() < 0.5 else ('m', {text(rng, 3).encode(): v})
    return v


def form(v, out=None):
    """Compact form for the driver."""
    top = out is None
    out = [] if top else out
    t = v[0]
    if t in 'untf':
        out.append(t.encode())
    elif t == 'i':
        out.append(b'i%d:' % v[1])
    elif t == 'd':
        out.append(b'd%s:' % ('%.40g' % v[1]).encode())
    elif t == 's':
        out.append(b's%d:%s' % (len(v[1]), v[1]))
    elif t == 'a':
        out.append(b'a%d:' % len(v[1]))
        for x in v[1]:
            form(x, out)
    else:
        out.append(b'm%d:' % len(v[1]))
        for k in sorted(v[1]):
            out.append(b'%d:%s' % (len(k), k))
            form(v[1][k], out)
    return b''.join(out) if top else None


def parse(b, i=0):
    """(value, end) of compact form made by the driver; floats become Fractions."""
    t = chr(b[i])
    i += 1
    if t in 'untf?':
        return (t,), i
    if t in 'id':
        e = b.index(b':', i)
        s = b[i:e].decode()
        if t == 'i':
            return ('i', int(s)), e + 1
        try:
            return ('d', Fraction(s)), e + 1
        except ValueError:
            return ('d', s), e + 1

    def string(i):
        e = b.index(b':', i)
        n = int(b[i:e])
        return b[e + 1:e + 1 + n], e + 1 + n
    if t == 's':
        s, i = string(i)
        return ('s', s), i
    e = b.index(b':', i)
    n = int(b[i:e])
    i = e + 1
    if t == 'a':
        out = []
        for _ in range(n):
            x, i = parse(b, i)
            out.append(x)
        return ('a', out), i
    out = {}
    for _ in range(n):
        k, i = string(i)
        out[k], i = parse(b, i)
    return ('m', out), i


def close(a, b, digits6):
    if isinstance(a, str) or isinstance(b, str):
        return False
    a, b = Fraction(a), Fraction(b)
    d = abs(a - b)
    rel = max(abs(a), abs(b)) / 10 ** 12
    return d <= rel or (digits6 and d <= Fraction(6, 10 ** 7))


def differ(a, b, digits6, path='$'):
    """None when equal, else a description. digits6: floats may have been printed with six decimals."""
    if a[0] != b[0]:
        return '%s: %s and %s' % (path, brief(a), brief(b))
    t = a[0]
    if t == 'd':
        return None if close(a[1], b[1], digits6) else '%s: %s and %s' % (path, brief(a), brief(b))
    if t in 'is':
        return None if a[1] == b[1] else '%s: %s and %s' % (path, brief(a), brief(b))
    if t == 'a':
        if len(a[1]) != len(b[1]):
            return '%s: %d and %d elements' % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = differ(x, y, digits6, '%s[%d]' % (path, i))
            if r:
                return r
    if t == 'm':
        if set(a[1]) != set(b[1]):
            return '%s: keys %r and %r' % (path, sorted(a[1])[:9], sorted(b[1])[:9])
        for k in a[1]:
            r = differ(a[1][k], b[1][k], digits6, '%s[%r]' % (path, k))
            if r:
                return r
    return None


def brief(v):
    if v[0] == 'd' and isinstance(v[1], Fraction):
        try:
            return 'float %r' % float(v[1])
        except OverflowError:
            return 'float (huge)'
    return repr(v)[:120]


def standard(text):
    """The value that a standard parser reads (strict), in the form above; raises ValueError."""
    import json

    def bad(x):
        raise ValueError('constant ' + x)

    def conv(x):
        if x is None:
            return ('n',)
        if x is True:
            return ('t',)
        if x is False:
            return ('f',)
        if isinstance(x, tuple):
            return x
        if isinstance(x, str):
            return ('s', x.encode('utf-8', 'surrogatepass'))
        if isinstance(x, list):
            return ('a', [conv(y) for y in x])
        return ('m', {k.encode('utf-8', 'surrogatepass'): conv(y) for k, y in x.items()})
    return conv(json.loads(text, parse_float=lambda s: ('d', Fraction(s)), parse_int=lambda s: ('i', int(s)), parse_constant=bad))


SHORT = {'"': '"', '\\': '\\', '/': '/', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't'}


def write_string(rng, s, style):
    out = ['"']
    for ch in s:
        o = ord(ch)
        must = o < 0x20 or ch in '"\\'
        if must or rng.random() < style:
            forms = []
            if ch in SHORT:
                forms.append('\\' + SHORT[ch])
            if o > 0xffff:
                h, l = 0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff)
                u = '\\u%04x\\u%04x' % (h, l)
            else:
                u = '\\u%04x' % o
            forms.append(''.join(rng.choice([x.lower(), x.upper()]) if x in 'abcdef' else x for x in u))
            out.append(rng.choice(forms))
        else:
            out.append(ch)
    out.append('"')
    return ''.join(out)


def write_number(rng, v):
    """Text of a float whose value is exactly what a standard parser reads."""
    k = rng.randrange(6)
    ip = rng.choice(['0', str(rng.randrange(1, 10)), str(rng.randrange(1, 10 ** rng.randrange(1, 15)))])
    fp = ''.join(rng.choice('0123456789') for _ in range(rng.randrange(1, 9)))
    ex = rng.choice('eE') + rng.choice(['', '+', '-']) + rng.choice(['', '0', '00']) + str(rng.randrange(0, rng.choice([3, 20, 250])))
    s = ip + ('.' + fp if k != 0 else '') + (ex if k in (0, 1, 2) else '')
    return rng.choice(['', '-']) + s


def write(rng, v, ws, style):
    """Any JSON layout of a value; floats are written anew (their values are not kept)."""
    def sp():
        return ''.join(rng.choice(' \t\r\n') for _ in range(rng.randrange(4))) if rng.random() < ws else ''
    t = v[0]
    if t == 'n':
        return 'null'
    if t == 't':
        return 'true'
    if t == 'f':
        return 'false'
    if t == 'i':
        return str(v[1]) if v[1] or rng.random() < 0.8 else '-0'
    if t == 'd':
        return write_number(rng, v)
    if t == 's':
        return write_string(rng, v[1].decode(), style)
    if t == 'a':
        return '[' + sp() + (sp() + ',' + sp()).join(write(rng, x, ws, style) for x in v[1]) + sp() + ']'
    items = list(v[1].items())
    rng.shuffle(items)
    return '{' + sp() + (sp() + ',' + sp()).join(write_string(rng, k.decode(), style) + sp() + ':' + sp() + write(rng, x, ws, style) for k, x in items) + sp() + '}'
