"""C29: base64, hex and percent encodings."""
import base64, itertools, random, re, urllib.parse
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: exhaustive short and generated inputs to the encoders and decoders built with ASan+UBSan and library assertions, results compared with independent reference implementations'
NOTE = 'Base64 without padding, and the five characters !\'()* that URI encoders may leave, are accepted in either form; hexadecimal digits in either case.'

B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64d(s):
    """(required outcome or None, value)"""
    m = re.fullmatch(rb'([A-Za-z0-9+/]*)(={0,2})', s, re.S)
    if not m or len(m.group(1)) % 4 == 1 or (m.group(2) and len(s) % 4):
        return 'E', None
    v = base64.b64decode(m.group(1) + b'=' * (-len(m.group(1)) % 4))
    if len(s) % 4:
        return None, v
    if base64.b64encode(v) != s:
        return None, v
    return 'K', v


def hexd(s):
    if len(s) % 2 or not re.fullmatch(rb'[0-9A-Fa-f]*', s):
        return 'E', None
    return 'K', bytes.fromhex(s.decode())


def urid(s):
    if re.search(rb'%(?![0-9A-Fa-f]{2})', s):
        return 'E', None
    return 'K', urllib.parse.unquote_to_bytes(s)


def rb(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 16, 63, 64, 65, 300, rng.randrange(2000)]) if n is None else n
    k = rng.random()
    if k < 0.4:
        return rng.randbytes(n)
    alpha = rng.choice([b'\x00\xff', b'\xfb\xff\xfe>?', b'abc xyz', b'%&=+/?# "\'!()*', bytes(range(128, 256)), bytes(range(32))])
    return bytes(rng.choice(alpha) for _ in range(n))


def mutate(rng, s):
    s = bytearray(s)
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(5)
        i = rng.randrange(len(s) + 1)
        if k == 0 and s:
            del s[min(i, len(s) - 1)]
        elif k == 1:
            s.insert(i, rng.choice([rng.randrange(256), 0, 0xff, 0x80, ord('='), ord('%'), ord('-'), ord('_'), ord('\n'), ord(' '), ord('g'), ord('G'), ord('@'), ord('`'), ord('/'), ord(':')]))
        elif k == 2 and s:
            s[min(i, len(s) - 1)] = rng.choice([rng.randrange(256), ord('='), ord('%'), 0])
        elif k == 3:
            s = s[:i]
        else:
            s += rng.choice([b'=', b'==', b'===', b'%', b'%4', b'A', b'\0', b'\n'])
    return bytes(s)


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'an encoding round trip of a non-empty byte string, or a decoder input with a fixed outcome'
    calls = []
    # encoders: everything short, then random
    data = [bytes(x) for k in range(0, 2) for x in itertools.product(range(256), repeat=k)]
    data += [bytes(x) for k in (2, 3, 4) for x in itertools.product([0, 1, 0x0f, 0x3f, 0x41, 0x7f, 0x80, 0xc0, 0xff], repeat=k)]
    for i in range(c.scale(2500, 60000)):
        data.append(rb(random.Random('%s/%d' % (c.seed, i))))
    data += [random.Random(c.seed).randbytes(n) for n in (10000, 65536, 65537, 300000)]
    for d in data:
        calls += [(['b64e', d], None), (['hexe', d], None), (['urie', d], None)]
        calls += [(['b64d', base64.b64encode(d)], 'rt'), (['hexd', d.hex()], 'rt'), (['hexd', d.hex().upper()], 'rt'), (['urid', urllib.parse.quote_from_bytes(d, safe='')], 'rt')]
    for b in range(256):
        calls.append((['hexb', bytes([b])], None))
    # decoders: everything short over telling alphabets, and mutations
    for op, alpha in (('b64d', b'AQ/9=-\n\xff'), ('hexd', b'0aFg\0:\xff'), ('urid', b'%4aG\0\xff')):
        for k in range(0, 6 if op != 'b64d' else 5):
            calls += [([op, bytes(x)], None) for x in itertools.product(alpha, repeat=k)]
        calls += [([op, bytes([a, b])], None) for a in range(256) for b in b'4A\xff']
        calls += [([op, b'QQ' + bytes([a]) + b'='], None) for a in range(256)]
        calls += [([op, b'%4' + bytes([a])], None) for a in range(256)]
        calls += [([op, b'%' + bytes([a]) + b'F'], None) for a in range(256)]
    for i in range(c.scale(8000, 150000)):
        rng = random.Random('%s/m%d' % (c.seed, i))
        op = rng.choice(['b64d', 'hexd', 'urid'])
        d = rb(rng)
        s = {'b64d': base64.b64encode(d), 'hexd': d.hex().encode(), 'urid': urllib.parse.quote_from_bytes(d).encode()}[op]
        calls.append(([op, mutate(rng, s) if rng.random() < 0.85 else rb(rng)], None))

    def judge(args, r, how):
        op, s = args[0], args[1]
        s = s.encode() if isinstance(s, str) else s
        k = r[0].decode()
        c.count('op_' + op)
        if op in ('b64d', 'hexd', 'urid'):
            need, v = {'b64d': b64d, 'hexd': hexd, 'urid': urid}[op](s)
            if need:
                c.case(op + ':' + s[:3000].hex(), common.show(args, 60) + ' -> ' + (common.show(v, 40) if k == 'K' else 'rejected'))
                c.count(op + ('_valid' if need == 'K' else '_invalid'))
            else:
                c.case()
            if need and k != need:
                c.violation('%s:%s' % (op, 'rejects-valid' if need == 'K' else 'accepts-invalid'), '%s gave %s' % (common.show(args), common.show(r)), input=s)
            elif k == 'K' and r[1] != v:
                c.violation(op + ':value', '%s gave %s instead of %s' % (common.show(args), common.show(r[1]), common.show(v)), input=s)
            return
        if k != 'K':
            c.violation(op + ':exception', '%s threw %r' % (common.show(args), r[1:]))
            return
        c.case(op + ':' + s[:3000].hex() if s else None)
        if op == 'b64e':
            ok = r[1] == base64.b64encode(s)
        elif op == 'hexe':
            ok = r[1].lower() == s.hex().encode()
        elif op == 'urie':
            ok = re.fullmatch(rb"(?:[A-Za-z0-9._~!'()*-]|%[0-9A-Fa-f]{2})*", r[1]) and urllib.parse.unquote_to_bytes(r[1]) == s and not re.search(rb'%(?:3[0-9]|4[1-9A-Fa-f]|5[0-9Aa]|6[1-9A-Fa-f]|7[0-9Aa]|2[DdEe]|5[Ff]|7[Ee])', r[1])
        else:
            ok = r[1].lower() == s.hex().encode() and r[2] == b'\0' and r[3] == s
        if not ok:
            c.violation(op + ':value', '%s gave %s' % (common.show(args), common.show(r[1:])), input=s)
    pure.run(c, exe, calls, judge)
    for n in ('b64d_valid', 'b64d_invalid', 'hexd_valid', 'hexd_invalid', 'urid_valid', 'urid_invalid'):
        c.require(n, 1000)
