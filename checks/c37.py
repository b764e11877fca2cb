"""C37: string helpers."""
import itertools, random
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: exhaustive short and generated inputs to the helpers built with ASan+UBSan and library assertions, results compared with plain reference definitions; watchdog for termination'
NOTE = 'split returns the pieces without a final empty one. Replacing every occurrence of an empty string, and splitting by one, only has to terminate.'


def title(s):
    out, cap = bytearray(), True
    for b in s:
        ch = bytes([b])
        out += ch.upper() if cap else ch.lower()
        cap = ch in b' -'
    return bytes(out)


def split(s, t):
    if not s:
        return []
    if not t:
        return [s]
    out = s.split(t)
    return out[:-1] if len(out) > 1 and not out[-1] else out


def truth(v):
    return b'1' if v else b'0'


MODEL = {
    'lower': lambda s: [s.lower()] * 2,
    'upper': lambda s: [s.upper()] * 2,
    'title': lambda s: [title(s)] * 2,
    'trim': lambda s: [s.strip(b'\r\n\t ')] * 2,
    'includes': lambda s, t: [truth(t in s)],
    'includesc': lambda s, t: [truth(t in s)],
    'includesv': lambda s, *t: [truth(any(x in s for x in t))],
    'ends': lambda s, t: [truth(s.endswith(t))],
    'starts': lambda s, t: [truth(s.startswith(t))],
    'splits': split,
    'splitc': split,
    'join': lambda t, *v: [t.join(v)],
    'replace': lambda s, x, y: [s.replace(x, y, 1)] * 2,
    'replaceall': lambda s, x, y: [s.replace(x, y)] * 2 if x else None,
}
UNARY = ('lower', 'upper', 'title', 'trim')
ALPH = b'aAbBzZ@[`{ \t\r\n-_.\0\x0b\x0c\x1f\x7f\x80\xc3\xa9\xff019'


def rs(rng, alpha, n):
    return bytes(rng.choice(alpha) for _ in range(rng.randrange(n + 1)))


def gen(rng):
    op = rng.choice(list(MODEL))
    alpha = rng.choice([b'ab', b'a ', b'a\n\t \r', ALPH, bytes(range(256)), b'xy-'])
    n = rng.choice([3, 8, 20, 100, 1000]) if rng.random() < 0.98 else 100000
    s = rs(rng, alpha, n)
    small = lambda: rs(rng, alpha, rng.choice([1, 1, 2, 3, 8]))
    if op in UNARY:
        return [op, s]
    if op in ('includesc', 'splitc'):
        return [op, s, bytes([rng.choice(alpha)])]
    if op == 'includesv':
        return [op, s] + [small() for _ in range(rng.randrange(5))]
    if op == 'join':
        return [op, small().replace(b'\0', b'')] + [small() for _ in range(rng.randrange(6))]
    t = small()
    if op in ('starts', 'ends') and rng.random() < 0.6 and s:
        k = rng.randrange(len(s) + 1)
        t = s[:k] if op == 'starts' else s[len(s) - k:]
        if rng.random() < 0.3:
            t = rng.choice([t + b'a', b'a' + t, t[1:], t[:-1]])
    elif rng.random() < 0.5 and s:
        i = rng.randrange(len(s))
        t = s[i:i + rng.randrange(1, 6)]
    if op in ('replace', 'replaceall'):
        y = rng.choice([small(), b'', t, t + t, b'x' + t + b'y', t[:-1]])
        return [op, s, t, y] if rng.random() < 0.97 else [op, s, b'', y]
    if rng.random() < 0.03:
        t = rng.choice([b'', s, s + b'x'])
    return [op, s, t]


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a helper call whose result differs from its first argument, or is a truth value or a list'
    calls = []
    short = [bytes(x) for k in range(0, 6) for x in itertools.product(b' aB\t-', repeat=k)]
    for s in short:
        calls += [[op, s] for op in UNARY]
    tiny = [bytes(x) for k in range(0, 5) for x in itertools.product(b'ab', repeat=k)]
    for s in tiny:
        for t in tiny[:15]:
            calls += [[op, s, t] for op in ('includes', 'ends', 'starts', 'splits')]
            if len(t) == 1:
                calls.append(['splitc', s, t])
            for y in (b'', b'a', b'ab', b'aa'):
                calls += [['replace', s, t, y], ['replaceall', s, t, y]]
    c.count('exhaustive_calls', len(calls))
    for i in range(c.scale(25000, 400000)):
        calls.append(gen(random.Random('%s/%d' % (c.seed, i))))
    # split and join are inverse
    inv = []
    for i in range(c.scale(3000, 40000)):
        rng = random.Random('%s/i%d' % (c.seed, i))
        sep = rng.choice([b',', b'; ', b'ab', b'\r\n', b'--', b'aa', b'&'])
        items = [rs(rng, bytes(set(range(256)) - set(sep)), 6) for _ in range(rng.randrange(1, 8))]
        if not items[-1]:
            items[-1] = b'z'
        inv.append((['splits', sep.join(items), sep], items))

    def judge(args, r, items):
        op = args[0]
        if r[0] != b'K':
            c.violation('exception:' + op, '%s threw %r' % (common.show(args), r[1:]))
            return
        want = MODEL[op](*args[1:]) if items is None else items
        c.count('op_' + op)
        c.case(repr(args)[:4000] if want is None or not want or want[0] != args[1] else None, common.show(args, 60))
        if op == 'splits' and not args[2]:
            want = None
        if want is not None and r[1:] != want:
            c.violation('result:' + op, '%s returned %s instead of %s' % (common.show(args), common.show(r[1:]), common.show(want)), args=repr(args)[:2000])
    pure.run(c, exe, [(x, None) for x in calls] + inv, judge)
    for op in MODEL:
        c.require('op_' + op, 500)
