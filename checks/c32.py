"""C32: arbitrary text through the JSON parser; ownership of values."""
import random
from vlib import build, pure, common, jsonform as jf

TECHNIQUE = 'runtime monitoring: mutated and adversarial texts through the JSON parser built with ASan+UBSan and library assertions, with a time limit per call and allocation accounting; random histories of copies, assignments and moves between values compared with a model'
NOTE = 'Whether a malformed text is refused or tolerated is not judged. The time limit is 20 s per text of up to a few hundred kilobytes.'

TOK = ['{', '}', '[', ']', ',', ':', '"', '\\', '\\"', '"a"', '"', '1', '-', '-1', '1.5', 'e', 'E', '+', '.', 'true', 'false', 'null', 't', 'f', 'te', 'fe', 'n', ' ', '\n', '\t', '\\u', '\\ud800', '\\u12', '"\\u00', '\0', '\x01', '\x7f', '\x80', '\xff', '\xc3', 'x', "'", '99999999999', '1e99999', '-9223372036854775809', '1e-99999', '0x10', 'NaN', 'Infinity', '-Infinity', '1.2.3', '1e', '1e+', '--1', '-e', '/*', '//', '\\\\', '"\\\\"', '{}', '[]', '{"a":1}', '[1,2]', '"a":', ',,', '::', '\r', '\v', '\f']


def soup(rng):
    return ''.join(rng.choice(TOK) for _ in range(rng.choice([1, 2, 3, 4, 6, 10, 20, 60]))).encode('latin1')


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        k = rng.randrange(7)
        i = rng.randrange(len(b) + 1)
        if k == 0:
            del b[i:i + rng.choice([1, 1, 2, 5])]
        elif k == 1:
            b[i:i] = rng.choice(TOK).encode('latin1')
        elif k == 2 and b:
            b[min(i, len(b) - 1)] = rng.choice([rng.randrange(256), ord('"'), ord('\\'), 0, ord('{'), ord(']')])
        elif k == 3:
            del b[i:]
        elif k == 4:
            del b[:i]
        elif k == 5:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)][:200]
        else:
            b += rng.choice(TOK).encode('latin1')
    return bytes(b)


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a text that was given to the parser, or a history of value operations'
    rng = random.Random('%s/s' % c.seed)
    texts = [b'', b' ', b'\0', b'"', b'""', b'"\\', b'"\\"', b'"\\\\', b'"\\u', b'"\\u1', b'"\\u123"', b'"\\ud800"', b'"\\ud800\\u"', b'"\\ud800\\u00"', b'"\\ud800\\udc0"', b'"\\udc00\\ud800"', b'[', b']', b'{', b'}', b'[]]', b'[[]', b'{}}', b'{{}', b'[}', b'{]', b'[,]', b'[1,]', b'[,1]', b'{,}', b'{:}', b'{"a"}', b'{"a":}', b'{:1}', b'{a:1}', b'{"a":1,}', b'{"a"1}', b'-', b'--', b'-a', b'1a', b'1e', b'1.', b'.1', b'+1', b'01', b'1 2', b'99999999999999999999', b'-99999999999999999999', b'1e999999', b'-1e999999', b'1e-999999', b'0x1p3', b'0x', b't', b'te', b'tre', b'f', b'fe', b'nul', b'nulll', b'["', b'["]', b'["\\]', b'["\\"]', b'{"', b'{"a', b'{"a\\":1}', b'"a"b"', b'"a" "b"', b'["a" "b"]', b'"\\x"', b'"\\"\\"', b'"a\\\\"b"', b'\xff', b'"\xff"', b'\xef\xbb\xbf{}', b']['] + [bytes([x]) for x in range(256)] + [b'"' + bytes([x]) + b'"' for x in range(256)] + [b'"\\' + bytes([x]) + b'"' for x in range(256)] + [b'[' + bytes([x]) + b']' for x in range(256)] + [b'{' + bytes([x]) + b':' + bytes([x]) + b'}' for x in range(256)] + [b'-' + bytes([x]) for x in range(256)]
    seeds = []
    while len(seeds) < 300:
        seeds.append(jf.write(rng, jf.value(rng, rng.choice([0, 1, 2, 3, 4]), 5), rng.choice([0, 0.3]), rng.choice([0, 0.2])).encode())
    for s in seeds[:60]:
        texts += [s[:i] for i in range(min(len(s), 120))]
    while len(texts) < c.scale(60000, 600000):
        texts.append(soup(rng) if rng.random() < 0.4 else mutate(rng, rng.choice(seeds)))
    big = []
    for n in (1000, 20000):
        for t, m, e in (('"\\"', '', ''), ('[,', '', ''), ('\\', '', ''), ('"', '', ''), ('"\\\\', '', ''), ('{"a":', '', ''), ('1', '', ''), ('-', '', ''), ('[1,', '', ''), ('","', '', ''), (' ', '', ''), ('\0', '', ''), ('1e', '', ''), ('"\\\\" ', '', ''), ('[]', '', ''), ('{},', '', ''), ('[{', '', ''), ('}]', '', '')):
            big.append(t * n)
    judged = {'K': 0, 'E': 0}

    def jany(args, r, x):
        t = args[1]
        t = t if isinstance(t, bytes) else t.encode()
        c.case(t[:5000], common.show(t, 40) if rng.random() < 0.01 else None)
        with c.lock:
            judged[r[0].decode()] = judged.get(r[0].decode(), 0) + 1
        if r[0] == b'K':
            jf.parse(r[1])
    pure.run(c, exe, [['jany', t] for t in texts + big], jany)
    c.count('texts_accepted', judged['K'])
    c.count('texts_refused', judged['E'])

    # deep nesting, closed or not
    nests = []
    for n in (100, 500, 512, 513, 1000, 5000, 20000, 100000, 1000000) + ((5000000,) if c.thorough else ()):
        for t, m, e in (('[', '1', ']'), ('[', '', ''), ('{"a":', '1', '}'), ('{"a":', '', ''), ('[{"a":', 'null', '}]'), ('[[],', '1', ']'), ('', '', ']'), ('', '[', '}'), ('[{', '', ''), (' [', '"]"', '] '), ('{"[":[', '', ']}')):
            nests.append(['jnest', n, t, m, e])

    def jnest(args, r, x):
        c.case('nest %r' % (args[1:],), '%d nested %s: %s' % (args[1], args[2], r[0].decode()))
        c.count('nested_texts')
        c.note_max('depth', args[1])
    pure.run(c, exe, nests, jnest, limit=60)

    # leaks, whether parsing fails or not
    pure.leaks(c, exe, [['jany', t] for t in rng.sample(texts, min(len(texts), c.scale(8000, 60000)))] + [['jround', jf.form(jf.value(rng, 4))] for _ in range(1000)])

    # histories of copies and moves
    hist = []
    for _ in range(c.scale(4000, 60000)):
        regs = [('u',)] * 4
        ops, want = [], []
        for _ in range(rng.randrange(3, 25)):
            d, s = rng.randrange(4), rng.randrange(4)
            k = rng.random()
            if k < 0.25:
                v = jf.value(rng, rng.choice([0, 1, 2, 3]), 4)
                ops += ['build', d, jf.form(v)]
                regs[d] = v
            elif k < 0.4:
                ops += ['copy', d, s]
                regs[d] = regs[s]
            elif k < 0.5:
                ops += ['cctor', d, s]
                regs[d] = regs[s]
            elif k < 0.6:
                ops += ['mctor', d, s]
                regs[d] = regs[s]
                if d != s:
                    regs[s] = ('u',)
            elif k < 0.7:
                i = rng.randrange(8)
                ops += ['elem', d, s, i]
                if regs[s][0] == 'a' and regs[s][1]:
                    regs[d] = regs[s][1][i % len(regs[s][1])]
                    want.append(b'1')
                else:
                    want.append(b'0')
            elif k < 0.8:
                key = rng.choice(sorted(regs[s][1])) if regs[s][0] == 'm' and regs[s][1] else b'a'
                ops += ['key', d, s, key]
                if regs[s][0] == 'm' and key in regs[s][1]:
                    regs[d] = regs[s][1][key]
                    want.append(b'1')
                else:
                    want.append(b'0')
            elif k < 0.87 and jf.size(regs[s]) < 300:
                ops += ['wrap', d, s]
                regs[d] = ('a', [regs[s], regs[s]])
            else:
                ops += ['dump', s]
                want.append(regs[s])
        for s in range(4):
            ops += ['dump', s]
            want.append(regs[s])
        hist.append((['jops'] + ops, want))
    hist = [h for h in hist]

    def jops(args, r, want):
        c.case(repr(args).encode())
        if r[0] != b'K':
            c.violation('ops-error', 'copying and assigning values failed: %s' % common.show(r[1] if len(r) > 1 else b''), ops=repr(args)[:3000])
            return
        out = r[1:]
        i = 0
        for w in want:
            if isinstance(w, bytes):
                if out[i] != w:
                    c.violation('ops', 'element access gave %s instead of %s' % (out[i], w), ops=repr(args)[:3000])
                    return
                i += 1
                continue
            got, _ = jf.parse(out[i])
            d = jf.differ(w, got, False)
            if d:
                c.violation('ops', 'a value changed by copying, assigning or moving: %s' % d, ops=repr(args)[:3000])
                return
            i += 2
        c.count('histories')
    pure.run(c, exe, hist, jops)
    pure.leaks(c, exe, [h[0] for h in hist[:c.scale(2000, 20000)]])
    c.require('texts_accepted', 3000)
    c.require('texts_refused', 3000)
    c.require('nested_texts', 80)
    c.require('histories', 3000)
    c.require('leak_checked_calls', 8000)
