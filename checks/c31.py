"""C31: JSON values and texts."""
import random
from vlib import build, pure, common, jsonform as jf

TECHNIQUE = 'runtime monitoring: generated values and texts through the JSON serializer and parser built with ASan+UBSan; the serialized text is read by an independent strict parser, parsed values are compared with what that parser reads'
NOTE = 'Strings are valid UTF-8; floats are finite and compared to six decimals (a relative 1e-12 when they were read, not printed); integers without fraction or exponent are in 32 bits; nesting up to 500 levels.'


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a value that was serialized and read back, or a JSON text that was parsed'

    # 1. stringify: standard parsers read the same value, and so does parse()
    rng = random.Random('%s/v' % c.seed)
    vals = [('n',), ('t',), ('f',), ('s', b''), ('a', []), ('m', {}), ('a', [('a', []), ('m', {})]), ('m', {b'': ('m', {b'': ('a', [])})})]
    vals += [('i', n) for n in (0, 1, -1, 2147483647, -2147483648)]
    for cp in list(range(0x180)) + [0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff]:
        b = chr(cp).encode()
        vals += [('s', b), ('s', b'\\' + b), ('s', b + b'\\'), ('s', b'a' + b + b'"'), ('m', {b: ('s', b)}), ('a', [('s', b), ('i', 1), ('s', b'x' + b)])]
    for n in (1, 2, 3, 10, 63, 64, 65, 127, 128, 300, 500):
        for _ in range(3):
            vals.append(jf.nest(rng, n, jf.value(rng, 0)))
        vals.append(('a', [('i', k) for k in range(n)]))
        vals.append(('m', {b'k%d' % k: ('i', k) for k in range(n)}))
        vals.append(('s', b'\\"' * n))
    for n in (1000, 65536, 300000):
        vals.append(('s', rng.choice([b'a', b'"', b'\\', '\u2028'.encode(), b'\0']) * n))
    vals.append(('a', [('s', b'%d' % k) for k in range(20000)]))
    vals.append(('m', {b'key %d' % k: ('d', k / 7) for k in range(5000)}))
    while len(vals) < c.scale(50000, 400000):
        vals.append(jf.value(rng, rng.choice([0, 1, 2, 3, 6]), rng.choice([2, 5, 12])))

    def jround(args, r, v):
        f = args[1]
        c.case(f, common.show(f, 60) if len(f) > 20 else None)
        if r[0] != b'K':
            c.violation('round-error', 'value %s cannot be serialized and parsed back: %s' % (common.show(f), common.show(r[1] if len(r) > 1 else b'')))
            return
        text = r[1]
        try:
            std = jf.standard(text.decode('utf-8'))
        except (ValueError, RecursionError) as e:
            c.violation('invalid-json', 'value %s is serialized as %s, which is not valid JSON: %s' % (common.show(f), common.show(text), e))
            return
        d = jf.differ(v, std, True)
        if d:
            c.violation('stringify', 'value %s is serialized as %s, which a standard parser reads differently: %s' % (common.show(f), common.show(text), d))
        back, _ = jf.parse(r[2])
        d = jf.differ(v, back, True)
        if d:
            c.violation('round', 'value %s comes back different from %s: %s' % (common.show(f), common.show(text), d))
        try:
            d = jf.differ(jf.standard(r[3].decode('utf-8')), std, True)
        except (ValueError, RecursionError) as e:
            d = str(e)
        if d:
            c.violation('round2', 'the value read from %s is serialized differently: %s' % (common.show(text), d))
        c.count('round_trips')
        c.count('nodes', jf.size(v))
    pure.run(c, exe, [(['jround', jf.form(v)], v) for v in vals], jround)

    # 2. parse: any standard text
    rng = random.Random('%s/t' % c.seed)
    texts = ['0', '-0', '1', '-1', '2147483647', '-2147483648', '0.0', '-0.0', '1e0', '1E+2', '1e-2', '0e0', '0E5', '123.456e1', '1.5E+3', '[]', '{}', '[ ]', '{ }', '[\n]', '{\t}', '""', '" "', '"\\u0000"', '"\\ud83d\\ude00"', '"\\/"', '"\\\\"', '["\\\\"]', '["\\\\", "\\\\"]', '{"a":"\\\\","b":"\\\\\\""}', '["]","["]', '{"{":"}","}":"{"}', '{"a,b":1,"c:d":2}', '{":":":"}', '[",",","]', '[[],[],[[]]]', '{"a":{},"b":[],"c":{"d":{}}}', 'true', 'false', 'null', ' true ', '\nnull\n', '[true,false,null]', '[1 , 2]', '{"a" : 1 , "b" : 2}', '{"a":1,"a":2}', '"\x7f"', '["a" ]', '[ "a"]', '{"true":true,"null":null}', '"true"', '"null"', '"1"', '["e","te","fe"]', '[-1,-2.5]', '[1e5,1E5,-1e-5]', '{"a":[{"b":[{"c":[1]}]}]}']
    for n in (1, 10, 100, 499):
        texts += ['[' * n + ']' * n, '{"a":' * n + '1' + '}' * n, '[ ' * n + '"]"' + ' ]' * n, '[{"]":' * (n // 2) + '[]' + '}]' * (n // 2)]
    while len(texts) < c.scale(50000, 400000):
        v = jf.value(rng, rng.choice([0, 1, 2, 3, 5]), rng.choice([2, 4, 10]))
        t = jf.write(rng, v, rng.choice([0, 0.1, 0.5, 1]), rng.choice([0, 0, 0.1, 1]))
        if rng.random() < 0.3:
            t = rng.choice([' ', '\n', '\t\t', '\r\n']) + t + rng.choice(['', ' ', '\r\n'])
        texts.append(t)

    def jparse(args, r, v):
        t = args[1]
        c.case(t, common.show(t, 60) if len(t) > 20 else None)
        if r[0] != b'K':
            c.violation('parse-error', 'valid JSON text %s is refused: %s' % (common.show(t), common.show(r[1] if len(r) > 1 else b'')))
            return
        got, _ = jf.parse(r[1])
        d = jf.differ(v, got, False)
        if d:
            c.violation('parse', 'JSON text %s is parsed differently: %s' % (common.show(t), d))
        want = {'u': '000000', 'n': '000000', 't': '100000', 'f': '100000', 'i': '010000', 'd': '001000', 's': '000100', 'a': '000010', 'm': '000001'}[v[0]]
        if r[2].decode() != want:
            c.violation('access', 'accessors of the value of %s: %s instead of %s' % (common.show(t), r[2].decode(), want))
        c.count('parsed_texts')
        if '\\u' in t:
            c.count('texts_with_unicode_escapes')
    calls = []
    for t in texts:
        v = jf.standard(t)
        calls.append((['jparse', t], v))
    pure.run(c, exe, calls, jparse)
    c.require('round_trips', 15000)
    c.require('nodes', 60000)
    c.require('parsed_texts', 15000)
    c.require('texts_with_unicode_escapes', 2000)
