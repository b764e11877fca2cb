"""C47: the library from several threads."""
import base64, gzip, os, random, shutil, struct, tempfile, zlib
from vlib import build, pure, common, blobs, jsonform as jf

TECHNIQUE = 'runtime monitoring: the same calls made by several threads at once (each on its own objects, or all reading one shared object) under TSan and ASan+UBSan, in fresh processes so that first uses coincide; every outcome compared with that of the same call made alone'
NOTE = 'Shared objects are only read (the key-value store, the file system and log output, which may be changed concurrently, have properties of their own); the outcome of single calls is judged by the other properties.'

WORDS = ['', 'a', 'Content-Type', ' padded\t', 'a,b,,c', 'two words', 'é漢', '\0x', '{{ name }}', 'x' * 300, '%41%2f', 'A-b_c', 'key=value; Path=/', '/../x', '"quoted"', '\r\n']


HEAVY = ('zc', 'bc', 'gzs', 'gzd', 'static', 'zd', 'bd')


def calls(rng, root):
    out = plain(rng, root)
    rng.shuffle(out)
    if rng.random() < 0.3:
        # a few calls of one function, over and over
        ops = {}
        for _ in range(6):
            for x in plain(rng, root):
                ops.setdefault(x[0], []).append(x)
        return [['many', 40 if op not in HEAVY else 3] + [pure.enc(x) for x in rng.sample(l, min(4, len(l)))] for op, l in rng.sample(sorted(ops.items()), 6)]
    return out[:rng.choice([6, 20, len(out)])]


def plain(rng, root):
    t = lambda: rng.choice(WORDS) + rng.choice(WORDS)
    n = rng.choice([1, 10, 300, 5000])
    blob = blobs.blob(rng, n)
    gz = gzip.compress(blob, mtime=0)
    js = jf.value(rng)
    out = [[k, t()] for k in ('lower', 'upper', 'title', 'trim')]
    out += [['splits', t(), rng.choice([',', '\r\n', ' ', ''])], ['splitc', t(), ','], ['join', ', ', t(), t(), t()], ['replaceall', t() * 5, 'a', t()], ['includes', t(), 'a'], ['ends', t(), 'c'], ['starts', t(), 'a']]
    out += [['b64e', blob], ['b64d', base64.b64encode(blob)], ['b64d', t()], ['hexe', blob], ['hexd', blob.hex()], ['hexd', t()], ['urie', t()], ['urid', t()]]
    out += [['sha1', 'u', blob, 't', t(), 'd'], ['auth', 'Basic ' + base64.b64encode(b'user:pass').decode()], ['auth', t()]]
    out += [['url', rng.choice(['http://u:p@h:1/a?b=c#d', '/a?x=1', 'nonsense', 'https://[::1]:8/x'])], ['href', 'http://h:80/a?b=c&b=d'], ['params', '?a=1&b=%20&a=2', 'a', 'c']]
    out += [['method', rng.choice(['get', 'POST', 'nope', 'head'])], ['cookies', 'parse', 0, 'a=1; b=2; ' + t(), 'get', 0, 'a', 'set', 0, 'c', t(), 'serialize', 0, 'entries', 0],
            ['kvc', 'set', 0, 'Content-Type', t(), 'append', 0, 'A', t(), 'append', 0, 'a', t(), 'all', 0, 'A', 'entries', 0, 'size', 0]]
    out += [['jstr', jf.form(js)], ['jround', jf.form(js)], ['jparse', rng.choice(['{"a":[1,2.5,"x\\u00e9",null,true]}', '[', '"\\n\\t"', '{"a":{"b":{}}}', '-1.5e3', t()])]]
    out += [['render', 'a {{ name }} {{other}} {{ ! }}' + t(), 'name', t()], ['servicepage'], ['mime', rng.choice(['.html', 'js', 'PNG', '', t()])], ['mimeext', rng.choice(['text/html', 'image/png', t()])]]
    out += [['date', rng.randrange(-1 << 32, 1 << 33)], ['swap', 'u32', struct.pack('<I', rng.randrange(1 << 32))]]
    out += [['zc', rng.choice([0, 1, 5, 9]), rng.choice([31, 15]), blob], ['zd', gz], ['zd', zlib.compress(blob)], ['zd', gz[:-3]], ['bc', rng.choice([0, 4, 9]), blob], ['bd', blob[:40]]]
    out += [['gzs', 6, 'c', blob, 'f', b'', 'r', 'c', t(), 'e'], ['gzd', 'c', gz[:len(gz) // 2], 'c', gz[len(gz) // 2:], 'd']]
    out += [['static', root, '/', '/a.txt', '/missing', '/sub', '/../a.txt', '/b.js']]
    out += [['newids', 500]]
    out += [['status', rng.choice([200, 404, 500, 101, 299])]]
    return out


def shared(rng, root):
    t = lambda: rng.choice(WORDS) + rng.choice(WORDS)
    blob = blobs.blob(rng, rng.choice([100, 5000, 140000]))
    return rng.choice([
        ['static', root, '/', '/a.txt', '/missing', '/sub', '/../a.txt', '/b.js'],
        ['json', jf.form(jf.value(rng))],
        ['jsontext', '{"a":[1,2.5,"x\\u00e9",null,true,{"%s":"y"}]}' % rng.choice('abc')],
        ['headers', 'A', t(), 'a', t(), 'content-type', t(), 'X-' + rng.choice('yz'), t()],
        ['params', '?a=1&b=%20&a=2&' + rng.choice(['c', 'd=%41'])],
        ['cookies', 'a=1; b=2; c=%d' % rng.randrange(100)],
        ['url', 'http://u:p@h:%d/a?b=c&b=d#e' % rng.randrange(1, 65536)],
        ['request', 'a=1; b=%d' % rng.randrange(100), blob],
        ['response', rng.choice([200, 404, 503]), 'v', blob],
        ['render', 'a {{ name }} {{other}} {{ name }}', 'name', t(), 'x', t()],
        ['compress', blob],
        ['date', rng.randrange(-1 << 32, 1 << 33)],
        ['shortid', rng.randrange(1 << 32)],
    ])


def run(c):
    c.rule = 'lists of random calls of every library function made by 2-8 threads at once, and 13 kinds of objects read by 2-8 threads, in fresh processes; non-trivial: distinct calls or objects whose outcomes were compared'
    exes = {v: build.build(v, ['pure'])['pure'] for v in ('tsan', 'asan')}
    tmp = tempfile.mkdtemp(prefix='c47-')
    try:
        root = tmp + '/root'
        os.makedirs(root + '/sub')
        for n, b in (('index.html', b'<p>index</p>'), ('a.txt', b'text' * 1000), ('b.js', b'1'), ('sub/index.htm', b'sub')):
            open(root + '/' + n, 'wb').write(b)
        rng = random.Random(c.seed * 47)
        for variant, exe in exes.items():
            # outcome of each call made alone
            for rnd in range(c.scale(10, 100)):
                jobs = []
                for i in range(c.scale(24, 60)):
                    threads = rng.choice([2, 3, 8])
                    if rng.random() < 0.5:
                        cl = calls(rng, root)
                        jobs.append((['par', threads] + [pure.enc(x) for x in cl], ('par', cl, threads)))
                    else:
                        s = shared(rng, root)
                        jobs.append((['shared', threads, rng.choice([3, 30]) if s[0] != 'compress' else 2] + s, ('shared', s, threads)))

                pending = []

                def judge(args, r, x):
                    kind, what, threads = x
                    if r[0] != b'K':
                        c.problem('the driver could not do %s: %s' % (common.show(args), r))
                        return
                    if kind == 'shared':
                        seen, alone = pure.unpack(r[1]), r[2]
                        c.count('shared_objects')
                        c.count('shared:' + what[0])
                        c.case('%s %s %s' % (variant, threads, common.show(what, 400)), '%s: %d threads reading one %s object agree' % (variant, threads, what[0]))
                        if seen != [alone]:
                            c.violation('shared:' + what[0], 'threads reading one object (%s) got %s, a single one gets %s' % (common.show(what, 200), common.show(seen, 400), common.show(alone, 200)))
                        return
                    for call, o in zip(what, r[1:]):
                        c.count('concurrent_calls', threads)
                        c.case('%s %s' % (variant, common.show(call, 400)), '%s: %s by %d threads at once' % (variant, common.show(call, 80), threads))
                        seen = pure.unpack(o)
                        if len(seen) != 1:
                            c.violation('call:' + call[0], 'the same call had different outcomes in %d threads: %s: %s' % (threads, common.show(call, 200), common.show(seen, 400)))
                            return
                        pending.append((call, seen[0]))
                # two processes per round and thread count: first uses of everything happen concurrently
                pure.run(c, exe, jobs, judge, workers=8, limit=60)
                if len(c.viol) > 20:
                    return

                def single(args, r, seen):
                    # an exception's text may name a path or a position, it is compared as well
                    got = [bytes(x) for x in r]
                    want = pure.unpack(seen)
                    c.count('compared_with_single_calls')
                    if got != want:
                        c.violation('alone:' + str(args[0]), 'a call made by several threads gave %s, alone it gives %s: %s' % (common.show(want, 200), common.show(got, 200), common.show(args, 200)))
                pure.run(c, exes['asan'], pending, single)
        for k in ('static', 'json', 'headers', 'url', 'request', 'response', 'render', 'compress'):
            c.require('shared:' + k, 1)
        c.require('concurrent_calls', 3000)
        c.require('shared_objects', 50)
        c.require('compared_with_single_calls', 1000)
    finally:
        shutil.rmtree(tmp)
