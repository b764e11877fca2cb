"""C35: cookies."""
import email.utils, random, time
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: generated Cookie headers and operation sequences on cookie jars (with copies and moves between them) built with ASan+UBSan and library assertions; every observation compared with a reference jar, Set-Cookie values parsed by an independent reading of RFC 6265'
NOTE = 'Cookies of a request have non-empty names (unique regardless of case) and values and are separated by "; ". Names are case-insensitive and may be reported in any case. Deleting concerns cookies that are in the jar.'

VALCH = "abcXYZ019!#$%&'()*+-./:<=>?@[]^_`{|}~"
NAMECH = "abcXYZ019!#$%&'*+-.^_`|~"


def word(rng, alpha, lo, hi):
    return ''.join(rng.choice(alpha) for _ in range(rng.randrange(lo, hi + 1)))


def anycase(rng, s):
    return ''.join(rng.choice([x.lower(), x.upper()]) for x in s)


def value(rng):
    k = rng.random()
    if k < 0.1:
        return '"' + word(rng, VALCH, 0, 6) + '"'
    if k < 0.2:
        return rng.choice(['=', 'a=b=c', '==', 'base64==', 'a b', 'x,y', 'é', 'v' * 3000, '1', '{"a":1}'])
    return word(rng, VALCH, 1, 12)


def name(rng):
    return rng.choice(['sid', 'SID', 'Session-Id', 'theme', 'a', 'A', '__Host-x', 'x_1']) if rng.random() < 0.6 else word(rng, NAMECH, 1, 8)


PROPS = [('secure', None), ('HttpOnly', None), ('Path', '/'), ('domain', 'example.com'), ('expires', '23 Oct 2077 08:28:00 GMT'), ('Expires', 'Wed, 21 Oct 2099 07:28:00 GMT'), ('Max-Age', '3600'), ('SameSite', 'Lax'), ('Path', '/a=b')]


def script(rng):
    regs = [({}, {}) for _ in range(4)]
    a, want = ['cookies'], []
    names = [name(rng) for _ in range(rng.choice([1, 3, 6]))]
    for _ in range(rng.choice([4, 12, 40])):
        op = rng.choice(['parse', 'request', 'set', 'set', 'set', 'setp', 'setp', 'del', 'get', 'get', 'has', 'entries', 'size', 'serialize', 'response', '=copy', '=move', '=cctor', '=mctor'])
        if op.startswith('='):
            d, s = rng.randrange(4), rng.randrange(4)
            if d == s and op in ('=move', '=mctor'):
                continue
            a += [op, d, s]
            m = (dict(regs[s][0]), dict(regs[s][1]))
            if op in ('=move', '=mctor'):
                regs[s] = ({}, {})
            regs[d] = m
            want.append(('none', None))
            continue
        i = rng.randrange(4)
        jar, queue = regs[i]
        a += [op, i]
        n = rng.choice(names) if rng.random() < 0.8 else name(rng)
        ln = n.lower()
        w = ('none', None)
        if op in ('parse', 'request'):
            d = {}
            for _ in range(rng.choice([0, 1, 2, 5])):
                k = rng.choice(names) if rng.random() < 0.6 else name(rng)
                if k.lower() not in {x.lower() for x in d}:
                    d[k] = value(rng)
            a.append('; '.join(k + '=' + v for k, v in d.items()))
            regs[i] = ({k.lower(): v for k, v in d.items()}, {})
        elif op == 'set':
            v = value(rng)
            a += [n, v]
            jar[ln] = v
            queue[ln] = (v, [])
        elif op == 'setp':
            v = value(rng)
            ps = rng.sample(PROPS, rng.randrange(4))
            a += [n, v, len(ps)]
            for k, x in ps:
                a += [k, '\0' if x is None else x]
            jar[ln] = v
            queue[ln] = (v, ps)
        elif op == 'del':
            a.append(n)
            if ln in jar:
                del jar[ln]
                queue[ln] = None
        elif op == 'get':
            n = anycase(rng, n)
            a.append(n)
            w = ('list', [jar.get(ln, '')])
        elif op == 'has':
            n = anycase(rng, n)
            a.append(n)
            w = ('list', ['1' if ln in jar else '0'])
        elif op == 'entries':
            w = ('entries', dict(jar))
        elif op == 'size':
            w = ('list', [str(len(jar))])
        else:
            w = ('setcookie', dict(queue))
        want.append(w)
    return a, want


def setcookie_problem(lines, queue):
    seen = {}
    for l in lines:
        parts = l.split('; ')
        k, sep, v = parts[0].partition('=')
        attrs = [tuple(p.split('=', 1)) if '=' in p else (p, None) for p in parts[1:]]
        if not sep:
            return 'no name=value pair in %r' % l
        if k.lower() in seen:
            return 'more than one Set-Cookie for %r' % k
        seen[k.lower()] = (v, attrs)
    if set(seen) != set(queue):
        return 'Set-Cookie for %r, expected for %r' % (sorted(seen), sorted(queue))
    for k, q in queue.items():
        v, attrs = seen[k]
        if q is None:
            past = False
            for x, y in attrs:
                if x.lower() == 'expires' and y:
                    d = email.utils.parsedate_tz(y)
                    past |= bool(d) and email.utils.mktime_tz(d) < time.time()
                if x.lower() == 'max-age' and y and y.lstrip('-').isdigit() and int(y) <= 0:
                    past = True
            if not past:
                return 'deleted cookie %r is sent as %r, which does not expire it' % (k, seen[k])
        elif v != q[0]:
            return 'cookie %r is sent with value %r instead of %r' % (k, v, q[0])
        elif [(x.lower(), y) for x, y in attrs] != [(x.lower(), y) for x, y in q[1]]:
            return 'cookie %r is sent with attributes %r instead of %r' % (k, attrs, q[1])
    return None


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'an operation sequence on cookie jars, or a Cookie header or Set-Cookie list, identified by its content'
    calls = [script(random.Random('%s/%d' % (c.seed, i))) for i in range(c.scale(6000, 80000))]

    def judge(args, r, want):
        if r[0] != b'K':
            c.violation('exception', 'operations threw %r' % r[1:])
            return
        c.case(repr(args), common.show(args, 100))
        for n, (x, (kind, w)) in enumerate(zip(r[1:], want)):
            st, l = pure.step(x)
            l = [y.decode('utf8') for y in l]
            c.count('steps')
            if st != 'K':
                c.violation('step-exception', 'step %d of %s threw %r' % (n, common.show(args, 1500), l))
                return
            bad = None
            if kind == 'entries':
                g = {k.lower(): v for k, v in zip(l[::2], l[1::2])}
                bad = g != w and 'entries %r instead of %r' % (g, w)
            elif kind == 'list':
                bad = l != w and '%r instead of %r' % (l, w)
            elif kind == 'setcookie':
                bad = setcookie_problem(l, w)
                c.count('setcookie_lists')
            if kind != 'none':
                c.count('observations')
            if bad:
                c.violation(kind, 'step %d of %s: %s' % (n, common.show(args, 1500), bad), script=repr(args))
                return
    pure.run(c, exe, calls, judge)
    lists = []
    for i in range(c.scale(1000, 10000)):
        rng = random.Random('%s/l%d' % (c.seed, i))
        kv = [(name(rng), value(rng)) for _ in range(rng.randrange(1, 4))]
        lists.append((['setcookies'] + [x for y in kv for x in y], kv))

    def jlist(args, r, kv):
        c.case(repr(args))
        c.count('response_lists')
        if [x.decode('utf8') for x in r[1:]] != ['%s=%s' % y for y in kv]:
            c.violation('response-list', 'cookies %r of a response give %r' % (kv, r[1:]))
    pure.run(c, exe, lists, jlist)
    # arbitrary Cookie headers
    junk = []
    for i in range(c.scale(5000, 80000)):
        rng = random.Random('%s/j%d' % (c.seed, i))
        s = ''.join(rng.choice(['=', ';', '; ', ' ', 'a', 'B', '\0', '\n', ',', '"', 'é', '==', ';;', 'k=v', '; =', '=;']) for _ in range(rng.randrange(10)))
        junk.append((['cookies', 'parse', 0, s, 'entries', 0, 'size', 0, 'serialize', 0], None))
    pure.run(c, exe, junk, lambda a, r, x: c.count('arbitrary_headers'))
    c.require('observations', 15000)
    c.require('setcookie_lists', 3000)
