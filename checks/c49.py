"""C49: HTTP value types hold what they are given."""
import random
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: generated sequences of constructions, assignments, copies, moves and changes of bodies, statuses, methods, requests, responses and handler results built with ASan+UBSan and library assertions; every observation compared with a model of plain values'
NOTE = 'The reason phrase of a standard status is compared with those of RFC 9110 and earlier HTTP specifications without regard to case, spaces and hyphens. A null pointer as text is judged only for memory errors and where it makes a new body. Header names are compared without regard to case.'

# RFC 9110, 4918, 6585, 7725 and the phrases of their predecessors
PHRASES = {100: 'Continue', 101: 'Switching Protocols', 102: 'Processing', 103: 'Early Hints', 200: 'OK', 201: 'Created', 202: 'Accepted', 203: 'Non-Authoritative Information', 204: 'No Content', 205: 'Reset Content', 206: 'Partial Content',
           207: 'Multi-Status', 208: 'Already Reported', 226: 'IM Used', 300: 'Multiple Choices', 301: 'Moved Permanently', 302: 'Found', 303: 'See Other', 304: 'Not Modified', 305: 'Use Proxy', 307: 'Temporary Redirect', 308: 'Permanent Redirect',
           400: 'Bad Request', 401: 'Unauthorized', 402: 'Payment Required', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed', 406: 'Not Acceptable', 407: 'Proxy Authentication Required',
           408: 'Request Timeout', 409: 'Conflict', 410: 'Gone', 411: 'Length Required', 412: 'Precondition Failed', 413: 'Payload Too Large|Content Too Large|Request Entity Too Large', 414: 'URI Too Long|Request-URI Too Long',
           415: 'Unsupported Media Type', 416: 'Range Not Satisfiable|Requested Range Not Satisfiable', 417: 'Expectation Failed', 418: "I'm a teapot", 421: 'Misdirected Request', 422: 'Unprocessable Entity|Unprocessable Content', 423: 'Locked',
           424: 'Failed Dependency', 425: 'Too Early', 426: 'Upgrade Required', 428: 'Precondition Required', 429: 'Too Many Requests', 431: 'Request Header Fields Too Large', 451: 'Unavailable For Legal Reasons',
           500: 'Internal Server Error', 501: 'Not Implemented', 502: 'Bad Gateway', 503: 'Service Unavailable', 504: 'Gateway Timeout', 505: 'HTTP Version Not Supported', 506: 'Variant Also Negotiates', 507: 'Insufficient Storage',
           508: 'Loop Detected', 510: 'Not Extended', 511: 'Network Authentication Required'}
# those every user of the library relies on
COMMON = [100, 101, 200, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 308] + list(range(400, 418)) + [422, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 511]
UNKNOWN = [0, 1, 99, 199, 299, 399, 499, 599, 600, 999, 1000, 2000, 65736, 4294967295, 4294967496]
METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'HEAD', 'OPTIONS', 'TRACE', 'PATCH', 'CONNECT']
TYPES = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5}     # class -> Status::Type
DATA = ['', 'x', 'text', 'a\0b', '\0', '\xff\x80', 'é漢', 'line\r\nline', ' spaced ', '0' * 5000, 'null', '\x1f\x8b']
# and their host, path, parameters and fragment
URLS = {'/a/b': '|/a/b||', '/p?x=1': '|/p|x=1|', 'http://h/q': 'h|/q||', 'https://u:p@h:81/x?y=z#f': 'h:81|/x|y=z|f'}
HN = ['a', 'A', 'content-type', 'X-Y', 'set-cookie']
HV = ['', 'v', 'w, x', 'é', 'x' * 300]


def lat(s):
    return s if isinstance(s, bytes) else s.encode('latin1', 'ignore') if all(ord(x) < 256 for x in s) else s.encode()


def norm(t):
    return t.lower().replace(' ', '').replace('-', '').replace('_', '')


class Model:
    def __init__(self):
        self.b = [b''] * 4
        self.s = [(200, 'OK')] * 4
        self.m = ['GET'] * 4
        # None: a default URL, whose text is not judged
        self.q = [dict(url=None, m='GET', h={}, b=b'') for _ in range(4)]
        self.r = [dict(s=(200, 'OK'), h={}, b=b'') for _ in range(4)]
        self.h = [None] * 4
        self.new = dict(b=lambda: b'', s=lambda: (200, 'OK'), m=lambda: 'GET', q=lambda: dict(url=None, m='GET', h={}, b=b''), r=lambda: dict(s=(200, 'OK'), h={}, b=b''), h=lambda: None)


def copy(x):
    if isinstance(x, dict):
        return {k: ({a: list(b) for a, b in v.items()} if isinstance(v, dict) else v) for k, v in x.items()}
    return x


def hdrs(rng):
    n = rng.choice([0, 1, 3])
    kv = [(rng.choice(HN), rng.choice(HV)) for _ in range(n)]
    d = {}
    for k, v in kv:
        d.setdefault(k.lower(), []).append(v.encode())
    return [n] + [x for p in kv for x in p], d


def method_text(rng):
    name = rng.choice(METHODS)
    t = rng.choice([name, name.lower(), name.title(), ' ' + name, name + '\t', '\t %s  ' % name.lower(), ''.join(rng.choice([x, x.lower()]) for x in name)])
    return t, name


def bad_method(rng):
    return rng.choice(['', ' ', 'DEL', 'GETT', 'GE', 'G ET', 'FETCH', 'GET\0', 'GÉT', 'BREW', 'POST PUT', '0', 'Methods::GET', 'getpost', 'X' * 1000])


def script(rng, c):
    M = Model()
    a, want = ['values'], []

    def w(kind, x=None):
        want.append((kind, x))
    for _ in range(rng.choice([5, 20, 60])):
        T = rng.choice('bbsmqqrrrh')
        R = getattr(M, T)
        i, j, k = rng.randrange(4), rng.randrange(4), rng.randrange(4)
        x = rng.random()
        if x < 0.3:
            op = rng.choice(['=copy', '=move', '=cctor', '=mctor'])
            if i == j and 'm' in op[1:3]:
                continue
            a += [T, op, i, j]
            v = copy(R[j])
            if op in ('=move', '=mctor'):
                R[j] = M.new[T]()
            R[i] = v
            w('none')
        elif x < 0.6:
            a += [T, 'dump', i]
            w('dump ' + T, copy(R[i]))
        elif T == 'b':
            op = rng.choice(['char', 'string', 'bytes', 'char=', 'string=', 'bytes=', 'null', 'default'])
            a += [T, op, i]
            d = b''
            if op not in ('null', 'default'):
                d = rng.choice(DATA).encode() if rng.random() < 0.7 else bytes(rng.randrange(256) for _ in range(rng.choice([3, 100])))
                a.append(d)
                if 'char' in op:
                    d = d.split(b'\0')[0]
            R[i] = d
            w('none')
        elif T == 's':
            op = rng.choice(['code', 'code=', 'text', 'default', 'code', 'unknown'])
            if op == 'unknown':
                a += [T, rng.choice(['code', 'code=']), i, rng.choice(UNKNOWN[:-1]) if rng.random() < 0.5 else rng.choice([x for x in range(0, 1100) if x not in PHRASES and x not in (306,)])]
                w('refused')
            elif op == 'default':
                a += [T, op, i]
                R[i] = (200, 'OK')
                w('none')
            elif op == 'text':
                R[i] = (rng.choice(list(PHRASES) + [299, 599, 450]), rng.choice(['', 'Fine', 'Not Quite', 'x' * 100, 'é']))
                a += [T, op, i] + list(R[i])
                w('none')
            else:
                code = rng.choice(COMMON)
                a += [T, op, i, code]
                R[i] = (code, None)
                w('none')
        elif T == 'm':
            op = rng.choice(['string', 'char', 'string=', 'default', 'bad', 'eq', 'eq'])
            if op == 'eq':
                t = rng.choice([R[i], R[i].lower(), R[i].title(), rng.choice(METHODS), rng.choice(METHODS).lower(), R[i] + 'X', R[i][:-1], '', 'DEL'])
                a += [T, op, i, t, j]
                e = t.upper() == R[i]
                w('values', [b'%d' % e, b'%d' % e, b'%d' % (R[i] == R[j])])
            elif op == 'bad':
                t = bad_method(rng)
                a += [T, 'string', i, t]
                w('refused')
            elif op == 'default':
                a += [T, op, i]
                R[i] = 'GET'
                w('none')
            else:
                t, R[i] = method_text(rng)
                a += [T, op, i, t]
                w('none')
        elif T in 'qr' and x < 0.75:
            if T == 'q':
                op = rng.choice(['header', 'body', 'method'])
            else:
                op = rng.choice(['header', 'body', 'status=', 'code='])
            a += [T, op, i]
            if op == 'header':
                n, v = rng.choice(HN), rng.choice(HV)
                a += [n, v]
                R[i]['h'][n.lower()] = [v.encode()]
            elif op == 'body':
                a.append(j)
                R[i]['b'] = M.b[j]
            elif op == 'method':
                a.append(j)
                R[i]['m'] = M.m[j]
            elif op == 'status=':
                a.append(j)
                R[i]['s'] = M.s[j]
            else:
                code = rng.choice(COMMON)
                a.append(code)
                R[i]['s'] = (code, None)
            w('none')
        elif T == 'q':
            op = rng.choice(['url', 'method+', 'headers+', 'mbody+', 'all+'])
            u = rng.choice(sorted(URLS))
            ha, hd = hdrs(rng)
            a += [T, op, i, u, j, k] + ha
            R[i] = dict(url=u, m=M.m[j] if op in ('method+', 'mbody+', 'all+') else 'GET', h=hd if op in ('headers+', 'all+') else {}, b=M.b[k] if op in ('mbody+', 'all+') else b'')
            w('none')
        elif T == 'r':
            op = rng.choice(['status', 'headers+', 'body+', 'all+', 'bodyonly', 'textonly'])
            ha, hd = hdrs(rng)
            a += [T, op, i, j, k] + ha
            R[i] = dict(s=(200, 'OK') if 'only' in op else M.s[j], h=hd if op in ('headers+', 'all+') else {}, b=M.b[k] if op not in ('status', 'headers+') else b'')
            w('none')
        else:
            op = rng.choice(['response', 'string', 'char', 'bytes', 'none'])
            a += [T, op, i]
            if op == 'response':
                a.append(j)
                R[i] = copy(M.r[j])
            elif op == 'none':
                R[i] = None
            else:
                d = rng.choice(DATA).encode()
                a.append(d)
                R[i] = dict(s=(200, 'OK'), h={b'content-type': [b'application/octet-stream']} if op == 'bytes' else None, b=d.split(b'\0')[0] if op == 'char' else d)
                if R[i]['h']:
                    R[i]['h'] = {'content-type': [b'application/octet-stream']}
            w('none')
    for T in 'bsmqrh':
        for i in range(4):
            a += [T, 'dump', i]
            want.append(('dump ' + T, copy(getattr(M, T)[i])))
    return a, want


def body_is(got, d):
    l = got if isinstance(got, list) else pure.unpack(got)
    return l == [d, d, b'%d' % len(d), d]


def status_is(got, s):
    l = got if isinstance(got, list) else pure.unpack(got)
    code, text = s
    if int(l[0]) != code:
        return False
    if text is None:
        if norm(l[1].decode('latin1')) not in [norm(x) for x in PHRASES[code].split('|')]:
            return False
    elif l[1] != text.encode():
        return False
    return code // 100 not in TYPES or int(l[2]) == TYPES[code // 100]


def method_is(got, m):
    l = got if isinstance(got, list) else pure.unpack(got)
    return l == [m.encode(), m.encode(), b'%d' % METHODS.index(m)]


def headers_are(got, h):
    l = pure.unpack(got)
    if h is None:       # any headers the library adds to plain text
        return all(l[i].lower() == b'content-type' for i in range(0, len(l), 2))
    d = {}
    for i in range(0, len(l), 2):
        d.setdefault(l[i].decode('latin1').lower(), []).append(l[i + 1])
    return d == h


def matches(kind, got, x):
    T = kind[-1]
    if T == 'b':
        return body_is(got, x)
    if T == 's':
        return status_is(got, x)
    if T == 'm':
        return method_is(got, x)
    if T == 'q':
        return (x['url'] is None or got[0].replace(b'#', b'').replace(b'?', b'') == URLS[x['url']].encode()) and method_is(got[1], x['m']) and headers_are(got[2], x['h']) and body_is(got[3], x['b'])
    if T == 'h' and x is None:
        return got == [b'none']
    if T == 'h' and len(got) == 1:
        return False
    return status_is(got[0], x['s']) and headers_are(got[1], x['h']) and body_is(got[2], x['b'])


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'a value (body, status, method, request, response or handler result) compared with the model after a sequence of constructions, copies, moves and changes'
    calls = []
    for i in range(c.scale(5000, 100000)):
        a, want = script(random.Random('%s/%d' % (c.seed, i)), c)
        calls.append((a, want))
    # every standard status and method, and every other three-digit code
    a, want = ['values'], []
    for code in range(0, 1100):
        if code in COMMON:
            a += ['s', 'code', 0, code, 's', 'dump', 0]
            want += [('none', None), ('dump s', (code, None))]
        elif code not in PHRASES and code != 306:
            a += ['s', 'code', 0, code]
            want += [('refused', None)]
    for code in UNKNOWN[:-1]:
        a += ['s', 'code', 0, code]
        want += [('refused', None)]
    for m in METHODS:
        a += ['m', 'string', 0, m, 'm', 'dump', 0]
        want += [('none', None), ('dump m', m)]
    calls.append((a, want))

    def judge(args, r, want):
        if r[0] != b'K':
            c.violation('exception', '%s threw %r' % (common.show(args), r[1:]))
            return
        got = r[1:]
        if len(got) != len(want):
            raise common.HarnessError('%d results for %d steps' % (len(got), len(want)))
        for n, (g, (kind, x)) in enumerate(zip(got, want)):
            st, l = pure.step(g)
            if kind == 'refused':
                ok = st == 'E'
                c.count('refused')
            elif kind == 'none':
                ok = st == 'K'
            elif kind == 'values':
                ok = st == 'K' and l == x
                c.count('comparisons')
            else:
                ok = st == 'K' and matches(kind, l, x)
                c.count('values_of_' + kind[-1])
                c.case('%s/%r' % (kind, x))
            if not ok:
                c.violation('values:' + kind.replace(' ', '-'), 'step %d (%s %s) of %s gave %s %s' % (n, kind, common.show(repr(x), 300), common.show(args[:200], 1200), st, common.show(repr(l), 300)), args=repr(args)[:6000])
                return
    pure.run(c, exe, calls, judge)
    pure.leaks(c, exe, [x[0] for x in calls[:400]])
    for k in 'bsmqrh':
        c.require('values_of_' + k, 5000)
    c.require('refused', 1000)
    c.require('comparisons', 500)
