"""C06: failing handlers."""
import html, json, random, re, socket
from html.parser import HTMLParser
from vlib import build, srv
from vlib.par import parallel

TECHNIQUE = 'runtime monitoring: exceptions of many types and messages injected through the handler into the instrumented server; client-side oracle for the error response, handler log and liveness monitors'
NOTE = 'Messages are non-empty valid UTF-8 without NUL. The HTML page is judged by parsing it: its element structure must not depend on the message and its text must contain it.'

PIECES = ['plain', ' ', '"', "'", '\\', '\n', '\t', '\r\n', '<b>', '</div>', '<script>alert(1)</script>', '&', '&amp;', '<!--', ']]>', '{', '}', '[', ',', ':', '$', '{{svcpage_statustext}}', '{{ svcpage_message_text }}', '{{', '}}',
          '%s', 'é', '日本', '🗿', '\x01', '\x1f', '\x7f', '\\n', '\\u0041', '/', '\\"', '0', 'null']


class Shape(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.tags, self.text = [], ''

    def handle_starttag(self, t, a):
        self.tags.append('<' + t + repr(a))

    def handle_endtag(self, t):
        self.tags.append('</' + t)

    def handle_comment(self, d):
        self.tags.append('<!--')

    def handle_data(self, d):
        self.text += d


def shape(b):
    p = Shape()
    p.feed(b.decode('utf8', 'replace'))
    p.close()
    return p


def msg(rng):
    k = rng.random()
    if k < 0.1:
        return 'm' * rng.choice([1000, 20000])
    m = ''.join(rng.choice(PIECES) for _ in range(rng.randrange(1, 9)))
    return m if m.strip() else 'x' + m


REF = {}


def judge(c, r, errtype, want):
    if r is None:
        return 'no-response', 'connection closed instead of an error response'
    if r.code != 500:
        return 'status', 'status %d instead of 500' % r.code
    ct = r.get('content-type')
    if errtype == 'json':
        if 'json' not in ct:
            return 'content-type', 'content type %r for the JSON format' % ct
        try:
            d = json.loads(r.body.decode('utf8'))
        except ValueError as e:
            return 'json-invalid', 'error body is not valid JSON (%s): %r' % (e, r.body[:300])
        if not isinstance(d, dict) or want and want not in [v for v in d.values() if isinstance(v, str)]:
            return 'json-message', 'JSON error does not carry the message %r: %r' % (want, d)
    elif errtype == 'plain':
        if 'text/plain' not in ct:
            return 'content-type', 'content type %r for the plain format' % ct
        if want.encode() not in r.body:
            return 'plain-message', 'plain error does not carry the message %r: %r' % (want, r.body[:300])
    else:
        if 'text/html' not in ct:
            return 'content-type', 'content type %r for the HTML format' % ct
        p = shape(r.body)
        if 'html' not in REF:
            return 'reference', 'no reference page'
        if p.tags != REF['html']:
            return 'html-structure', 'the message %r changes the structure of the error page' % want
        norm = lambda t: t.replace('\r\n', '\n').replace('\r', '\n')
        if norm(want) not in norm(p.text):
            return 'html-message', 'HTML error page text does not contain the message %r' % want[:300]
    return None


def conversation(c, rng, port, errtype):
    conn = srv.Conn(port, timeout=30)
    hist = []
    try:
        for i in range(rng.choice([1, 2, 4, 8])):
            kind = rng.choice(['runtime', 'custom', 'lambda', 'int', 'string', 'cstr', 'badalloc', 'at', 'none', 'status', 'ok', 'ok'])
            hist.append(kind)
            if kind == 'ok':
                b = rng.randbytes(rng.randrange(0, 500))
                conn.send(srv.req('POST', '/echo/%d' % i, [], b))
                r = conn.response()
                if r is None or r.code != 200 or srv.Echo(r.body).body != b:
                    return 'next-request', 'a normal request after failing handlers was not served: %r' % hist
                c.count('normal_after_failure', int(i > 0))
                continue
            m = msg(rng)
            conn.send(srv.req(rng.choice(['POST', 'PUT']), '/throw?kind=' + kind, [], m.encode()))
            r = conn.response()
            if kind in ('runtime', 'custom', 'lambda'):
                bad = judge(c, r, errtype, m)
            else:
                bad = judge(c, r, errtype, {'badalloc': 'std::bad_alloc'}.get(kind, ''))
            if bad:
                return bad[0], '%s (handler failure kind %s, format %s, history %r)' % (bad[1], kind, errtype, hist)
            if r.get('connection') != 'keep-alive':
                return 'not-kept', 'error response to a failing handler closed the connection (%s)' % kind
            c.count('failures_' + errtype)
            c.count('kind_' + kind)
    except socket.timeout as e:
        return 'timeout', '%s; history %r' % (e, hist)
    except (OSError, srv.BadResponse, ValueError) as e:
        return 'framing', '%r; history %r' % (e, hist)
    finally:
        conn.close()


def run(c):
    exe = build.build('asan', ['server'])['server']
    c.rule = 'sequences of failing (11 kinds of failure, random messages with markup, quotes, control characters) and normal requests per connection, three error formats; non-trivial: distinct conversations judged'
    for errtype in ('html', 'json', 'plain'):
        s = srv.Server(exe, errtype=errtype, rxto=60000, txto=60000, logreq=int(errtype == 'plain'))
        if errtype == 'html':
            k = srv.Conn(s.port)
            k.send(srv.req('POST', '/throw?kind=runtime', [], b'reference'))
            REF['html'] = shape(k.response().body).tags
            k.close()

        def one(i):
            key = 'c06/%d/%s/%d' % (c.seed, errtype, i)
            res = conversation(c, random.Random(key), s.port, errtype)
            if res and res[0] == 'timeout' and s.alive():
                res = conversation(c, random.Random(key), s.port, errtype)
            if res and not s.alive():
                return True
            if res:
                c.violation('handler-failure:' + res[0], res[1], conversation=key)
            c.case(key, sample=key)
            return bool(res)
        parallel(c, range(c.scale(500, 6000)), one, alive=s.alive)
        if s.alive():
            w = srv.canary(s.port, 'x')
            if w:
                c.violation('handler-failure:canary', 'server does not serve after failing handlers: ' + w)
        s.stop(c)
    if not c.viol:
        for k in ('failures_html', 'failures_json', 'failures_plain', 'normal_after_failure', 'kind_int', 'kind_none', 'kind_status', 'kind_badalloc'):
            c.require(k, 30)
