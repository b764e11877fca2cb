"""C17: the static server never serves anything outside of its root."""
import itertools, os, random, socket
from vlib import build, srv, pure
from vlib.par import parallel
from vlib.tree import Tree

TECHNIQUE = 'runtime monitoring: hostile and exhaustive short request paths against the instrumented static file server, called directly and over HTTP, inside a scratch tree full of canary files; every successful response is matched against the contents of the files under the root'
NOTE = 'Every file inside and around the root has unique content. Links inside the root are followed, as the property is about paths.'

SEG = [b'..', b'..', b'..', b'..', b'.', b'', b'...', b'....', b'a', b'a', b'root', b'root2', b'secret.txt', b'index.html', b'page.html', b'secret', b'etc', b'passwd', b'sib', b'%2e%2e', b'%2e.', b'.%2e', b'%252e%252e', b'..%2f', b'..%5c', b'..;', b'.. ', b' ..',
       b'..\0', b'\0..', b'.\0.', b'..%00', b'x..', b'..x', b'.hid', b'.dot', b'~', b'C:', b'\xc0\xae\xc0\xae', b'\xe2\x80\xa5', b'\xff', b'rootsecret', b'noext', b'..\r', b'..\n', b'.\t.', b'%c0%ae%c0%ae', b'..?', b'..#', b'w', b'top']
SEPS = [b'/', b'/', b'/', b'/', b'\\', b'//', b'\\\\', b'/\\', b'\\/', b'/./', b'%2f', b'%5c', b'///', b'./', b'']


def gen(rng, t):
    k = rng.random()
    if k < 0.1:
        # a true path to an outside file, approached from inside
        target = rng.choice(list(t.outside)).encode()
        start = rng.choice([b'', b'a', b'a/a', b'nope', b'root', b'dir.d', b'a/b.txt', b'index.html'])
        rel = os.path.relpath(target, t.root.encode() + (b'/' + start if start else b''))
        p = (b'/' + start if start else b'') + b'/' + rel
        if rng.random() < 0.5:
            p = p.replace(b'../', rng.choice([b'..\\', b'.../', b'..//', b'....//', b'..././', b'.\\./', b'..\\/', b'.././', b'..\0/', b'%2e%2e/', b'..%2f', b'....\\/', b'..../', b'.../...//', b'./../']))
        return p
    if k < 0.15:
        return rng.choice([b'', b'/', b'/']) + rng.choice(list(t.outside)).encode()
    if k < 0.2:
        return rng.choice([b'/etc/passwd', b'//etc/passwd', b'\\etc\\passwd', b'file:///etc/passwd', b'/../../../../../../../../../../../../etc/passwd', b'../' * 40 + b'etc/passwd', b'..\\' * 40 + b'etc\\passwd', b'/..' * 40 + b'/etc/passwd', b'/./' * 30 + b'../' * 30 + b'etc/passwd'])
    p = rng.choice([b'/', b'/', b'/', b'', b'\\', b'//', b'.', b'..'])
    for _ in range(rng.randrange(1, 9)):
        p += rng.choice(SEG) + rng.choice(SEPS)
    if rng.random() < 0.5:
        p += rng.choice([b'index.html', b'secret.txt', b'secret', b'', b'etc/passwd', b'page.html'])
    if rng.random() < 0.1 and p:
        i = rng.randrange(len(p))
        p = p[:i] + bytes([rng.randrange(256)]) + p[i + 1:]
    return p


def run(c):
    c.rule = 'a request path that a server joining it to its root would have turned into an existing file outside of the root, or that was answered with a file of the root'
    t = Tree()
    try:
        work(c, t)
    finally:
        t.close()


def judge_one(c, t, how, path, code, body):
    esc = t.naive(path)
    if code == 200:
        c.count('served_inside_files')
        if body not in t.contents:
            leak = [p for p, d in t.outside.items() if d == body]
            c.violation('escape:' + how, 'path %r was answered with %s (%r)' % (path, 'the outside file ' + os.path.relpath(leak[0], t.base) if leak else 'content of no file under the root', body[:80]), path=path)
    else:
        if not 400 <= code < 600:
            c.violation('status:' + how, 'path %r was answered with status %d' % (path, code), path=path)
        if b'OUT!' in body:
            c.violation('leak:' + how, 'the error response for path %r has content of an outside file' % path, path=path)
    if esc:
        c.count('naively_escaping_paths')
    c.case((path if esc or code == 200 else None), {'path': repr(path[:80]), 'status': code, 'via': how} if esc else None)


def work(c, t):
    exes = build.build('asan', ['pure', 'server'])
    roots = [t.root, t.root + '/', 'root', './root', '../top/root/', t.root + '/a/..']
    calls = []

    def add(root, paths):
        for i in range(0, len(paths), 200):
            calls.append((['static', root] + paths[i:i + 200], paths[i:i + 200]))
    alpha = [b'.', b'/', b'\\', b'a']
    n = c.scale(8, 9)
    ex = [b''.join(x) for k in range(0, n + 1) for x in itertools.product(alpha, repeat=k)]
    ex += [b'/' + b''.join(x) for k in range(1, c.scale(5, 6)) for x in itertools.product([b'..', b'/', b'\\', b'index.html', b'secret', b'\0', b'a', b'.'], repeat=k)]
    c.count('exhaustive_paths', len(ex))
    add(t.root, ex)
    for i in range(c.scale(300, 3000)):
        rng = random.Random('%s/%d' % (c.seed, i))
        add(roots[i % len(roots)], [gen(rng, t) for _ in range(200)])

    def judge(args, r, paths):
        if r[0] != b'K':
            c.violation('exception', 'the static server could not be used with root %r: %r' % (args[1], r[1:]))
            return
        for path, x in zip(paths, r[1:]):
            st, ct, body, _ = pure.unpack(x)
            judge_one(c, t, 'direct', path, int(st), body)
    pure.run(c, exes['pure'], calls, judge, cwd=t.top)
    s = srv.Server(exes['server'], static=t.root, maxconn=200)

    def http(i):
        rng = random.Random('%s/h%d' % (c.seed, i))
        conn = None
        for k in range(10):
            path = gen(rng, t)
            path = path.replace(b' ', b'').replace(b'\r', b'').replace(b'\n', b'').split(b'?')[0].split(b'#')[0]
            path = path if path.startswith(b'/') else b'/' + path
            if rng.random() < 0.2:
                target = b'http://h' + path
            else:
                target = path
            if conn is None:
                conn = srv.Conn(s.port)
            try:
                conn.send(srv.req(rng.choice(['GET', 'GET', 'POST']), target))
                r = conn.response()
            except (srv.BadResponse, socket.timeout, OSError) as e:
                c.violation('http-response', 'no well-formed response for path %r: %r' % (path, e), path=path)
                return True
            if r is None:
                c.count('http_closed')
                conn = None
                continue
            c.count('http_requests')
            judge_one(c, t, 'http', path, r.code, r.body)
            if r.get('connection') == 'close':
                conn.close()
                conn = None
        if conn is not None:
            conn.close()
        return False
    parallel(c, range(c.scale(150, 4000)), http, 8, s.alive)
    s.stop(c, what='static paths')
    c.require('naively_escaping_paths', 500)
    c.require('served_inside_files', 500)
    if not c.viol:
        c.require('http_requests', 1000)
