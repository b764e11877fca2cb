"""C18: static files are served complete, fresh and correctly typed."""
import os, random, shutil, socket, tempfile, threading, time
from vlib import build, srv, pure
from vlib.par import parallel
from checks.c06 import shape

TECHNIQUE = 'runtime monitoring: generated directory trees served by the instrumented server over HTTP and by direct calls, each response compared with the file system; files replaced, removed and recreated while being requested; over-long and odd paths'
NOTE = 'Names are ordinary URL-safe ones ([A-Za-z0-9_.-], not ending in a dot) for the exactness part, arbitrary for the survival part. Files change by atomic replacement or removal. A directory path ends in a slash, or has no dot in its last segment.'

TYPES = {'html': {'text/html'}, 'htm': {'text/html'}, 'css': {'text/css'}, 'js': {'application/javascript', 'text/javascript'}, 'mjs': {'application/javascript', 'text/javascript'}, 'json': {'application/json'},
         'png': {'image/png'}, 'jpg': {'image/jpeg'}, 'jpeg': {'image/jpeg'}, 'gif': {'image/gif'}, 'svg': {'image/svg+xml'}, 'txt': {'text/plain'}, 'wasm': {'application/wasm'}, 'woff2': {'font/woff2'}, 'ttf': {'font/ttf'},
         'mp4': {'video/mp4'}, 'webm': {'video/webm'}, 'mp3': {'audio/mpeg'}, 'pdf': {'application/pdf'}, 'zip': {'application/zip'}, 'gz': {'application/gzip', 'application/x-gzip'}, 'csv': {'text/csv'}, 'webp': {'image/webp'},
         'ico': {'image/x-icon', 'image/vnd.microsoft.icon'}, 'tar': {'application/x-tar'}, 'xml': {'text/xml', 'application/xml'}}
NAMES = ['a', 'b', 'file', 'data', 'x-y', 'q_1', 'Main', 'v1.2', 'jquery.min', '0', 'zz9', 'app.bundle', 'README', 'UPPER']


def ctype_ok(path, ct):
    """path: of the served file"""
    name = os.path.basename(path)
    ext = name.rsplit('.', 1)[1].lower() if '.' in name.lstrip('.') else ''
    main = ct.split(';')[0].strip().lower()
    if ext in TYPES:
        return main in TYPES[ext]
    return ext or main == 'application/octet-stream'


def make_tree(rng, root):
    files, dirs = {}, ['']
    for _ in range(rng.randrange(3, 30)):
        d = rng.choice(dirs)
        if rng.random() < 0.3 and len(dirs) < 12:
            n = d + rng.choice(NAMES) + rng.choice(['', '', '.d', '-%d' % rng.randrange(9)]) + '/'
            if n not in dirs and n[:-1] not in files:
                dirs.append(n)
            continue
        k = rng.random()
        name = 'index.html' if k < 0.2 else 'index.htm' if k < 0.3 else rng.choice(NAMES) + rng.choice(['', '', '.' + rng.choice(list(TYPES)), '.' + rng.choice(list(TYPES)).upper(), '.' + rng.choice(list(TYPES)), '.unknownext'])
        p = d + name
        if p in files or p + '/' in dirs:
            continue
        size = rng.choice([0, 1, 10, 1000, 4096, 65535, 65536, 70000, rng.randrange(200000)])
        files[p] = (p.encode() + b'|' + rng.randbytes(size))[:size] if rng.random() < 0.7 else b'A' * size
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, b in files.items():
        with open(os.path.join(root, p), 'wb') as f:
            f.write(b)
    return files, dirs


def expect(files, dirs, path):
    """path without the leading slash -> (file, content) or None; 'unjudged' if not covered by the property"""
    if path in files:
        return path, files[path]
    last = path.rsplit('/', 1)[-1]
    if path.endswith('/') or path == '' or '.' not in last:
        d = path if path.endswith('/') or path == '' else path + '/'
        for i in ('index.html', 'index.htm'):
            if d in dirs and d + i in files:
                return d + i, files[d + i]
    elif path + '/' in dirs:
        return 'unjudged'
    if path.endswith('/') and path[:-1] in files:
        return 'unjudged'
    return None


def judge(c, how, files, dirs, path, code, ct, body):
    e = expect(files, dirs, path)
    if e == 'unjudged':
        return False
    if e is None:
        c.case('404 ' + path)
        c.count('missing')
        if code != 404:
            c.violation('not-found:' + how, 'missing path /%s was answered with %d' % (path, code))
            return True
        return False
    p, want = e
    c.count('index_pages' if p != path else 'files')
    c.case(p.encode() + b'=' + want[:200], '/%s -> %d bytes of %s, %s' % (path, len(want), p, ct))
    if code != 200 or body != want:
        c.violation('content:' + how, 'path /%s was answered with %d and %d bytes (%r), expected the %d bytes of %s' % (path, code, len(body), body[:60], len(want), p))
        return True
    if not ctype_ok(p, ct):
        c.violation('type:' + how, 'file %s was served as %r' % (p, ct))
        return True
    return False


def page_problem(ref, path, body):
    s = shape(body)
    if s.tags != ref.tags:
        return 'the requested path changes the structure of the not found page'
    return None


def run(c):
    c.rule = 'a path with a known right answer (file, index page or missing) on a generated tree'
    base = tempfile.mkdtemp(prefix='lamtree')
    try:
        work(c, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


ODD = [b'a', b'/', b'.', b'%', b'%00', b'<b>', b'"', b"'", b'&', b'<script>', b'{{svcpage_statustext}}', b'{{', b'}}', b'\xff', b'\xc3\xa9', b'\\', b'*', b':', b'|', b'~', b'+', b'x' * 300, b'\x01', b'-']


def odd_path(rng):
    k = rng.random()
    if k < 0.15:
        return b'/' + b'n' * rng.choice([254, 255, 256, 257, 1000, 4000, 4096, 5000, 8000])
    if k < 0.25:
        return b'/' + b'd/' * rng.choice([100, 1000, 2040, 2050, 3900])
    if k < 0.3:
        return b'/' + b'd' * 200 + b'/' + b'/'.join([b'e' * 250] * 20)
    return b'/' + b''.join(rng.choice(ODD) for _ in range(rng.randrange(1, 15)))


def work(c, base):
    exes = build.build('asan', ['pure', 'server'])
    roots = []
    for i in range(c.scale(24, 120)):
        root = os.path.join(base, 'r%d' % i)
        os.mkdir(root)
        rng = random.Random('%s/t%d' % (c.seed, i))
        files, dirs = make_tree(rng, root)
        roots.append((root, files, dirs))

    def paths(rng, files, dirs):
        out = list(files) + list(dirs) + [d[:-1] for d in dirs if d]
        for _ in range(20):
            p = rng.choice(out)
            out.append(rng.choice([p + 'x', p.swapcase(), 'nope/' + p, p + '.html', p.rsplit('.', 1)[0], p + '/index.html', 'index.htm', p[1:], p + '-old', 'index.html/' + p if p else 'zzz']))
        return [p for p in dict.fromkeys(out) if '//' not in p and not p.startswith('/') and not p.endswith(('.', './'))]

    # direct calls, over fresh instances
    calls = []
    for i, (root, files, dirs) in enumerate(roots):
        rng = random.Random('%s/d%d' % (c.seed, i))
        ps = paths(rng, files, dirs)
        calls.append((['static', root] + ['/' + p for p in ps], (files, dirs, ps)))

    def jd(args, r, ctx):
        files, dirs, ps = ctx
        if r[0] != b'K':
            c.violation('exception', 'static server threw: %r' % r[1:])
            return
        for p, x in zip(ps, r[1:]):
            st, ct, body, _ = pure.unpack(x)
            judge(c, 'direct', files, dirs, p, int(st), ct.decode('latin1'), body)
    pure.run(c, exes['pure'], calls, jd)
    # survival with odd paths and the not found page
    ocalls = []
    for i in range(c.scale(40, 1000)):
        rng = random.Random('%s/o%d' % (c.seed, i))
        ps = [odd_path(rng) + (b'/' * rng.choice([0, 0, 1])) for _ in range(50)]
        if i == 0:
            ps += [b'', b'/', b'.', b'..', b'\\', b'x', b'/' * 5000, b'\\' * 5000, b'../' * 3000, b'./' * 5000, b'A' * 200000, b'\0', b'/\0/']
        ocalls.append((['static', roots[i % len(roots)][0]] + [b'/zzz-missing.zzz'] + ps, ps))

    def jo(args, r, ps):
        if r[0] != b'K':
            c.violation('exception', 'static server threw: %r' % r[1:])
            return
        res = [pure.unpack(x) for x in r[1:]]
        ref = shape(res[0][2])
        for p, (st, ct, body, _) in zip(ps, res[1:]):
            c.case(b'odd ' + p[:100] + b'%d' % len(p))
            c.count('odd_paths')
            if st == b'404':
                bad = page_problem(ref, p, body) if b'\0' not in p else None
                if bad:
                    c.violation('page-structure', '%s: %r' % (bad, p[:200]), path=p)
    pure.run(c, exes['pure'], ocalls, jo)

    # over HTTP, with the tree changing between and during requests
    def served(i):
        root, files, dirs = roots[i]
        files = dict(files)
        rng = random.Random('%s/s%d' % (c.seed, i))
        s = srv.Server(exes['server'], static=root, maxconn=200)
        try:
            conn = None
            for p in paths(rng, files, dirs):
                if p in files and rng.random() < 0.3:
                    k = rng.random()
                    if k < 0.7:
                        files[p] = rng.randbytes(rng.choice([0, 5, 3000, 70000]))
                        with open(os.path.join(base, 'tmp%d' % i), 'wb') as f:
                            f.write(files[p])
                        os.rename(os.path.join(base, 'tmp%d' % i), os.path.join(root, p))
                    else:
                        os.unlink(os.path.join(root, p))
                        del files[p]
                    c.count('tree_changes')
                if conn is None:
                    conn = srv.Conn(s.port)
                ae = rng.choice([[], [], [('Accept-Encoding', 'identity')]])
                conn.send(srv.req('GET', '/' + p + rng.choice(['', '', '?v=1', '?v=1&w=/../x']), ae))
                r = conn.response()
                if r is None:
                    c.violation('http-closed', 'connection closed without a response for /%s' % p)
                    return True
                if judge(c, 'http', files, dirs, p, r.code, r.get('content-type'), r.body):
                    return True
                if r.get('connection') == 'close':
                    conn.close()
                    conn = None
            if conn is not None:
                conn.close()
            for _ in range(10):
                p = odd_path(rng).split(b'?')[0].split(b'#')[0].replace(b' ', b'')
                k = srv.Conn(s.port)
                k.send(srv.req('GET', p))
                try:
                    r = k.response()
                    c.count('odd_http')
                    if r and r.code == 200 and r.body not in files.values():
                        c.violation('odd-served', 'path %r was answered with content of no file' % p[:200])
                except (srv.BadResponse, OSError) as e:
                    c.violation('odd-http', 'no well-formed response for odd path %r: %r' % (p[:200], e))
                k.close()
            bad = srv_alive(s)
            if bad:
                c.violation('not-serving', 'the server stopped serving: ' + bad)
                return True
            return False
        except (srv.BadResponse, socket.timeout, OSError) as e:
            c.violation('http-response', 'bad response: %r' % e)
            return True
        finally:
            s.stop(c, what='static tree %d' % i)
    parallel(c, range(len(roots)), served, 6)
    race(c, exes, base)
    c.require('files', 200)
    c.require('index_pages', 20)
    c.require('missing', 100)
    c.require('odd_paths', 1000)
    if not c.viol:
        c.require('race_full', 100)
        c.require('race_missing', 5)
        c.require('race_versions_seen', 10)


def srv_alive(s):
    try:
        k = srv.Conn(s.port)
        k.send(srv.req('GET', '/__alive'))
        r = k.response()
        k.close()
        return None if r and r.code == 200 else 'no good answer'
    except (OSError, srv.BadResponse) as e:
        return repr(e)


def race(c, exes, base):
    """Files are atomically replaced, removed, recreated and swapped with directories while requested."""
    root = os.path.join(base, 'race')
    os.mkdir(root)
    body = lambda v, n: (b'V%06d|' % v) * n
    SIZES = [1, 500, 8190, 30000]
    s = srv.Server(exes['server'], static=root, maxconn=200)
    stop = threading.Event()
    started = [0] * 4

    def mutate(k):
        rng = random.Random('%s/m%d' % (c.seed, k))
        v = 0
        while not stop.is_set():
            v += 1
            tmp = os.path.join(base, 'rt%d' % k)
            dst = os.path.join(root, 'f%d.txt' % k)
            with open(tmp, 'wb') as f:
                f.write(body(v, SIZES[v % 4]))
            started[k] = v
            os.rename(tmp, dst)
            if k >= 2:
                time.sleep(rng.random() * 0.002)
                os.unlink(dst)
                if k == 3 and rng.random() < 0.5:
                    os.mkdir(dst)
                    time.sleep(rng.random() * 0.001)
                    os.rmdir(dst)
            time.sleep(rng.random() * 0.002)
    ts = [threading.Thread(target=mutate, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    seen = set()

    def get(i):
        rng = random.Random('%s/g%d' % (c.seed, i))
        conn = srv.Conn(s.port)
        last = [0] * 4
        for _ in range(40):
            k = rng.randrange(4)
            try:
                conn.send(srv.req('GET', '/f%d.txt' % k))
                r = conn.response()
            except (srv.BadResponse, OSError) as e:
                c.violation('race-response', 'bad response during changes: %r' % e)
                return True
            if r is None:
                c.violation('race-closed', 'connection closed during changes')
                return True
            if r.code == 404:
                c.count('race_missing')
                if k < 2 and last[k]:
                    c.violation('race-404', 'a file that always exists was answered with 404')
                    return True
            elif r.code == 200:
                v = int(r.body[1:7]) if len(r.body) >= 7 and r.body[1:7].isdigit() else -1
                if v < 1 or r.body != body(v, SIZES[v % 4]):
                    c.violation('race-torn', 'response is no complete version of the file: %d bytes, %r...%r' % (len(r.body), r.body[:20], r.body[-20:]))
                    return True
                if v < last[k] or v > started[k] + 0:
                    c.violation('race-stale', 'version %d served after version %d' % (v, last[k]))
                    return True
                last[k] = v
                seen.add((k, v))
                c.count('race_full')
            else:
                c.violation('race-status', 'status %d during changes' % r.code)
                return True
        conn.close()
        return False
    time.sleep(0.1)
    parallel(c, range(c.scale(40, 800)), get, 8, s.alive)
    stop.set()
    [t.join() for t in ts]
    c.extra['race_versions_seen'] = len(seen)
    bad = srv_alive(s)
    if bad:
        c.violation('race-not-serving', 'the server stopped serving after file changes: ' + bad)
    s.stop(c, what='file changes')
