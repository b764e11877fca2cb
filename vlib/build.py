"""Builds /repo's current working tree (every .cpp under core/ and extra/) plus a harness,
once per sanitizer variant, into a content-addressed cache under /verif/.build."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.build')
BASE = ['-std=c++20', '-include', 'cstdint', '-fPIC', '-w', '-g1', '-fno-omit-frame-pointer']
VARIANTS = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all',
             '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR'],
    'tsan': ['-O1', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS'],
    'plain': ['-O1', '-D_GLIBCXX_ASSERTIONS'],
    'release': ['-O3', '-DNDEBUG'],
}
# as 'asan', of the library without compression
VARIANTS['bare'] = VARIANTS['asan']
LIBS = ['-lz', '-lbrotlicommon', '-lbrotlidec', '-lbrotlienc', '-lpthread']


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))


def _sources(root):
    out = []
    for top in ('core', 'extra'):
        for d, dirs, files in os.walk(os.path.join(root, top)):
            dirs.sort()
            out += [os.path.join(d, f) for f in sorted(files) if f.endswith('.cpp')]
    return out


def _headers_digest(root):
    h = hashlib.sha256()
    roots = [os.path.join(root, x) for x in ('core', 'extra')] + [os.path.join(VERIF, 'harness')]
    hs = [os.path.join(root, f) for f in sorted(os.listdir(root)) if f.endswith('.hpp')]
    for top in roots:
        for d, dirs, files in os.walk(top):
            dirs.sort()
            hs += [os.path.join(d, f) for f in sorted(files) if f.endswith(('.hpp', '.h'))]
    for p in hs:
        h.update(os.path.relpath(p, root if p.startswith(root + '/') else VERIF).encode()); h.update(open(p, 'rb').read())
    return h.digest()


def _obj(src, flags, hd, outdir, root):
    data = open(src, 'rb').read()
    rel = os.path.relpath(src, root if src.startswith(root + '/') else VERIF)
    key = hashlib.sha256(b'\0'.join([hd, rel.encode(), data, ' '.join(flags).encode()])).hexdigest()[:24]
    o = os.path.join(outdir, os.path.basename(src)[:-4] + '-' + key + '.o')
    if not os.path.exists(o):
        tmp = o + '.%d.tmp.o' % os.getpid()
        _run(['g++'] + flags + ['-I', root, '-I', os.path.join(VERIF, 'harness'), '-c', src, '-o', tmp], cwd=root)
        os.rename(tmp, o)
    else:
        os.utime(o)
    return o


class NoSuchBuild(Exception):
    pass


def _without_compression(root):
    """A copy of the sources with compression disabled the way readme.md says."""
    for top in ('core', 'extra'):
        shutil.copytree(os.path.join(REPO, top), os.path.join(root, top), ignore=lambda d, fs: [f for f in fs if not f.endswith(('.cpp', '.hpp', '.h', '.html')) and not os.path.isdir(os.path.join(d, f))])
    for f in os.listdir(REPO):
        if f.endswith('.hpp'):
            shutil.copy(os.path.join(REPO, f), root)
    p = os.path.join(root, 'buildopts.hpp')
    text, n = re.subn(r'(?m)^(\s*)(#define LAMBDA_BUILDOPTS_ENABLE_COMPRESSION)\b', r'\1//\2', open(p).read()) if os.path.exists(p) else ('', 0)
    if n != 1:
        raise NoSuchBuild('no switch for compression in buildopts.hpp')
    with open(p, 'w') as f:
        f.write(text)
    # the makefiles leave its sources out
    shutil.rmtree(os.path.join(root, 'core', 'compression'), ignore_errors=True)


def build(variant, harnesses, wraps=()):
    """harnesses: list of names in /verif/harness (without .cpp). Returns {name: path of executable}."""
    if variant != 'bare':
        return _build(variant, harnesses, REPO, LIBS)
    root = tempfile.mkdtemp(prefix='bare-')
    try:
        _without_compression(root)
        return _build(variant, harnesses, root, ['-lpthread'])
    finally:
        shutil.rmtree(root)


def _build(variant, harnesses, root, libs):
    outdir = os.path.join(CACHE, variant)
    os.makedirs(outdir, exist_ok=True)
    flags = BASE + VARIANTS[variant]
    hd = _headers_digest(root)
    hsrc = {h: os.path.join(VERIF, 'harness', h + '.cpp') for h in harnesses}
    common = [os.path.join(VERIF, 'harness', 'faults.cpp')]
    # biggest files first so the tail of the parallel build is short
    srcs = list(hsrc.values()) + common + _sources(root)
    srcs.sort(key=lambda p: (p not in hsrc.values(), -os.path.getsize(p)))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        objs = dict(zip(srcs, ex.map(lambda s: _obj(s, flags, hd, outdir, root), srcs)))
    # embedded template resource: symbol names derive from this relative path
    res = []
    rrel = 'core/html/resources/servicepage.html'
    if os.path.exists(os.path.join(root, rrel)):
        k = hashlib.sha256(open(os.path.join(root, rrel), 'rb').read()).hexdigest()[:16]
        ro = os.path.join(outdir, 'servicepage-' + k + '.o')
        if not os.path.exists(ro):
            _run(['objcopy', '--input-target', 'binary', '--output-target', 'elf64-x86-64',
                  '--binary-architecture', 'i386:x86-64', rrel, ro + '.tmp'], cwd=root)
            os.rename(ro + '.tmp', ro)
        res.append(ro)
    lib = [objs[s] for s in _sources(root)]
    wl = ['-Wl,--wrap=' + w for w in ('recv', 'send', 'accept', 'accept4', 'close', 'shutdown', 'pthread_mutex_lock', 'pthread_mutex_unlock', '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE')]
    out = {}

    def link(h):
        ins = [objs[hsrc[h]]] + [objs[c] for c in common] + lib + res
        key = hashlib.sha256('\n'.join(ins + wl + flags).encode()).hexdigest()[:24]
        exe = os.path.join(outdir, h + '-' + key)
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            _run(['g++'] + flags + ins + wl + libs + ['-o', tmp])
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        return exe
    with ThreadPoolExecutor(max_workers=4) as ex:
        for h, e in zip(harnesses, ex.map(link, harnesses)):
            out[h] = e
    prune(outdir)
    return out


def shim(name):
    """Builds harness/<name>.c as a library to preload; returns its path."""
    src = os.path.join(VERIF, 'harness', name + '.c')
    out = os.path.join(CACHE, 'shim')
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, '%s-%s.so' % (name, hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]))
    if not os.path.exists(so):
        _run(['gcc', '-shared', '-fPIC', '-O1', '-fexceptions', '-w', src, '-o', so + '.%d' % os.getpid(), '-ldl'])
        os.rename(so + '.%d' % os.getpid(), so)
    return so


def prune(d, keep=400, max_age=3 * 3600):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime, reverse=True)
    now = time.time()
    for f in fs[keep:]:
        if now - os.path.getmtime(f) > max_age:
            try:
                os.unlink(f)
            except OSError:
                pass


if __name__ == '__main__':
    t = time.time()
    print(build(sys.argv[1], sys.argv[2:]), round(time.time() - t, 1))
