"""C52: the guarantees don't depend on how the library was built."""
import os, re, shutil, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from vlib import build, pure, common, reuse, vfs, srv

TECHNIQUE = 'runtime monitoring: the workloads and oracles of the other checks on two further builds of the working tree: optimised without assertions (-O3 -DNDEBUG), and without compression the way readme.md describes it (ASan+UBSan, linked without zlib and brotli)'
NOTE = 'Judged by the oracles of the reused checks, at a fraction of their size; those whose judgement depends on timing or on a sanitizer are left out. Compilers and platforms other than the GCC that is installed are not explored.'

RELEASE = {'pure': ['c30', 'c26', 'c29', 'c17', 'c18', 'c19', 'c22', 'c23', 'c24', 'c27', 'c28', 'c31', 'c32', 'c33', 'c34', 'c35', 'c36', 'c37', 'c38', 'c40', 'c49'],
           'server': ['c01', 'c02', 'c03', 'c05', 'c06', 'c12', 'c13', 'c16', 'c44']}
BARE = {'pure': ['c29', 'c24', 'c17', 'c18', 'c19', 'c23', 'c31', 'c33', 'c38', 'c40'],
        'server': ['c01', 'c02', 'c03', 'c05', 'c06', 'c12', 'c13', 'c16', 'c44']}
GZ = re.compile(rb'\.(tgz|gz)$', re.I)


def flat(args):
    return [a.encode('latin1') if isinstance(a, str) else a for a in args if isinstance(a, (str, bytes))]


class Run:
    def __init__(self, c, name, exes):
        self.c, self.name, self.exes = c, name, exes

    def one(self, name, divisor):
        c, me = self.c, self
        t0 = time.time()

        def sink(key, msg, **w):
            c.violation('%s:%s:%s' % (me.name, name, key), 'in the %s build, workload of %s: %s' % (me.name, name.upper(), msg), **w)
        q = reuse.Quiet(c, name, divisor, sink)

        def run(_, exe, calls, judge, **k):
            calls = [x if isinstance(x, tuple) else (x, None) for x in calls]
            if me.name == 'bare' and name in ('c23', 'c24'):
                calls = [x for x in calls if not any(GZ.search(a) for a in flat(x[0]) if len(a) < 600)]
            c.count('calls:' + me.name, len(calls))
            for x in calls:
                c.case('%s %s %s' % (me.name, name, common.show(x[0], 300)))
            k['workers'] = 4
            return pure.run(q, exe, calls, judge, **k)
        mod = reuse.module(name, lambda variant, h: me.exes[h], run, lambda *a, **k: None)
        if me.name == 'bare':
            if name == 'c02':
                conversation = mod.conversation
                mod.conversation = lambda c, rng, port, compress: conversation(c, rng, port, 0)
            if name == 'c23':
                mod.EXT = ['.tar', '.TAR', '.Tar', '.tar', '.tAR']
        try:
            mod.run(q)
        except Exception as e:
            if os.environ.get('C52_DEBUG'):
                traceback.print_exc()
            c.problem('%s on the %s build: %r' % (name.upper(), me.name, e))
        for p in q.problems:
            c.problem('%s on the %s build: %s' % (name.upper(), me.name, p))
        c.count('evaluations:%s' % me.name, q.evaluations)
        c.case('%s %s %d' % (me.name, name, c.seed), '%s on the %s build: %d evaluations' % (name.upper(), me.name, q.evaluations))
        c.extra.setdefault('workloads', {})['%s on %s' % (name.upper(), me.name)] = q.evaluations
        c.extra.setdefault('seconds', {})['%s on %s' % (name.upper(), me.name)] = round(time.time() - t0, 1)


def compressed_snapshots(c, exe):
    """A build without compression refuses them, and keeps what it has."""
    d = tempfile.mkdtemp(prefix='c52-')
    try:
        calls = []
        for i in range(c.scale(60, 600)):
            files = {b'f%d' % j: c.rng.randbytes(c.rng.choice([0, 10, 700, 5000])) for j in range(c.rng.choice([0, 1, 3]))}
            p = '%s/a%d%s' % (d, i, c.rng.choice(['.tar.gz', '.tgz', '.TGZ', '.Tar.gz']))
            seq = [('write', k, b) for k, b in files.items()]
            seq += [('save', p)] if i % 2 else [('loaddata', p, vfs.gz(vfs.std_tar([(b'other', b'x' * 100), (b'f0', b'changed')])))]
            seq += [('list',)] + [('read', k) for k in files] + [('read', b'other')]
            calls.append((['vfs'] + [a for o in seq for a in o], (seq, files)))

        def judge(args, r, x):
            seq, files = x
            if r[0] != b'K':
                c.violation('bare:snapshot-script', 'a script could not be run: %s' % common.show(r[1:2]))
                return
            for o, (st, v) in zip(seq, [pure.step(s) for s in r[1:]]):
                if o[0] in ('save', 'loaddata'):
                    if st == 'K':
                        c.violation('bare:snapshot-accepted', '%s of a compressed archive in the build without compression reported no error' % o[0])
                elif o[0] == 'list' and st == 'K' and {q[0] for q in vfs.files_of(v)} != set(files):
                    c.violation('bare:snapshot-files', 'a refused archive changed the files to %s' % common.show(v))
                elif o[0] == 'read' and o[1] in files and (st != 'K' or v[1] != files[o[1]]):
                    c.violation('bare:snapshot-content', 'a refused archive changed the file %s to %s' % (o[1], common.show(v)))
            c.count('compressed_snapshots_refused')
        pure.run(c, exe, calls, judge, workers=4)
    finally:
        shutil.rmtree(d)


def run(c):
    c.rule = 'calls, connections and files of the reused workloads on one of the builds; non-trivial: distinct calls, and workloads that ran to their end'
    jobs = []
    only = os.environ.get('C52_ONLY', '').split()
    with ThreadPoolExecutor(2) as ex:
        release = ex.submit(build.build, 'release', ['pure', 'server'])
        bare = ex.submit(build.build, 'bare', ['pure', 'server'])
        release = Run(c, 'release', release.result())
        try:
            bare = Run(c, 'bare', bare.result())
        except build.NoSuchBuild as e:
            c.assumptions.append('the build without compression was not explored: %s' % e)
            bare = None
        except build.BuildError as e:
            c.violation('bare:build', 'the library does not build without compression: %s' % str(e)[-3000:])
            bare = None
    for r, table in ((release, RELEASE), (bare, BARE)):
        if r:
            jobs += [(r, n, d) for k, d in (('pure', c.scale(12, 2)), ('server', c.scale(12, 2))) for n in table[k] if not only or n in only]
    with ThreadPoolExecutor(5) as ex:
        fs = [ex.submit(r.one, n, d) for r, n, d in jobs]
        if bare:
            compressed_snapshots(c, bare.exes['pure'])
        for f in fs:
            f.result()
    if not c.viol and not only:
        c.require('calls:release', 3000)
        c.require('evaluations:release', 5000)
        if bare:
            c.require('calls:bare', 1500)
            c.require('evaluations:bare', 2500)
            c.require('compressed_snapshots_refused', 50)
