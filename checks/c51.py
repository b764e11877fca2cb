"""C51: nothing depends on memory that was never written."""
import os, re, shutil, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from vlib import build, pure, common, reuse

TECHNIQUE = 'runtime monitoring: the workloads of the other checks and drivers run under valgrind memcheck, which follows every byte that was never written through the library and into zlib and brotli; everything handed back, sent or written to a file is tested for such bytes'
NOTE = 'Judged is what memcheck reports: a branch, an address, a system call or a value handed back that depends on bytes never written, and accesses outside of live memory (also those zlib and brotli make on behalf of the library). What the reused workloads themselves would judge is left to their own checks. Threads run one at a time under valgrind.'

#   check -> kinds of calls (for the evidence)
DRIVERS = ['c21', 'c28', 'c40', 'c17', 'c18', 'c19', 'c22', 'c23', 'c24', 'c26', 'c27', 'c29', 'c30', 'c31', 'c32', 'c33', 'c34', 'c35', 'c36', 'c37', 'c38', 'c49']
SERVERS = ['c15', 'c04', 'c05', 'c14', 'c46', 'c42', 'c09', 'c13', 'c06', 'c50', 'c01', 'c02', 'c03', 'c12', 'c16', 'c43', 'c44', 'c45']
#   take minutes under valgrind
SLOW = ('sha1big',)
DRIVER_FILES = ('@pure.cpp', '@server.cpp', '@tcp.cpp', '@multi.cpp', '@faults.cpp')


def wrapper(d, exe):
    path = os.path.join(d, 'vg-' + os.path.basename(exe))
    if not os.path.exists(path):
        with open(path, 'w') as f:
            f.write('#!/bin/sh\nexec valgrind -q --leak-check=no --error-limit=no --num-callers=16 --fair-sched=yes --log-file=%s/log.%%p %s "$@"\n' % (d, exe))
        os.chmod(path, 0o755)
    return path


def reports(text):
    """(kind, frames, whole text, name of the call it happened in) of each report in a log."""
    out, cur = [], None
    for l in text.split('\n'):
        m = re.match(r'^(?:==|\*\*)\d+(?:==|\*\*) ?(.*)$', l)
        if not m:
            continue
        t = m.group(1)
        if t.startswith('CALL '):
            for r in out:
                if r[3] is None:
                    r[3] = t[5:]
            if cur:
                cur[3] = t[5:]
            continue
        if t and not t.startswith(' '):
            cur = [t, [], l, None]
            out.append(cur)
        elif cur is not None:
            cur[2] += '\n' + l
            f = re.match(r'\s+(?:at|by) 0x[0-9A-F]+: (.*)', t)
            if f and not re.search(r'is 0x|Address 0x', t):
                cur[1].append(f.group(1))
    return [r for r in out if r[1]]


def top(frames):
    """The innermost function of the library (or of the driver) in a stack."""
    for f in frames:
        m = re.match(r'(.*) \(([a-z0-9_]+\.[ch]pp):\d+\)$', f)
        if m and 'in /' not in f:
            return re.sub(r'<.*>', '', re.sub(r'\(.*', '', m.group(1))) + '@' + m.group(2)
    return frames[-1]


class Run:
    def __init__(self, c, d, exes):
        self.c, self.d, self.exes = c, d, exes
        self.files = 0

    def module(self, name):
        """A copy of a check whose programs run under valgrind."""
        c, me = self.c, self
        d = os.path.join(self.d, name)
        os.makedirs(d)
        wrapped = {h: wrapper(d, e) for h, e in self.exes.items()}
        q = reuse.Quiet(c, name, c.scale(12, 3))

        def run(_, exe, calls, judge, workers=8, limit=20, max_bad=6, env=None, cwd=None):
            calls = [x if isinstance(x, tuple) else (x, None) for x in calls]
            keep = c.scale(90, 600)
            # those with a lot of data would take most of the time
            calls = [x for x in calls if x[0][0] not in SLOW and sum(len(a) if isinstance(a, (bytes, str)) else 8 for a in x[0]) < c.scale(200000, 4 << 20)]
            if len(calls) > keep:
                calls = q.rng.sample(calls, keep)
            if not calls:
                return
            drv = pure.Pure(exe, 600, env, cwd)
            try:
                for i, r in drv.batch([x[0] for x in calls]):
                    if r is None:
                        c.count('driver_ended')
                        me.died(name, drv.last, calls[i][0])
                        return
                    c.count('calls')
                    c.count('calls:' + str(calls[i][0][0]))
                    c.case('%s %s' % (name, common.show(calls[i][0], 300)), 'under memcheck: ' + common.show(calls[i][0], 60))
                    if judge:
                        try:
                            judge(calls[i][0], r, calls[i][1])
                        except Exception:
                            c.count('unjudged_results')
                drv.close()
            finally:
                if drv.p:
                    drv.p.kill()
                    drv.close()
        mod = reuse.module(name, lambda variant, h: wrapped[h] if variant != 'plain' else self.exes[h], run, lambda *a, **k: None)
        return mod, q, d

    def died(self, name, last, call):
        rc, err = last
        if 'HANG' in err:
            self.c.problem('a call took too long under valgrind: ' + common.show(call))
        else:
            self.c.violation('died:%s' % call[0], 'the driver ended with %s under valgrind on %s: %s' % (rc, common.show(call), err[-600:]))

    def one(self, name):
        t0 = time.time()
        mod, q, d = self.module(name)
        try:
            mod.run(q)
        except Exception as e:
            # the reused workload may depend on calls that were left out
            self.c.count('workloads_cut_short')
            self.c.extra.setdefault('cut_short', []).append('%s: %s' % (name, repr(e)[:200]))
            if os.environ.get('C51_DEBUG'):
                traceback.print_exc()
        if q.evaluations:
            self.c.count('evaluations_of_' + name, q.evaluations)
        if name in SERVERS:
            self.c.case('%s/%d' % (name, self.c.seed), n=q.evaluations)
            self.c.count('connections_and_scripts', q.evaluations)
        self.judge(name, d)
        self.c.extra.setdefault('seconds', {})[name] = round(time.time() - t0, 1)

    def judge(self, name, d):
        c = self.c
        for f in sorted(os.listdir(d)):
            if not f.startswith('log.'):
                continue
            c.count('processes')
            text = open(os.path.join(d, f), errors='replace').read()
            found = reports(text)
            c.count('reports', len(found))
            # what the driver does with such a value afterwards says nothing new
            inside = [r for r in found if not top(r[1]).endswith(DRIVER_FILES)]
            for kind, frames, whole, call in inside or found[:2]:
                kind = re.sub(r'\d+', 'N', kind)
                key = 'memcheck:%s:%s' % (re.sub(r'[^A-Za-z]+', '-', kind)[:50].strip('-'), re.sub(r'[^A-Za-z0-9_:.@~-]+', '', top(frames)))
                c.violation(key, 'memcheck (workload of %s%s):\n%s' % (name.upper(), ', call %s' % call if call else '', whole[:3000]))


def run(c):
    c.rule = 'calls, connections and files of the reused workloads processed under memcheck; non-trivial: distinct calls whose outcome held no unwritten byte'
    exes = build.build('plain', ['pure', 'server', 'tcp', 'multi'])
    d = tempfile.mkdtemp(prefix='c51-')
    try:
        r = Run(c, d, exes)
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(r.one, n) for n in (os.environ.get('C51_ONLY', '').split() or DRIVERS[:1] + SERVERS + DRIVERS[1:])]:
                f.result()
    finally:
        shutil.rmtree(d)
    if not c.viol:
        c.require('calls', 1500)
        c.require('connections_and_scripts', 1000)
        c.require('processes', 100)
        for op in ('kv', 'vfs', 'zc', 'bc', 'zd', 'bd', 'gzs', 'gzd', 'static', 'jparse', 'jops', 'url', 'cookies', 'values', 'date', 'sha1', 'render'):
            c.require('calls:' + op, 10)
        if c.extra.get('workloads_cut_short', 0) > 3:
            c.problem('workloads ended early: %s' % c.extra['cut_short'])
