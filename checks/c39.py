"""C39: log records from concurrent threads."""
import random, re
from vlib import build, proc

TECHNIQUE = 'runtime monitoring: offline exactly-once, contiguity and order check over the captured stdout/stderr of many logging threads, TSan and ASan builds'
NOTE = 'Records contain no line breaks. stdout and stderr are captured into files.'


def expected(t, i, ln):
    return '<%d:%d:%d:%s>' % (t, i, ln, ''.join('\0' if (t + i) % 5 == 0 and k % 11 == 4 else chr(97 + (t * 7 + i * 3 + k) % 26) for k in range(ln)))


def judge(c, name, data, threads, n):
    last, seen = {}, set()
    if data and not data.endswith('\n'):
        return 'torn', '%s does not end with a complete line' % name
    for l in data.split('\n')[:-1]:
        if l == 'END' and name == 'stdout':
            continue
        m = re.search(r'<(\d+):(\d+):(\d+):([a-z\0]*)>', l)
        if not m:
            return 'foreign-line', '%s has a line that is no record: %r' % (name, l[:200])
        t, i, ln = int(m.group(1)), int(m.group(2)), int(m.group(3))
        rec = expected(t, i, ln)
        if l not in (rec, 'M %s %d c true %d' % (rec, t, i), '%s T %d' % (rec, i),
                     '%s %d %d %d %d %d %d %.6f %.6f %.6f false' % (rec, -i, i, i % 256, -i * 1000000007, i * 1000003, i * 10000000019, i / 4, i * -0.125, i / 2)):
            return 'mixed', '%s has a record that is not intact: %r' % (name, l[:300])
        if (name == 'stderr') != ((t + i) % 3 == 0):
            return 'stream', 'record %d:%d appeared on %s' % (t, i, name)
        if (t, i) in seen:
            return 'duplicate', 'record %d:%d appeared twice' % (t, i)
        seen.add((t, i))
        if last.get(t, -1) >= i:
            return 'order', 'record %d of thread %d came after record %d' % (i, t, last[t])
        last[t] = i
    want = set((t, i) for t in range(threads) for i in range(n) if (name == 'stderr') == ((t + i) % 3 == 0))
    if seen != want:
        return 'lost', '%d records missing on %s, e.g. %r' % (len(want - seen), name, sorted(want - seen)[:3])
    return len(seen)


def run(c):
    t = build.build('tsan', ['conc'])['conc']
    a = build.build('asan', ['conc'])['conc']
    c.rule = '2-16 threads logging records of random length through all log/error forms; non-trivial: distinct runs with every record of both streams accounted for'
    for k in range(c.scale(12, 80)):
        rng = random.Random('c39/%d/%d' % (c.seed, k))
        th, n = rng.choice([2, 8, 16]), rng.choice([200, 600])
        o = proc.run(c, t if k % 2 else a, ['syncout', 'threads=%d' % th, 'n=%d' % n, 'maxlen=%d' % rng.choice([100, 3000, 9000]), 'seed=%d' % rng.randrange(10 ** 6)], env={'LAMBDA_LOCKDELAY': '300'} if k % 4 == 2 or k % 4 == 1 else None)
        if o is None:
            continue
        for name, data in (('stdout', o[0].decode('latin1')), ('stderr', o[1])):
            r = judge(c, name, data, th, n)
            if isinstance(r, tuple):
                c.violation('log:' + r[0], '%s (%d threads, %d records each)' % (r[1], th, n))
            else:
                c.count('records_checked', r)
        # how much the threads really interleaved
        seq = re.findall(r'<(\d+):', o[0].decode('latin1'))
        c.count('thread_switches_in_stdout', sum(1 for x, y in zip(seq, seq[1:]) if x != y))
        c.case('run%d/%d/%d' % (k, th, n), sample='%d threads x %d records' % (th, n))
    if not c.viol:
        c.require('records_checked', 5000)
        c.require('thread_switches_in_stdout', 100)
