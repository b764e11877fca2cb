"""C34: header containers."""
import random
from vlib import build, pure, common

TECHNIQUE = 'runtime monitoring: generated operation sequences on up to four containers (with copies and moves between them) built with ASan+UBSan and library assertions; every observation compared with a reference multimap'
NOTE = 'Names are compared without regard to the case of ASCII letters and reported in any case; entries may list the names in any order but the values of one name in theirs. The size is the number of names. Names in initializer lists are without surrounding whitespace.'

NAMES = ['a', 'A', 'content-type', 'Content-Type', 'CONTENT-TYPE', 'x-1', 'X-1', 'x_1', 'set-cookie', 'Set-Cookie', 'b', '', 'Z[', 'z{', 'é', 'É', 'x\0y', 'long' * 50, '@', '`']
VALS = ['', 'v', 'V', 'two words', ' padded ', 'text/html; charset=utf-8', 'x' * 500, '\0', 'é', ',', 'a,b', '0']


def lower(s):
    return ''.join(chr(ord(x) + 32) if 'A' <= x <= 'Z' else x for x in s)


def script(rng):
    regs = [dict() for _ in range(4)]
    a, want = ['kvc'], []
    names = rng.sample(NAMES, rng.choice([2, 4, 10, len(NAMES)]))
    if rng.random() < 0.3:
        names += ['n%d' % i for i in range(40)]
    for _ in range(rng.choice([5, 20, 80])):
        op = rng.choice(['set', 'set', 'append', 'append', 'append', 'del', 'get', 'get', 'has', 'all', 'all', 'entries', 'size', '=copy', '=move', '=cctor', '=mctor', 'init'])
        if op.startswith('='):
            d, s = rng.randrange(4), rng.randrange(4)
            if d == s and op in ('=move', '=mctor'):
                continue
            a += [op, d, s]
            m = {k: list(v) for k, v in regs[s].items()}
            if op in ('=move', '=mctor'):
                regs[s] = {}
            regs[d] = m
            want.append(('none', None))
            continue
        i = rng.randrange(4)
        r = regs[i]
        a += [op, i]
        k = rng.choice(names)
        lk = lower(k)
        w = ('none', None)
        if op == 'init':
            n = rng.randrange(4)
            kv = [(rng.choice(names), rng.choice(VALS).strip(' ')) for _ in range(n)]
            kv = [(x, y) for x, y in kv]
            a += [n] + [z for x in kv for z in x]
            r.clear()
            for x, y in kv:
                r.setdefault(lower(x), []).append(y)
        elif op in ('set', 'append'):
            v = rng.choice(VALS)
            a += [k, v]
            if op == 'set':
                r[lk] = [v]
            else:
                r.setdefault(lk, []).append(v)
        elif op == 'del':
            a.append(k)
            r.pop(lk, None)
        elif op == 'get':
            a.append(k)
            w = ('list', r[lk][:1] if lk in r else [''])
        elif op == 'has':
            a.append(k)
            w = ('list', ['1' if lk in r else '0'])
        elif op == 'all':
            a.append(k)
            w = ('list', list(r.get(lk, [])))
        elif op == 'entries':
            w = ('entries', {x: list(y) for x, y in r.items()})
        elif op == 'size':
            w = ('list', [str(len(r))])
        want.append(w)
    return a, want


def run(c):
    exe = build.build('asan', ['pure'])['pure']
    c.rule = 'an operation sequence of at least five steps, identified by its steps'
    calls = [script(random.Random('%s/%d' % (c.seed, i))) for i in range(c.scale(5000, 80000))]

    def judge(args, r, want):
        if r[0] != b'K':
            c.violation('exception', 'operations threw %r' % r[1:])
            return
        c.case(repr(args), common.show(args, 100))
        for n, (x, (kind, w)) in enumerate(zip(r[1:], want)):
            st, l = pure.step(x)
            l = [y.decode('utf8') for y in l]
            c.count('steps')
            if st != 'K':
                c.violation('step-exception', 'step %d of %s threw %r' % (n, common.show(args, 1500), l))
                return
            if kind == 'entries':
                g = {}
                for k, v in zip(l[::2], l[1::2]):
                    g.setdefault(lower(k), []).append(v)
                c.count('observations')
                if g != w:
                    c.violation('entries', 'step %d of %s: entries %r instead of %r' % (n, common.show(args, 1500), g, w), script=repr(args))
                    return
            elif kind == 'list':
                c.count('observations')
                if l != w:
                    c.violation('observation', 'step %d of %s: %r instead of %r' % (n, common.show(args, 1500), l, w), script=repr(args))
                    return
        if len(r) - 1 != len(want):
            c.problem('lost steps')
    pure.run(c, exe, calls, judge)
    c.require('observations', 20000)
