"""Runs the workload of another check inside of a check, with other programs."""
import importlib.util, os, random, threading, types
from . import build, common, pure


class Quiet:
    """Stands for the Check of a reused workload, at a fraction of its size. Its judgements are dropped, or passed on to `sink`."""
    def __init__(self, c, name, divisor, sink=None):
        self.c, self.name, self.divisor, self.sink = c, name, divisor, sink
        self.seed, self.tier, self.thorough = c.seed, 'quick', False
        self.rng = random.Random('reuse/%s/%s/%d' % (c.pid, name, c.seed))
        self.lock = threading.RLock()
        self.extra, self.viol, self.problems, self.assumptions, self.samples, self.known = {}, {}, [], [], [], []
        self.distinct, self.evaluations, self.rule = set(), 0, ''

    def scale(self, quick, thorough=None):
        return max(2, int(quick / self.divisor))

    def case(self, key=None, sample=None, n=1):
        with self.lock:
            self.evaluations += n

    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def note_max(self, *a):
        pass

    def violation(self, key, msg, **w):
        self.count('judgements')
        if self.sink:
            self.viol[key] = ''
            self.sink(key, msg, **w)

    def problem(self, msg):
        self.problems.append(msg)

    def require(self, *a):
        pass


def module(name, exes, pure_run=None, pure_leaks=None):
    """A copy of check `name` that uses the given programs; exes(variant, harness) -> path."""
    spec = importlib.util.find_spec('checks.' + name)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    b = types.SimpleNamespace(**vars(build))
    b.build = lambda variant, hs, wraps=(): {h: exes(variant, h) for h in hs}
    mod.build = b
    if hasattr(mod, 'pure') and (pure_run or pure_leaks):
        p = types.SimpleNamespace(**vars(pure))
        if pure_run:
            p.run = pure_run
        if pure_leaks:
            p.leaks = pure_leaks
        mod.pure = p
    return mod
