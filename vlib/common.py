import hashlib, json, threading, os, random, re, sys, time, fnmatch, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class HarnessError(Exception):
    """The check could not do its work: neither held nor violated."""


def show(b, n=200):
    if isinstance(b, (bytes, bytearray)):
        s = repr(bytes(b[:n]))
        return s + ('...(%d bytes)' % len(b) if len(b) > n else '')
    s = repr(b)
    return s[:n * 2] + ('...' if len(s) > n * 2 else '')


class Check:
    def __init__(self, pid, level='exploration'):
        self.pid, self.level = pid, level
        self.seed, self.tier = SEED, TIER
        self.thorough = TIER == 'thorough'
        self.rng = random.Random('%s/%d' % (pid, SEED))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rule = ''
        self.viol = {}
        self.known_hit = {}
        self.problems = []
        self.minimums = {}
        self.lock = threading.RLock()
        self.known = self._load_known()

    def _load_known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding='utf-8'):
                m = re.match(r'known: property=(\S+) key=(\S+) \| (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def scale(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 6)

    def case(self, key=None, sample=None, n=1):
        """One case was observed and judged. `key` identifies it when it is non-trivial."""
        with self.lock:
            self.evaluations += n
        if key is not None:
            if not isinstance(key, (bytes, str)):
                key = repr(key)
            if isinstance(key, str):
                key = key.encode('utf-8', 'surrogatepass')
            self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample if isinstance(sample, (str, dict, list, int)) else show(sample))

    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def note_max(self, name, v):
        with self.lock:
            self.extra[name] = max(self.extra.get(name, v), v)

    def violation(self, key, msg, **witness):
        """key: stable short identifier of what failed (no addresses, no random values)."""
        with self.lock:
            self._violation(re.sub(r'\s+', '_', key), msg, witness)

    def _violation(self, key, msg, witness):
        for pat, desc in self.known:
            if fnmatch.fnmatchcase(key, pat):
                self.known_hit.setdefault(pat, desc)
                self.count('known_finding_hits')
                return
        self.count('violation_observations')
        if key in self.viol:
            return
        d = os.path.join(VERIF, 'replays', self.pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:80], self.seed))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'key': key, 'what': msg, 'seed': self.seed, 'tier': self.tier,
                       'rerun': 'VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s' % (self.seed, self.tier, self.pid),
                       'witness': {k: (v if isinstance(v, (int, str, float, list, dict, type(None))) else
                                       (v.hex() if isinstance(v, (bytes, bytearray)) else repr(v))) for k, v in witness.items()}},
                      f, indent=1, default=repr)
        self.viol[key] = path
        if len(self.viol) <= 25:
            print('violated [%s]: %s' % (key, msg[:1500]), flush=True)

    def problem(self, msg):
        """Something inconclusive: the check cannot vouch for what it was meant to observe."""
        self.problems.append(msg)

    def require(self, name, minimum):
        """The run must have observed at least this many of counter `name` (else inconclusive)."""
        self.minimums[name] = minimum

    def finish(self):
        for k, m in self.minimums.items():
            have = self.evaluations if k == 'evaluations' else len(self.distinct) if k == 'distinct' else self.extra.get(k, 0)
            if have < m:
                self.problem('observed only %s of %s (need %s)' % (have, k, m))
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule,
               'samples': self.samples or ['(none)']}
        cov.update(self.extra)
        if self.problems:
            cov['inconclusive'] = self.problems[:20]
        evd = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
               'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(evd, f, indent=1)
        for pat, desc in self.known_hit.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, desc))
        if self.viol:
            for key, path in self.viol.items():
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.problems:
            for p in self.problems[:20]:
                print('INCONCLUSIVE %s: %s' % (self.pid, p))
            return 2
        print('%s held: %d evaluations, %d distinct non-trivial, %.1fs' % (self.pid, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0


SAN_RE = re.compile(r'(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]* failed|terminate called[^\n]*|SUMMARY: [^\n]*)')


def sanitizer_key(text):
    """A stable key of the first sanitizer report in text: kind + first frames in the library's own sources."""
    kind = 'crash'
    m = re.search(r'AddressSanitizer: ([A-Za-z-]+)|ThreadSanitizer: ([A-Za-z -]+?)(?: \(|$)|runtime error: ([^\n]*)', text, re.M)
    if m:
        kind = (m.group(1) or m.group(2) or ('ub-' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(3) or '')))[:70]
    elif 'terminate called' in text:
        kind = 'terminate'
    elif 'Assertion' in text:
        kind = 'glibcxx-assertion'
    frames = re.findall(r'#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?) (/\S*?/(?:core|extra)/[^\s:]+)', text)
    fn = ''
    for f, p in frames:
        f = re.sub(r'\(.*', '', f)
        f = f.split(' ')[-1]
        fn = re.sub(r'<.*?>', '', f)
        break
    return re.sub(r'[^A-Za-z0-9_:.-]+', '_', kind + (':' + fn if fn else ''))


def sanitizer_report(text, n=3500):
    i = -1
    for pat in ('ERROR: AddressSanitizer', 'WARNING: ThreadSanitizer', 'runtime error:', 'Assertion', 'terminate called'):
        j = text.find(pat)
        if j >= 0 and (i < 0 or j < i):
            i = j
    return text[max(0, i - 100):i + n] if i >= 0 else text[-n:]


def main(pid, fn, level='exploration'):
    c = Check(pid, level)
    try:
        fn(c)
        return c.finish()
    except HarnessError as e:
        print('HARNESS-ERROR %s: %s' % (pid, e))
    except Exception:
        traceback.print_exc()
        print('HARNESS-ERROR %s: unexpected exception' % pid)
    if c.viol:
        return c.finish()
    c.problem('harness error')
    c.finish()
    return 2
