"""Generated-case engine shared by every check.

A property module exposes SUBS, a list of Sub objects.  A Sub has a generator
``gen(s) -> case`` written against the Source interface below and an oracle
``check(case)`` which raises Violation when the property does not hold for that case.
Every case is plain Python data (repr/literal_eval round-trips), so a failure is
replayed by calling check() on the stored case without any library.

The same generator is driven by two engines:

* "hyp":  Hypothesis (seeded, database off, shrinking on), every primitive choice is an
          st.integers draw;
* "rnd":  a plain seeded pseudo-random source at far higher volume, which records its
          choice sequence; failures are shrunk by reducing that sequence.

"enum" Subs enumerate a fixed finite list of cases instead.
"""

import ast
import collections
import hashlib
import os
import random
import resource
import signal
import sys
import time
import traceback

from literals import POOL

SLOWEST = (0.0, "")
CPU_LIMIT_S = 20.0  # CPU seconds for ONE case (cases take milliseconds)
MEM_LIMIT = 6 << 30


class Violation(Exception):
    """The property does not hold for this case.  key identifies the defect."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(KeyboardInterrupt):
    """One case used CPU_LIMIT_S of CPU (KeyboardInterrupt: Hypothesis lets it out)."""


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg(), key)


# ----------------------------------------------------------------------------- sources
class Source:
    """Structured choices; choice 0 is always the simplest."""

    def _below(self, n, edge=False, lo=None):
        raise NotImplementedError

    def int(self, lo, hi):
        return lo + self._below(hi - lo + 1, True, lo)

    def uint(self, lo, hi):
        """uniform integer, no boundary bias"""
        return lo + self._below(hi - lo + 1)

    def sint(self, mag):
        v = self.int(0, mag)
        return -v if v and self.bool() else v

    def bool(self, p=0.5):
        return self._below(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self._below(len(seq))]

    def weighted(self, *pairs):
        """pairs of (weight, value)"""
        tot = sum(w for w, _ in pairs)
        k = self._below(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def list(self, f, lo, hi):
        return [f() for _ in range(self.int(lo, hi))]

    def text(self, alphabet, lo, hi):
        return "".join(self.choice(alphabet) for _ in range(self.int(lo, hi)))

    def bytes(self, lo, hi):
        return bytes(self._below(256) for _ in range(self.int(lo, hi)))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self._below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def real(self, lo, hi, decs=(0, 1, 2, 3, 5, 7, 9, 12)):
        """float in [lo, hi]: mixes edges, decimals of few places, and full precision"""
        new = POOL.reals(lo, hi, True)
        kind = self._below(11 if new else 9)
        if kind >= 8:  # a constant of the code under test, or next to it
            near = new if kind > 8 else POOL.reals(lo, hi, False)
            if near:
                return self.choice(near)
            kind = 2
        if kind == 0:
            return float(self.choice([lo, hi, (lo + hi) / 2, 0.0 if lo <= 0 <= hi else lo]))
        if kind == 7:
            return lo + (hi - lo) * (self._below(1 << 53) / (1 << 53))
        dec = self.choice(decs)
        scale = 10**dec
        a, b = -int(-lo * scale // 1), int(hi * scale // 1)
        v = self.int(a, b) / scale
        if kind == 6:  # nudge just off the decimal grid
            v += self.choice([1, -1]) * 10.0 ** -self.int(4, 13)
        return float(min(max(v, lo), hi))


    def literal(self, kind):
        """a constant of the code under test ("texts", "blobs", "nums"), or None"""
        new = getattr(POOL, kind)(True)
        k = self._below(1000)
        if new and k >= 920:
            return self.choice(new)
        if k >= 985:
            return self.choice(getattr(POOL, kind)(False))
        return None


class RandomSource(Source):
    def __init__(self, rng):
        self.rng = rng
        self.seq = []

    def _below(self, n, edge=False, lo=None):
        if n <= 1:
            return 0
        r = self.rng
        v = None
        if edge and n > 3:
            k = r.random()
            if k < 0.2:
                v = r.choice((0, 1, n - 1, n - 2, n // 2))
            elif k < 0.35 and n > 8 and lo is not None:
                pool = POOL.ints(lo, lo + n - 1, True) if k < 0.33 else POOL.ints(lo, lo + n - 1, False)
                if pool:
                    v = r.choice(pool) - lo
        if v is None:
            v = int(r.random() * n) if n < (1 << 40) else r.randrange(n)
        self.seq.append(v)
        return v


class ReplaySource(Source):
    def __init__(self, seq):
        self.inp = seq
        self.pos = 0
        self.seq = []

    def _below(self, n, edge=False, lo=None):
        if n <= 1:
            return 0
        v = self.inp[self.pos] if self.pos < len(self.inp) else 0
        self.pos += 1
        v = min(v, n - 1)
        self.seq.append(v)
        return v


# ------------------------------------------------------------------------------- subs
class Sub:
    def __init__(self, name, gen=None, check=None, quick=2000, thorough=None,
                 nontrivial=None, classify=None, enum=None, hyp=0.1, weight=1):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 30
        self.nontrivial = nontrivial or (lambda case: True)
        self.classify = classify
        self.enum = enum  # callable -> list of cases
        self.hyp = hyp  # fraction of cases driven through Hypothesis
        self.weight = weight


def digest(case):
    return int.from_bytes(hashlib.blake2b(repr(case).encode("utf-8", "backslashreplace"),
                                          digest_size=8).digest(), "big")


def through_library(tb):
    """Did this exception come out of the code under test?"""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if f"{os.sep}pynmeagps{os.sep}" in fn:
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Hang()


def run_check(sub, case):
    """Run the oracle for one case.  Returns None or (message, key)."""
    global SLOWEST
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)
    start = time.process_time()
    try:
        sub.check(case)
    except Violation as err:
        return str(err), err.key
    except Hang:
        raise
    except Exception as err:  # pylint: disable=broad-except
        tb = traceback.extract_tb(err.__traceback__)
        if not through_library(err.__traceback__):
            if isinstance(err, (MemoryError, OSError)):  # the sandbox, not the code under test
                raise
            # what the library gave was nothing the oracle can work with
            return f"result not understood: {type(err).__name__}: {err} (at {tb[-1].name}, line {tb[-1].lineno})", None
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "pynmeagps" in f.filename]
        return f"unexpected {type(err).__name__}: {err} (from {' < '.join(where[-3:])})", None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        SLOWEST = max(SLOWEST, (round(time.process_time() - start, 3), sub.name))
    return None


class Stats:
    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.excluded = collections.Counter()
        self.truncated = False
        self.slowest = (0.0, "")  # CPU seconds of one case

    def note(self, sub, case):
        self.evals += 1
        nt = sub.nontrivial(case)
        if nt:
            self.hashes.add(digest((sub.name, case)))
            if len(self.samples) < 2:
                self.samples.append(f"{sub.name}: {repr(case)[:400]}")
        if sub.classify:
            for lab in sub.classify(case):
                self.labels[f"{sub.name}/{lab}"] += 1
        self.labels[f"{sub.name}/cases"] += 1


SHRINK_S = 30
FOUND = None  # shared flags, one per sub: a worker has found a failure, so the others need not search on


def found(k):
    return FOUND is not None and k is not None and FOUND[k]


def mark(k):
    if FOUND is not None and k is not None:
        FOUND[k] = 1


def shrink_seq(sub, seq, budget=4000, deadline=None, known=()):
    """Reduce a failing choice sequence; returns (case, message, key)."""

    def attempt(cand):
        if deadline is not None and time.time() > deadline and best is not None:
            return None
        src = ReplaySource(cand)
        try:
            case = sub.gen(src)
            res = run_check(sub, case)
        except Hang:
            return None
        except Exception:  # pylint: disable=broad-except
            return None
        if res is None or res[1] in known and res[1] is not None:
            return None
        return src.seq, case, res

    best = None
    best = attempt(list(seq))
    if best is None:
        return None
    tries = 0
    improved = True
    while improved and tries < budget and (deadline is None or time.time() < deadline):
        improved = False
        cur = best[0]
        # delete blocks
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(cur) - size
            while i >= 0 and tries < budget:
                cand = cur[:i] + cur[i + size:]
                tries += 1
                got = attempt(cand)
                if got and (len(got[0]), got[0]) < (len(cur), cur):
                    best, cur, improved = got, got[0], True
                    i = min(i, len(cur) - size)
                else:
                    i -= size if size > 4 else 1
        # minimise values
        i = 0
        while i < len(cur) and tries < budget:
            v = cur[i]
            for nv in (0, 1, v // 2, v - 1):
                if 0 <= nv < v:
                    tries += 1
                    got = attempt(cur[:i] + [nv] + cur[i + 1:])
                    if got and (len(got[0]), got[0]) < (len(cur), cur):
                        best, cur, improved = got, got[0], True
                        break
            i += 1
    return best[1], best[2][0], best[2][1]


def run_rnd(sub, seed, count, stats, deadline, known, k=None):
    for i in range(count):
        if found(k):
            return None
        if i % 50 == 0 and time.time() > deadline:
            stats.truncated = True
            return None
        rng = random.Random(seed * 1000003 + i)
        src = RandomSource(rng)
        case = sub.gen(src)
        stats.note(sub, case)
        try:
            res = run_check(sub, case)
        except Hang:
            return case, f"used {CPU_LIMIT_S} s of CPU without finishing", None
        if res is not None:
            if res[1] is not None and res[1] in known:
                stats.excluded[res[1]] += 1
                continue
            mark(k)
            got = shrink_seq(sub, src.seq, deadline=time.time() + SHRINK_S, known=known)
            return got if got else (case, res[0], res[1])
    return None


def run_hyp(sub, seed, count, stats, deadline, known, k=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st

    class HypSource(Source):
        def __init__(self, draw):
            self.draw = draw

        def _below(self, n, edge=False, lo=None):
            return 0 if n <= 1 else self.draw(st.integers(0, n - 1))

    @st.composite
    def cases(draw):
        return sub.gen(HypSource(draw))

    last = {}

    class Stop(KeyboardInterrupt):
        pass

    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None, derandomize=False,
              print_blob=False, report_multiple_bugs=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck))
    @given(cases())
    def test(case):
        if time.time() > deadline:
            stats.truncated = True
            raise Stop()
        if last and time.time() > last["at"] + SHRINK_S or not last and found(k):
            raise Stop()
        if not last:
            stats.note(sub, case)
        try:
            res = run_check(sub, case)
        except Hang:
            last.setdefault("at", time.time())
            last["fail"] = (case, f"used {CPU_LIMIT_S} s of CPU without finishing", None)
            raise
        if res is not None:
            if res[1] is not None and res[1] in known:
                stats.excluded[res[1]] += 1
                return
            mark(k)
            last.setdefault("at", time.time())
            last["fail"] = (case, res[0], res[1])
            raise Violation(res[0], res[1])

    try:
        test()
    except Violation:
        return last["fail"]
    except (Stop, Hang):
        return last.get("fail")
    except hypothesis.errors.HypothesisException:  # e.g. Flaky: keep the observed failure
        if "fail" in last:
            return last["fail"]
        raise
    return None


def run_enum(sub, part, parts, stats, deadline, known):
    for i, case in enumerate(sub.enum()):
        if i % parts != part:
            continue
        if i % 64 == 0 and time.time() > deadline:
            stats.truncated = True
            return None
        stats.note(sub, case)
        try:
            res = run_check(sub, case)
        except Hang:
            return case, f"used {CPU_LIMIT_S} s of CPU without finishing", None
        if res is not None:
            if res[1] is not None and res[1] in known:
                stats.excluded[res[1]] += 1
                continue
            return case, res[0], res[1]
    return None


ZONES = ["UTC0", "EST5EDT", "AAA-5:30", "BBB-14"]  # local time must not matter: every fourth shard runs in each


def set_zone(k):
    os.environ["TZ"] = ZONES[k % len(ZONES)]
    time.tzset()


def worker_init():
    sys.setrecursionlimit(3000)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_case(path):
    with open(path, encoding="utf-8") as f:
        return ast.literal_eval(f.read())
