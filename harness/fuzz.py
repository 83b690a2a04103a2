"""fuzz.py <property id> <sub index> <seed> <seconds> <output file>

Coverage-guided search (atheris / libFuzzer) over the same generator and oracle as the other
engines: the fuzzer's bytes are the generator's choice sequence, and branches and comparisons
of the library under test are the feedback.  Started by run.py in the thorough tier, one process
per sub-check and worker; writes its statistics and at most one (shrunk) failure to the output file.
"""

import os
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(REPO, "src")]

import importlib  # noqa: E402
import logging  # noqa: E402
import random  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

import atheris  # noqa: E402

with atheris.instrument_imports(include=["pynmeagps"]):
    import pynmeagps  # noqa: E402,F401

import engine  # noqa: E402


def width(n):
    return ((n - 1).bit_length() + 7) // 8


class ByteSource(engine.Source):
    """choices read from fuzzer bytes; exhausted input gives choice 0"""

    def __init__(self, data):
        self.data, self.pos, self.seq = data, 0, []

    def _below(self, n, edge=False, lo=None):
        if n <= 1:
            return 0
        k = width(n)
        v = int.from_bytes(self.data[self.pos:self.pos + k], "big") % n
        self.pos += k
        self.seq.append(v)
        return v


class SeedSource(engine.RandomSource):
    """random choices that also writes the bytes which make ByteSource repeat them"""

    def __init__(self, rng):
        super().__init__(rng)
        self.out = bytearray()

    def _below(self, n, edge=False, lo=None):
        v = super()._below(n, edge, lo)
        if n > 1:
            self.out += v.to_bytes(width(n), "big")
        return v


def main():
    pid, idx, seed, secs, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    logging.disable(logging.CRITICAL)
    engine.POOL.load(os.path.join(REPO, "src", "pynmeagps"), os.path.join(ROOT, "golden", "literals.json"))
    mod = importlib.import_module(f"props.{pid.lower()}")
    sub = mod.SUBS[idx]
    engine.worker_init()
    engine.set_zone(seed)
    known = set(sys.argv[6].split()) if len(sys.argv) > 6 else set()
    stats = engine.Stats()
    end = time.time() + secs
    corpus = tempfile.mkdtemp(prefix="verif-fuzz-")
    for i in range(60):
        src = SeedSource(random.Random(seed * 7919 + i))
        sub.gen(src)
        with open(os.path.join(corpus, f"s{i}"), "wb") as f:
            f.write(src.out)

    def finish(fail=None, err=None):
        shutil.rmtree(corpus, ignore_errors=True)
        with open(out + ".tmp", "w", encoding="utf-8", errors="backslashreplace") as f:
            f.write(repr({"evals": stats.evals, "hashes": sorted(stats.hashes), "labels": dict(stats.labels),
                          "samples": stats.samples, "excluded": dict(stats.excluded), "fail": fail, "error": err}))
        os.replace(out + ".tmp", out)
        os._exit(0)

    def one(data):
        try:
            if time.time() > end:
                finish()
            src = ByteSource(data)
            case = sub.gen(src)
            stats.note(sub, case)
            try:
                res = engine.run_check(sub, case)
            except engine.Hang:
                finish((case, f"used {engine.CPU_LIMIT_S} s of CPU without finishing", None))
            if res is not None:
                if res[1] is not None and res[1] in known:
                    stats.excluded[res[1]] += 1
                    return
                got = engine.shrink_seq(sub, src.seq, deadline=time.time() + 60, known=known)
                finish(got if got else (case, res[0], res[1]))
        except Exception:  # pylint: disable=broad-except
            finish(err=traceback.format_exc())

    atheris.Setup([sys.argv[0], f"-seed={seed % (1 << 31) or 1}", f"-max_total_time={int(secs) + 30}", "-max_len=3000",
                   "-rss_limit_mb=6000", "-timeout=120", "-print_final_stats=0", "-verbosity=0", corpus], one)
    atheris.Fuzz()
    finish()


main()
