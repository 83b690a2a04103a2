"""Constants written in the code under test, as candidate inputs (a fuzzing dictionary).

They only steer the generators towards values the current code compares with; no oracle
looks at them.  Constants beyond those of the frozen list golden/literals.json (i.e. ones that
an edit brought in) are tried more often.
"""

import ast
import collections
import functools
import json
import os

TABLES = ("nmeatypes_get", "nmeatypes_set", "nmeatypes_poll", "nmeatypes_get_prop", "nmeatypes_set_prop",
          "nmeatypes_poll_prop", "nmeatypes_core", "_version", "__init__")


def harvest(src):
    """Counter of (kind, value) constants in the library's functions"""
    out = collections.Counter()
    for base, _, files in os.walk(src):
        for fn in sorted(files):
            if not fn.endswith(".py") or fn[:-3] in TABLES:
                continue
            try:
                with open(os.path.join(base, fn), encoding="utf-8") as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, ValueError, OSError):
                continue
            doc = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
            for n in ast.walk(tree):
                if not isinstance(n, ast.Constant) or id(n) in doc:
                    continue
                v = n.value
                if isinstance(v, (bool, type(None), complex, type(...))):
                    continue
                if isinstance(v, (str, bytes)) and not 0 < len(v) <= 24:
                    continue
                out[type(v).__name__[0] + repr(v)] += 1
    return out


def split(counter):
    nums, texts, blobs = [], [], []
    for key in sorted(counter):
        v = ast.literal_eval(key[1:])
        if isinstance(v, str):
            texts.append(v)
            blobs.append(v.encode("utf-8", "replace"))
        elif isinstance(v, bytes):
            blobs.append(v)
            t = v.decode("latin-1")
            texts.append(t)
        elif v == v and abs(v) < 1e300:
            nums.append(v)
    return nums, texts, blobs


class Pool:
    def __init__(self):
        self.all = self.new = ([], [], [])

    def load(self, src, golden):
        cur = harvest(src)
        with open(golden, encoding="utf-8") as f:
            base = collections.Counter(json.load(f))
        self.all, self.new = split(cur), split(cur - base)
        self.ints.cache_clear()
        self.reals.cache_clear()

    @functools.lru_cache(None)
    def ints(self, lo, hi, new):
        out = set()
        for v in (self.new if new else self.all)[0]:
            for w in (v, -v):
                for x in (int(w) - 1, int(w), int(w) + 1):
                    if lo <= x <= hi:
                        out.add(x)
        return sorted(out)

    @functools.lru_cache(None)
    def reals(self, lo, hi, new):
        out = set()
        for v in (self.new if new else self.all)[0]:
            for w in (v, -v):
                for x in (w, w - 1, w + 1, w + 1e-6, w - 1e-6, w + 1e-10, w - 1e-10, w + 0.5, w / 2):
                    if lo <= x <= hi:
                        out.add(float(x))
        return sorted(out)

    def texts(self, new):
        return (self.new if new else self.all)[1]

    def blobs(self, new):
        return (self.new if new else self.all)[2]

    def nums(self, new):
        return (self.new if new else self.all)[0]


POOL = Pool()

if __name__ == "__main__":  # freeze the current constants
    import sys

    print(json.dumps(dict(sorted(harvest(sys.argv[1]).items())), indent=0, ensure_ascii=True))
