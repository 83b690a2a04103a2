"""C04 every field decoded as published."""
import random

import gens
import ref
from common import *
from engine import RandomSource, Sub

RULE = ("sentences laid out from every published definition of every mode (frozen field dictionary), fields valid, "
        "empty, malformed or edge, sentence complete, truncated or extended, as bytes and str; oracle: independent "
        "reference decoder; non-trivial: at least one decoded attribute that is not empty")


def gen(s):
    kw = {"pbad": s.choice([0.0, 0.0, 0.2]), "pempty": s.choice([0.1, 0.0, 0.5])}
    t, m, mode, p = gens.def_sentence(s, miscount=0.1, **kw)
    return t, m, mode, p, s.choice([1, 1, 0, 3]), s.bool(0.2), s.choice(["\r\n", "\r\n", "\n", ""])


def check(case):
    t, m, mode, p, validate, as_str, eol = case
    check_parse(t, m, mode, p, validate, None, as_str, eol)


def gen_numbers(s):
    """some number field holds something else"""
    t, m, mode, p = gens.def_sentence(s, pbad=0.15, okbad=False)
    return t, m, mode, p, s.choice([0, 1]), s.bool(0.2), "\r\n"


def nontriv(c):
    e = Expect(*c[:5])
    return e.outcome == "type" or bool(e.attrs) and any(v != "" for _, _, v in e.attrs)


def each():
    """each definition: all fields valid; all empty; and every shorter length"""
    out = []
    for i, adr in enumerate(ref.ADDRESSES):
        for k in range(2):
            s = RandomSource(random.Random(i * 11 + k))
            p = gens.def_payload(s, adr, pempty=0.0, reps=2)
            t = gens.talker_for(s, adr[3])
            for n in range(len(p), -1 if k == 0 else len(p) - 1, -1):
                out.append((t, adr[3], adr[0], p[:n], 1, bool(k), "\r\n"))
            out.append((t, adr[3], adr[0], p + ["1", "x"], 1, False, "\r\n"))
        keep = 1 if adr[4] else 0
        out.append((t, adr[3], adr[0], p[:keep] + [""] * (len(p) - keep), 1, False, "\r\n"))
    return out


SUBS = [
    Sub("fields", gen, check, quick=90000, nontrivial=nontriv, hyp=0.03,
        classify=lambda c: [("GET", "SET", "POLL")[c[2]], Expect(*c[:5]).outcome]),
    Sub("numbers", gen_numbers, check, quick=20000, nontrivial=nontriv, hyp=0.03,
        classify=lambda c: [Expect(*c[:5]).outcome]),
    Sub("each", enum=each, check=check, nontrivial=nontriv),
]
