"""C05 repeating groups."""
import time

import gens
import ref
from common import *
from engine import Sub

SCALE = 2
RULE = ("sentences and keyword messages of all definitions with repeating groups, 0..130 occurrences, true and false "
        "count fields, truncation at every point; oracle: independent reference decoder; non-trivial: at least one "
        "group attribute present, or a count field that contradicts the sentence")

GROUPED = [a for a in ref.ADDRESSES if any(ref.is_group(t) for _, t in ref.G[a[1]][a[2]])]
COUNTED = [a for a in GROUPED
           if any(ref.is_group(t) and isinstance(t[0], str) and t[0] != "None" for _, t in ref.G[a[1]][a[2]])]
BUILD = [a for a in gens.BUILDABLE if a in GROUPED]


def gen(s):
    adr = s.choice(GROUPED)
    reps = s.weighted((4, None), (3, s.int(0, 12)), (2, s.int(0, 40)), (1, s.int(95, 130)))
    p = gens.def_payload(s, adr, pempty=0.05, reps=reps, miscount=0.3)
    if s.bool(0.3):
        p = p[:s.uint(1 if adr[4] else 0, len(p))]
    elif s.bool(0.2):
        p = p + [gens.value(s, "IN") for _ in range(s.int(1, 6))]
    return gens.talker_for(s, adr[3]), adr[3], adr[0], p


def check(case):
    t, m, mode, p = case
    n = len(p)
    t0 = time.process_time()
    check_parse(t, m, mode, p)
    used = time.process_time() - t0
    require(used < 2 + n * 0.02, lambda: f"parsing {n} fields took {used:.1f} s of CPU")


def nontriv(c):
    e = Expect(*c)
    return e.outcome == "ok" and any(a[0][-1].isdigit() and "_" in a[0] for a in e.attrs)


def gen_user(s):
    """user-defined messages with groups of each kind, followed by further fields"""
    if s.bool(0.15):  # a group within a group
        attrs = [["ga", "IN"], ["inner", [s.int(0, 3), [["ia", "ST"], ["ib", s.choice(["IN", "TM"])]][:s.int(1, 2)]]],
                 ["gz", "ST"]][:s.int(2, 3)]
        if s.bool(0.4):  # and more within that
            deep = [["ja", "ST"]] if s.bool() else [["ja", "IN"], ["most", [s.int(1, 2), [["ka", "ST"]]]], ["jb", "ST"]]
            attrs[1][1][1].insert(s.uint(0, len(attrs[1][1][1])), ["deep", [s.int(0, 3), deep]])
        fields = [["h", "ST"], ["grp", [s.int(0, 4), attrs]], ["tail", "IN"]]
        p = gens.payload_for(s, fields, pempty=0.05)
        return "GN", "ZQW", s.choice(ref.MODES), p[:s.uint(0, len(p))] if s.bool(0.4) else p, {"ZQW": fields}
    attrs = [["ga", s.choice(["IN", "ST", "DE"])], ["g_b", s.choice(["ST", "IN", "TM"])], ["gc", "ST"]][:s.int(1, 3)]
    kind = s.choice(["fixed", "named", "None"])
    n = s.weighted((6, s.int(0, 6)), (1, s.int(7, 40)), (1, s.int(41, 260)))
    fields = [["h", "ST"]]
    cnt = n
    if kind == "named":
        fields.append(["num", "IN"])
    elif kind == "None":
        cnt = "None"
    fields.append(["grp", ["num" if kind == "named" else cnt, attrs]])
    if kind != "None" and s.bool():
        fields += [["tail", "IN"], ["end", "ST"]]
    user = {"ZQW": fields}
    p = gens.payload_for(s, fields, reps=n, miscount=0.2, pempty=0.05)
    if s.bool(0.3):
        p = p[:s.uint(0, len(p))]
    elif s.bool(0.1):
        p = p[:len(p) - s.int(0, min(4, len(p)))]
    return "GN", "ZQW", s.choice(ref.MODES), p, user


def check_user(case):
    t, m, mode, p, user = case
    check_parse(t, m, mode, p, 1, user)


def gen_bulk(s):
    """absurd count fields"""
    adr = s.choice(COUNTED)
    p = gens.def_payload(s, adr, pempty=0.0, reps=s.int(0, 3))
    fields = ref.G[adr[1]][adr[2]]
    i = next(i for i, (n, _) in enumerate(fields) if any(ref.is_group(t) and t[0] == n for _, t in fields))
    p[i] = s.choice(["1000000", "99999999", "2147483647", "9223372036854775807", "1" + "0" * s.int(5, 60), "", "0", "-1"])
    if s.bool(0.2):
        p = p[:s.uint(1, len(p))]
    return gens.talker_for(s, adr[3]), adr[3], adr[0], p


def gen_kw(s):
    adr = s.choice(BUILD)
    kw = gens.kwargs_for(s, adr, p=s.choice([1.0, 0.6]))
    return gens.talker_for(s, adr[3]), adr[3], adr[0], adr[2], adr[1], kw, False


def check_kw(case):
    import build

    t, m, mode, key, tab, kw, hp = case
    msg, b, a = build.build(t, m, mode, kw, hp)
    build.check_built(ref.G[tab][key], msg, mode, kw, hp, b, a)
    build.check_parse_back(ref.G[tab][key], msg, kw, hp, key)


def gen_gs(s):
    names = [gens.text(s, 0, 4, False).replace(" ", "") + s.choice(["", "_", "_a", "x_y"]) for _ in range(s.int(0, 4))]
    kw = {}
    for n in names:
        if s.bool(0.7):
            kw[n + "_" + s.choice(["%02d", "%d", "%03d"]) % s.int(1, 130)] = 1
        else:
            kw[n + s.choice(["", "7", "lat2"])] = 1
    return [sorted(kw.items())]


def check_gs(case):
    import re

    kw = dict(case[0])
    want = max([int(m.group(1)) for m in (re.search(r"_([0-9]+)$", k) for k in kw) if m] or [0])
    got = lib.groupsize(**kw)
    require(got == want, lambda: f"groupsize({kw}) = {got}, expected {want}")


SUBS = [
    Sub("parse", gen, check, quick=30000, nontrivial=nontriv, hyp=0.04,
        classify=lambda c: [ref.lookup(c[1], c[2], c[3])[1] or "none"]),
    Sub("user", gen_user, check_user, quick=20000, nontrivial=lambda c: len(c[3]) > 1, hyp=0.04),
    Sub("absurd", gen_bulk, check, quick=4000, hyp=0.04),
    Sub("kwargs", gen_kw, check_kw, quick=15000, nontrivial=lambda c: any("_0" in k for k in c[5]), hyp=0.04),
    Sub("groupsize", gen_gs, check_gs, quick=4000, nontrivial=lambda c: len(c[0]) > 0),
    Sub("regress", enum=lambda: [("P", "UBX", 0, ["03"]), ("P", "UBX", 0, ["03", ""]), ("GN", "ALC", 0, []),
                                 ("P", "UBX", 0, ["03", "999999999999999"]),
                                 ("P", "ASHR", 0, ["SBD", "", "1", "2"])], check=check),
]
