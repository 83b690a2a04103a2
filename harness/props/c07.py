"""C07 hemisphere letters and signs agree."""
import re
from decimal import Decimal

import gens
import ref
from build import *
from engine import Sub

RULE = ("every definition with a position or direction field (plus user-defined ones with several positions), parsed "
        "with all letters and generated from signed values incl. zero, tiny and limit magnitudes; non-trivial: a "
        "non-zero position with a direction, or a direction without a position")


def has_dir(fields):
    return any(t in ("LA", "LN", "LAD", "LND") for _, t in ref.flat(fields))


POOL = [a for a in ref.ADDRESSES if has_dir(ref.G[a[1]][a[2]])]
BUILD = [a for a in gens.BUILDABLE if has_dir(ref.G[a[1]][a[2]])]
LETTERS = {"LAD": "NS", "LND": "EW"}


def pairs(names):
    """[(position name, direction name, type)] by the published layout: a direction belongs to the
    nearest preceding position of its axis that has none yet"""
    out, wait = [], {"LAD": None, "LND": None}
    for n, t in names:
        b = re.sub(r"_[0-9]+$", "", n)
        if t == "LA" or b == "lat":
            wait["LAD"] = n
        elif t == "LN" or b == "lon":
            wait["LND"] = n
        elif t in wait:
            if wait[t]:
                out.append((wait[t], n, t))
                wait[t] = None
            else:
                out.append((None, n, t))
    return out


def user_positions(s):
    fields = []
    for i in range(s.int(1, 4)):
        typ = s.choice(["LA", "LN"])
        fields.append([s.choice([f"p{i}", f"lat{i}", f"lon{i}", "lat" if typ == "LA" else "lon"] if i == 0
                                else [f"p{i}", f"q_{i}x"]), typ])
        for _ in range(s.int(0, 2)):
            if s.bool(0.3):
                fields.append([f"v{i}{len(fields)}", s.choice(["ST", "IN", "DE"])])
        if s.bool(0.85):
            fields.append([f"d{i}", "LAD" if typ == "LA" else "LND"])
        if s.bool(0.3):
            fields.append([f"x{i}", s.choice(["DE", "ST", "LAD", "LND"])])
    if s.bool(0.3):  # some of them in a repeating group
        a = s.uint(0, len(fields) - 1)
        b = s.uint(a, len(fields) - 1)
        fields[a:b + 1] = [["grp", [s.int(1, 3), fields[a:b + 1]]]]
    return {"ZPOS": fields}


def gen(s):
    if s.bool(0.25):
        user = user_positions(s)
        adr, t, m, mode, fields = None, s.choice(["GN", "P"]), "ZPOS", 0, user["ZPOS"]
        p = gens.payload_for(s, fields, pempty=0.05, pbad=0.05)
    else:
        user = None
        adr = s.choice(POOL)
        t, m, mode = gens.talker_for(s, adr[3]), adr[3], adr[0]
        fields = ref.G[adr[1]][adr[2]]
        p = gens.def_payload(s, adr, pempty=0.05, pbad=0.05)
    for i, (n, typ) in enumerate(x for x in fields if not ref.is_group(x[1])):
        if i < len(p) and typ in LETTERS and s.bool(0.15):
            p[i] = s.choice(["", "N", "S", "E", "W", "n", "s", "e", "w", "SS", " S"])
    if s.bool(0.1):
        p = p[:s.uint(1, len(p))] if p else p
    return t, m, mode, p, user


def check(case):
    t, m, mode, p, user = case
    exp, raw, msg = check_parse(t, m, mode, p, 1, user)
    if msg is None:
        return
    # stated directly, not through the reference decoder
    at = dict(ref.attrs_of(msg))
    for pos, dr, typ in pairs([(n, ty) for n, ty, _ in exp.attrs]):
        neg = LETTERS[typ][1]
        i = [n for n, _, _ in exp.attrs].index(dr)
        if exp.key != "SSNSNC":
            require(at[dr] == p[i], lambda: f"{raw!r}: direction {dr} is {at[dr]!r}, field {p[i]!r}")
        v = at.get(pos)
        if pos is None or not isinstance(v, (int, float)):
            continue
        if at[dr] == neg:
            require(v <= 0, lambda: f"{raw!r}: {pos}={v!r} with {dr}={at[dr]}")
        else:
            require(v >= 0, lambda: f"{raw!r}: {pos}={v!r} with {dr}={at[dr]!r}")


def gen_kw(s):
    adr = s.choice(BUILD)
    kw = gens.kwargs_for(s, adr, p=s.choice([1.0, 0.8, 0.4]))
    return gens.talker_for(s, adr[3]), adr[3], adr[0], adr[2], adr[1], kw, s.bool()


def check_kw(case):
    t, m, mode, key, tab, kw, hp = case
    fields = ref.G[tab][key]
    msg, b, a = build(t, m, mode, kw, hp)
    check_built(fields, msg, mode, kw, hp, b, a)
    back = check_parse_back(fields, msg, kw, hp, key)
    names = gens.count_after_groups(fields, kw)
    types = dict(names)
    at = dict(ref.attrs_of(back))
    for pos, dr, typ in pairs(names):
        if pos is None or pos not in kw:
            continue
        v, n = kw[pos], [x for x, _ in names].index(dr)
        want = LETTERS[typ][1 if v < 0 else 0]
        require(msg.payload[n] == want, lambda: f"{msg!r}: {dr} for {pos}={v!r}")
        res = 10.0 ** -(7 if hp else 5) / 60
        if types[pos] != "DE" and abs(v) > 2 * res:
            require((at[pos] < 0) == (v < 0), lambda: f"{msg!r}: {pos}={v!r} parsed back as {at[pos]!r}")


def gen_kwu(s):
    user = user_positions(s)
    kw = {}
    for n, t in gens.count_after_groups(user["ZPOS"], {}):
        if s.bool(0.85):
            kw[n] = gens.typed(s, t)
    return "GN", "ZPOS", s.choice(ref.MODES), user, kw, s.bool()


def check_kwu(case):
    t, m, mode, user, kw, hp = case
    msg, b, a = build(t, m, mode, kw, hp, user)
    check_built(user[m], msg, mode, kw, hp, b, a)
    check_parse_back(user[m], msg, kw, hp, m, user)


def check_dec(case):
    t, m, mode, user, kw, hp = case
    conv = decimals(user[m])
    msg, b, a = build(t, m, mode, kw, hp, user, conv=conv)
    check_built(user[m], msg, mode, kw, hp, b, a, conv=conv)
    check_parse_back(user[m], msg, kw, hp, m, user)


def nontriv(c):
    e = Expect(c[0], c[1], c[2], c[3], 1, c[4])
    return e.outcome == "ok" and any(ty in ("LA", "LN") and isinstance(v, Decimal) and v != 0 or ty in LETTERS and v
                                     for _, ty, v in e.attrs)


SUBS = [
    Sub("parse", gen, check, quick=60000, nontrivial=nontriv, hyp=0.03,
        classify=lambda c: ["user" if c[4] else "published"]),
    Sub("build", gen_kw, check_kw, quick=40000, hyp=0.03,
        nontrivial=lambda c: any(isinstance(v, float) for v in c[5].values())),
    Sub("decimal", gen_kwu, check_dec, quick=10000, nontrivial=lambda c: len(c[4]) > 0, hyp=0.03),
    Sub("builduser", gen_kwu, check_kwu, quick=10000, nontrivial=lambda c: len(c[4]) > 0, hyp=0.03),
]
