"""C08 position field format, precision, value."""
import re
from decimal import Decimal

import gens
import ref
from build import build, pos_format_error
from common import *
from engine import Sub

RULE = ("degrees in [-180,180]: random, decimal grids, every neighbourhood of whole minutes/degrees at 1e-4..1e-16 and "
        "one ulp; position fields of 0..15 decimals, malformed fields; helpers and generated messages (every definition with positions, user-defined ones, all modes), both axes and "
        "precisions; non-trivial: not a whole number of degrees / not an empty field")


def degrees(s, typ):
    if s.bool(0.5):
        return gens.signed_pos(s, typ)
    import math
    top = 90 if typ == "LA" else 180
    v = s.uint(0, top * 60 * (10 ** s.choice([0, 0, 5, 7]))) % (top * 60 * 10 ** 7) / 60
    while v > top:
        v /= 10
    k = s.int(0, 5)
    if k == 1:
        v = math.nextafter(v, 1e9)
    elif k == 2:
        v = math.nextafter(v, -1e9)
    elif k >= 3:
        dec = s.choice([5, 7])
        v += s.choice([1, -1]) * (0.5 + s.choice([-1, 0, 1]) * 10.0 ** -s.int(1, 8)) * 10.0 ** -dec / 60
    return min(max(v, 0.0), float(top)) * s.choice([1, -1])


def gen(s):
    typ = s.choice(["LA", "LN"])
    v = degrees(s, typ)
    if s.bool(0.1):
        v = s.int(-90, 90)
    return typ, v, s.bool()


def check(case):
    typ, v, hp = case
    got = lib.ddd2dmm(v, typ, hp) if hp else lib.ddd2dmm(v, typ)
    require(isinstance(got, str), lambda: f"ddd2dmm{case} = {got!r}")
    why = pos_format_error(got, typ, v, hp)
    require(why is None, lambda: f"ddd2dmm{case}: {why}")
    back = lib.dmm2ddd(got)
    tol = (0.5 * 10.0 ** -(7 if hp else 5)) / 60 + 2e-10
    require(isinstance(back, float) and abs(back - abs(v)) <= tol, lambda: f"{v!r} -> {got!r} -> {back!r}")


def mangle(s, f):
    """a position field with a few characters added, dropped or replaced"""
    for _ in range(s.int(1, 3)):
        i = s.uint(0, len(f))
        k = s.int(0, 3)
        c = s.choice(["0", ".", "-", "+", " ", "_", "e", "E", "x", "N", ",", "5", "nan", "inf", "\u0665", "1e1"])
        f = f[:i] + (c + f[i:] if k <= 1 else c + f[i + 1:] if k == 2 else f[i + 1:])
    return f


def gen_field(s):
    typ = s.choice(["LA", "LN"])
    if s.bool(0.3):
        f = mangle(s, gens.degmin(s, typ))
        if ref.pos_of(f) != "" or not ref.lenient(f, typ):
            return typ, f
    if s.bool(0.2):
        return typ, s.choice(gens.BAD[typ] + ["", "None", "1234,5", "N", "12345", "1234"])
    return typ, gens.degmin(s, typ, s.choice([5, 7, 5, 7, 0, 1, 2, 3, 4, 6, 8, 9, 12, 15]))


def check_field(case):
    typ, f = case
    want = ref.pos_of(f)
    got = lib.dmm2ddd(f)
    if want != "" and (len(f.split(".")[0]) != (4 if typ == "LA" else 5) or int(f.split(".")[0][-2:]) > 59):
        require(isinstance(got, float), lambda: f"dmm2ddd({f!r}) = {got!r}")
        return
    if want == "":
        require(got == "" and isinstance(got, str), lambda: f"dmm2ddd({f!r}) = {got!r}, expected ''")
        return
    require(isinstance(got, float) and abs(Decimal(got) - want) <= Decimal("1e-9"),
            lambda: f"dmm2ddd({f!r}) = {got!r}, expected {want}")
    decs = len(f.split(".")[1])
    if decs in (5, 7):
        again = lib.ddd2dmm(got, typ, decs == 7)
        require(again == f, lambda: f"{f!r} -> {got!r} -> {again!r}")
    # the same field in messages
    for t, m, p, n in (("GN", "GLL", [f, "N", "00000.0", "E"] if typ == "LA" else ["0000.0", "N", f, "E"],
                        "lat" if typ == "LA" else "lon"),):
        msg = parse(ref.sentence(t, m, p))
        require(getattr(msg, n) == got, lambda: f"{m} field {f!r}: {n}={getattr(msg, n)!r}, dmm2ddd gives {got!r}")


def gen_msg(s):
    return degrees(s, "LA"), degrees(s, "LN"), s.bool(), s.choice(["GGA", "RMC", "GLL", "GNS"])


def check_msg(case):
    lat, lon, hp, m = case
    opt = {"hpnmeamode": True} if hp else {}
    msg = NMEAMessage("GN", m, 0, lat=lat, lon=lon, **opt)
    p = msg.payload
    fields = [n for n, _ in ref.G["GET"][m]]
    for n, typ, v in (("lat", "LA", lat), ("lon", "LN", lon)):
        why = pos_format_error(p[fields.index(n)], typ, v, hp)
        require(why is None, lambda: f"{m} {n}={v!r} hp={hp}: {why}")
    back = parse(msg.serialize())
    tol = (0.5 * 10.0 ** -(7 if hp else 5)) / 60 + 2e-10
    require(abs(back.lat - lat) <= tol and abs(back.lon - lon) <= tol,
            lambda: f"{m} lat={lat!r} lon={lon!r} -> {msg.serialize()!r} -> {back.lat!r} {back.lon!r}")
    again = NMEAMessage("GN", m, 0, lat=back.lat, lon=back.lon, **opt)
    for n in ("lat", "lon"):
        i = fields.index(n)
        require(again.payload[i] == p[i], lambda: f"{m} {n} field {p[i]!r} regenerated as {again.payload[i]!r}")


def gen_def(s):
    """any definition with positions, published or user-defined, in any mode"""
    import props.c07 as c07

    if s.bool(0.3):
        t, m, mode, user, kw, hp = c07.gen_kwu(s)
        return t, m, mode, user[m], user, kw, hp
    t, m, mode, key, tab, kw, hp = c07.gen_kw(s)
    return t, m, mode, ref.G[tab][key], None, kw, hp


def check_def(case):
    t, m, mode, fields, user, kw, hp = case
    msg, _, _ = build(t, m, mode, kw, hp, user)
    p = msg.payload
    names = gens.count_after_groups(fields, kw)
    require(len(names) == len(p), lambda: f"{msg!r} has {len(p)} fields, expected {len(names)}")
    for (name, typ), raw in zip(names, p):
        if typ in ("LA", "LN") and name in kw:
            why = pos_format_error(raw, typ, kw[name], hp)
            require(why is None, lambda: f"{msg!r} {name}={kw[name]!r} hp={hp}: {why}")


def gen_text(s):
    return [s.text("0123456789..-+ eE_NSx\u0660\u00b2", 0, 12)]


def check_text(case):
    got = lib.dmm2ddd(case[0])
    require(isinstance(got, float) or got == "", lambda: f"dmm2ddd({case[0]!r}) = {got!r}")


def grid():
    """whole minutes and degrees, and their nearest neighbours"""
    import math
    out = []
    for typ, top in (("LA", 90), ("LN", 180)):
        for mins in list(range(0, top * 60 + 1, 7)) + [top * 60]:
            for d in (0, 1e-13, -1e-13, 1e-9, -1e-9, 8.3e-8, -8.3e-8, 8.4e-10, -8.4e-10):
                v = min(max(mins / 60 + d, 0.0), float(top))
                out += [(typ, v, False), (typ, -v, True)]
            out.append((typ, min(math.nextafter(mins / 60, 999), float(top)), True))
    return out


SUBS = [
    Sub("encode", gen, check, quick=200000, nontrivial=lambda c: c[1] != int(c[1]), hyp=0.015,
        classify=lambda c: [c[0], "hp" if c[2] else "std"]),
    Sub("decode", gen_field, check_field, quick=60000, nontrivial=lambda c: c[1] != "", hyp=0.03,
        classify=lambda c: ["malformed" if ref.pos_of(c[1]) == "" else "field"]),
    Sub("message", gen_msg, check_msg, quick=40000, hyp=0.03),
    Sub("definitions", gen_def, check_def, quick=15000, hyp=0.03),
    Sub("text", gen_text, check_text, quick=20000, hyp=0.03),
    Sub("invalid", enum=lambda: [(None,), ("",), ("51.5",), ([],)],
        check=lambda c: require(lib.ddd2dmm(c[0], "LA") == "" == lib.ddd2dmm(c[0], "LN", True),
                                f"ddd2dmm({c[0]!r}) is not ''")),
    Sub("grid", enum=grid, check=check, nontrivial=lambda c: c[1] != int(c[1])),
]
