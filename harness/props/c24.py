"""C24 sentence splitting and formatting helpers."""
import re
from decimal import Decimal

import gens
import ref
from common import *
from engine import Sub
from pynmeagps import get_parts, hex2str, knots2spd, llh2iso6709, msgdesc

RULE = ("sentences of every kind as bytes and str with/without $ and line end; arbitrary bytes and text; numbers, units in "
        "any letter case, invalid units and values; hexadecimal numbers x widths; coordinates; message ids and near misses; "
        "oracle: independent formulas; non-trivial: any")


def gen_parts(s):
    t, m, mode, p = gens.any_sentence(s, pbad=0.1)
    if s.bool(0.2):
        t, m = s.choice(["P", "XX", "GN", "PX", "A", ""]), s.choice(["", "A", "GGA", "ZZZZZZ"])
    lead, end = s.choice(["$", "$", ""]), s.choice(["\r\n", "\n", "", "\r"])
    return t, m, p, lead, end, s.bool(), s.choice([None, None, "00", "zz", "", "1*2", "00$", "$", "0,1", " 0", "0 ", "\r0"])


def check_parts(case):
    t, m, p, lead, end, as_str, ck = case
    c = ref.content(t, m, p)
    k = ref.checksum(c) if ck is None else ck
    if c[:1] == "$" or "*" in c or not c:
        return
    text = f"{lead}{c}*{k}{end}"
    data = text if as_str else text.encode("utf-8")
    got = get_parts(data)
    hdr = t + m
    wt, wm = (hdr[:1], hdr[1:]) if hdr[:1] == "P" else (hdr[:2], hdr[2:])
    require(tuple(got) == (c, wt, wm, list(p), k), lambda: f"get_parts({data!r}) = {got!r}, expected {(c, wt, wm, p, k)!r}")
    got[3].append("x")  # the list is the caller's
    again = get_parts(data)
    require(tuple(again) == (c, wt, wm, list(p), k), lambda: f"get_parts({data!r}) the second time: {again!r}")
    if ck is None:
        res, msg = outcome_of(lambda: parse(data, 0))
        if res == "ok":
            require(isinstance(msg, NMEAMessage) and (msg.talker, msg.msgID, msg.payload, msg.checksum) == tuple(again[1:]),
                    lambda: f"parser reports {msg!r} {msg.checksum}, get_parts {again!r}")


def gen_bad(s):
    k = s.int(0, 6)
    if k == 0:
        return s.bytes(0, 30).replace(b"*", b"+")
    if k == 1:
        return s.text(gens.TAME + gens.ODD + ",\r\n", 0, 30)
    if k == 2:
        return s.choice([None, 0, 1.5, [], {}, (), True, ["$GNGGA,1*00"]])
    if k == 3:
        return b"$GNTXT," + s.bytes(0, 5) + s.choice([b"\xff", b"\xc3(", b"\x80", b"\xe2\x82", b"\xed\xa0\x80"]) + b"*00\r\n"
    t, m, _, p = gens.any_sentence(s)
    raw = ref.sentence(t, m, p)
    return raw.split(b"*")[0] + s.choice([b"", b"\r\n"]) if s.bool() else raw.decode().split("*")[0]


def check_bad(case):
    try:
        got = get_parts(case)
    except NMEAMessageError:
        return
    text = case.decode("utf-8", "replace") if isinstance(case, bytes) else case
    require(isinstance(text, str) and "*" in text and "\ufffd" not in text,
            lambda: f"get_parts({case!r}) = {got!r} instead of NMEAMessageError")


FACT = {"MS": "0.5144447324", "FS": "1.68781084", "MPH": "1.15078", "KMPH": "1.852001"}


def gen_spd(s):
    v = s.choice([s.sint(1000), s.real(-1000.0, 1000.0), s.real(0.0, 1e9), 0, 0.0, 1])
    u = s.choice(list(FACT))
    u = "".join(x.lower() if s.bool() else x for x in u)
    return v, u, s.choice(["KN", "", "M", "KPH", "M/S", "MS ", "KMPHX", "mm", " "]), s.choice(["x", None, [1], {}, "1.5", b"1"])


def check_spd(case):
    v, u, badu, badv = case
    want = Decimal(v) * Decimal(FACT[u.upper()])
    got = knots2spd(v, u)
    require(abs(Decimal(got) - want) <= abs(want) * Decimal("1e-15"), lambda: f"knots2spd({v!r}, {u!r}) = {got!r}, expected {want}")
    require(knots2spd(v) == knots2spd(v, "MS"), lambda: f"default unit of knots2spd({v!r})")
    for a, exc in (((v, badu), KeyError), ((badv, u), TypeError)):
        try:
            got = knots2spd(*a)
        except exc:
            continue
        except Exception as err:
            raise Violation(f"knots2spd{a} raised {err!r} instead of {exc.__name__}") from err
        raise Violation(f"knots2spd{a} = {got!r} instead of {exc.__name__}")


def gen_hex(s):
    return s.choice([s.int(0, 255), s.int(0, 1 << 16), s.int(0, 1 << 40), 16 ** s.int(0, 15) - s.int(0, 1)]), s.int(0, 24)


def check_hex(case):
    n, w = case
    want = "%X" % n
    require(hex2str(n) == want, lambda: f"hex2str({n}) = {hex2str(n)!r}, expected {want!r}")
    want = want.zfill(w)
    require(hex2str(n, w) == want, lambda: f"hex2str({n}, {w}) = {hex2str(n, w)!r}, expected {want!r}")


def mag(s, top):
    k = s.int(0, 4)
    v = [s.int(0, top), s.real(0.0, float(top)), s.int(0, top * 10**4) / 10**4, s.choice([0, 0.0, 0.5, top, float(top)]),
         s.int(1, 10**6) * 10.0 ** -s.int(0, 30)][k]
    if top > 1000 and s.bool(0.05):
        v = s.choice([1e15, 1e16, 1.5e17, 10**20, 1e22]) + s.int(0, 3)
    return -v if s.bool() else v


def gen_iso(s):
    return mag(s, 90), mag(s, 180), mag(s, 30000), s.choice([None, "WGS_84", "NAD83", "X", gens.text(s, 1, 8), "wgs_84", "epsg:4979", "a/b"])


def check_iso(case):
    la, lo, al, crs = case
    got = llh2iso6709(la, lo, al) if crs is None else llh2iso6709(la, lo, al, crs)
    m = re.fullmatch(r"([+-])([0-9.]+)([+-])([0-9.]+)([+-])([0-9.]+)CRS(.*)/", got, re.S)
    require(m, lambda: f"llh2iso6709{case} = {got!r}")
    g = m.groups()
    for v, sg, tx in zip((la, lo, al), g[0::2], g[1::2]):
        require(sg == ("-" if v < 0 else "+") and re.fullmatch(r"[0-9]+(\.[0-9]+)?", tx) and type(v)(tx) == abs(v), lambda: f"llh2iso6709{case} = {got!r}: {sg}{tx} for {v!r}")
    require(g[6] == (crs or "WGS_84"), lambda: f"llh2iso6709{case} = {got!r}: wrong reference system")


def gen_desc(s):
    k = s.int(0, 3)
    if k == 0:
        return s.choice(sorted(ref.G["MSGIDS"]))
    if k == 1:
        return s.choice(sorted(ref.G["MSGIDS_PROP"]))
    m = s.choice(sorted(ref.G["MSGIDS"]) + sorted(ref.G["MSGIDS_PROP"]))
    return s.choice([m[:-1], m + "X", m.lower(), "GN" + m, "P" + m, m + m, m[:3], " " + m, m + " ", m.title(), gens.unknown_id(s), "", m[1:]])


def check_desc(m):
    want = ref.G["MSGIDS"].get(m, ref.G["MSGIDS_PROP"].get(m))
    got = msgdesc(m)
    if want is not None:
        require(got == want, lambda: f"msgdesc({m!r}) = {got!r}, expected {want!r}")
    else:
        require("unknown" in got.lower() and m in got, lambda: f"msgdesc({m!r}) = {got!r} for an unknown id")


SUBS = [
    Sub("parts", gen_parts, check_parts, quick=40000, hyp=0.02),
    Sub("bad", gen_bad, check_bad, quick=30000, hyp=0.02),
    Sub("speed", gen_spd, check_spd, quick=20000, hyp=0.02),
    Sub("hex", gen_hex, check_hex, quick=20000, hyp=0.02),
    Sub("iso6709", gen_iso, check_iso, quick=20000, hyp=0.02),
    Sub("desc", gen_desc, check_desc, quick=20000, hyp=0.02),
]
