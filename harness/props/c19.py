"""C19 degree-minute(-second) display forms."""
import re
from decimal import Decimal

from common import *
from engine import Sub
from pynmeagps import deg2dmm, deg2dms, dms2deg, latlon2dmm, latlon2dms

RULE = ("degrees in [-180,180]: edges, decimals of few places, values within 1e-13..1e-4 of whole minutes, seconds and "
        "degrees, full precision; text forms over a small alphabet and composed; oracle: exact decimal arithmetic and an "
        "independent grammar; non-trivial: non-zero degrees / text with a digit")

PM, PS = Decimal("0.5e-7") + Decimal("2e-11"), Decimal("0.5e-5") + Decimal("1e-9")


def degrees(s, top):
    k = s.int(0, 5)
    if k == 0:
        v = s.real(0.0, float(top))
    elif k == 1:  # around a multiple of a minute
        v = s.int(0, top * 60) / 60 + s.choice([1, -1, 0]) * 10.0 ** -s.int(4, 15)
    elif k == 2:  # around a multiple of a second
        v = s.int(0, top * 3600) / 3600 + s.choice([1, -1, 0]) * 10.0 ** -s.int(5, 15)
    elif k == 3:
        v = s.int(0, top) + s.choice([1, -1, 0]) * s.int(1, 99) * 10.0 ** -s.int(3, 15)
    elif k == 4:
        v = 10.0 ** -s.int(0, 20) * s.int(0, 9)
    else:  # half units of the last place
        v = (s.int(0, top * 60 * 10**7) * 2 + 1) / (2 * 60 * 10**7) if s.bool() else \
            (s.int(0, top * 3600 * 10**5) * 2 + 1) / (2 * 3600 * 10**5)
    v = min(max(v, 0.0), float(top))
    v = int(v) if s.bool(0.1) else v
    return -v if s.bool() else v


def gen(s):
    return degrees(s, 90), degrees(s, 180), s.int(0, 12)


DMM = re.compile("([0-9]+)\u00b0([0-9]+(?:\\.[0-9]{1,7})?)\u2032([NSEW])")
DMS = re.compile("([0-9]+)\u00b0([0-9]+)\u2032([0-9]+(?:\\.[0-9]{1,5})?)\u2033([NSEW])")


def check_form(v, axis, text, dms, rnd):
    m = (DMS if dms else DMM).fullmatch(text)
    require(m, lambda: f"{v!r} {axis}: {text!r} is not of the published form")
    parts = [Decimal(x) for x in m.groups()[:-1]]
    require(all(p < 60 for p in parts[1:]), lambda: f"{v!r} {axis}: 60 or more minutes or seconds in {text!r}")
    exact = abs(Decimal(v))
    if dms:
        shown = parts[0] * 3600 + parts[1] * 60 + parts[2]
        err, tol = abs(shown - exact * 3600), PS
    else:
        shown = parts[0] * 60 + parts[1]
        err, tol = abs(shown - exact * 60), PM
    require(err <= tol, lambda: f"{v!r} {axis}: {text!r} is off by {err:.3e} {'seconds' if dms else 'minutes'}")
    letter = ("S" if v < 0 else "N") if axis == "LA" else ("W" if v < 0 else "E")
    if shown or v == 0:
        require(m.groups()[-1] == letter, lambda: f"{v!r} {axis}: hemisphere in {text!r}, expected {letter}")
    back = dms2deg(text, rnd)
    tol2 = tol / (3600 if dms else 60) + Decimal("0.5").scaleb(-rnd) + Decimal("1e-12")
    require(isinstance(back, float) and abs(Decimal(back) - Decimal(v)) <= tol2,
            lambda: f"{v!r} {axis} -> {text!r} -> {back!r} (rounding {rnd})")
    require(round(back, rnd) == back, lambda: f"{text!r}: {back!r} has more than {rnd} decimals")
    if rnd == 7:
        require(dms2deg(text) == back, lambda: f"{text!r}: default rounding gives {dms2deg(text)!r}, 7 gives {back!r}")


def check(case):
    lat, lon, rnd = case
    a, b, c, d = deg2dmm(lat, "LA"), deg2dmm(lon, "LN"), deg2dms(lat, "LA"), deg2dms(lon, "LN")
    check_form(lat, "LA", a, False, rnd)
    check_form(lon, "LN", b, False, rnd)
    check_form(lat, "LA", c, True, rnd)
    check_form(lon, "LN", d, True, rnd)
    require(tuple(latlon2dmm(lat, lon)) == (a, b), lambda: f"latlon2dmm{(lat, lon)} = {latlon2dmm(lat, lon)}, single {(a, b)}")
    require(tuple(latlon2dms(lat, lon)) == (c, d), lambda: f"latlon2dms{(lat, lon)} = {latlon2dms(lat, lon)}, single {(c, d)}")


# ---------------------------------------------------------------- text to degrees
SEPS = "\u00b0\u2032\u2033'\":-dms/_"


def number(s, top):
    k = s.int(0, 4)
    if k == 0:
        return str(s.int(0, top))
    if k == 1:
        return f"{s.int(0, top):02d}"
    if k == 2:
        return s.choice(["0", "00", ".5", "5.", "0.0", "59.9999999", "59", "000.25"])
    return f"{s.int(0, top)}.{s.int(0, 999999)}"


def gen_text(s):
    k = s.int(0, 3)
    if k == 0:  # small alphabet soup
        return s.text("0159.\u00b0'\u2033 NSEW-\n\t\r", 0, 14), s.int(0, 10)
    out = ""
    for i in range(s.int(0, 4) if k == 1 else s.int(1, 3)):
        out += number(s, 180 if i == 0 else 59) + s.choice(["\u00b0'\u2033"[min(i, 2)], s.choice(SEPS)])
        out += " " * s.int(0, 1)
    out += s.choice(["N", "S", "E", "W", "", "", " S", "X", "n", "NS"][:6 if k > 1 else 10])
    if k == 1 and out:
        i = s.uint(0, len(out) - 1)
        out = out[:i] + s.choice(["", "..", "\u00b0", "9", "-", "N", "\n", "\t", "\x00", ",", "+", "e"]) + out[i + 1:]
    return out, s.int(0, 10)


def grammar(text):
    """-> signed exact degrees, None when invalid, or "skip" for texts with a letter N,S,E,W not at the end"""
    t = text.replace(" ", "")
    if any(c in "NSEW" for c in t[:-1]) or t[-1:] == "\n":  # a line end after the text may be ignored
        return "skip"
    i, nums = 0, []
    while i < len(t) and len(nums) < 3:
        j = i
        while j < len(t) and (t[j] in "0123456789."):
            j += 1
        if j == i or j == len(t):
            break
        nums.append(t[i:j])
        i = j + 1
    rest = t[i:]
    if not nums or rest not in ("", "N", "S", "E", "W"):
        return None
    val = Decimal(0)
    for k, n in enumerate(nums):
        if n.count(".") > 1 or n == ".":
            return None
        val += Decimal(n) / 60**k
    return -val if t[-1] in "SW" else val


def check_text(case):
    text, rnd = case
    want = grammar(text)
    try:
        got = dms2deg(text, rnd)
    except ValueError:
        got = None
    if isinstance(want, str):
        return
    if want is None:
        require(got is None, lambda: f"invalid text {text!r} converted to {got!r}")
        return
    require(isinstance(got, float), lambda: f"{text!r} gave {got!r}, expected {want}")
    tol = Decimal("0.5").scaleb(-rnd) + abs(want) * Decimal("1e-15") + Decimal("1e-13")
    require(abs(Decimal(got) - want) <= tol, lambda: f"{text!r} converted to {got!r}, expected {want} (rounding {rnd})")
    require(round(got, rnd) == got, lambda: f"{text!r}: {got!r} has more than {rnd} decimals")


def minutes():
    """every whole minute of latitude and longitude, and its neighbours"""
    import math

    out = []
    for k in range(0, 180 * 60 + 1, 7):
        v = k / 60
        for w in (v, math.nextafter(v, 0.0), min(math.nextafter(v, 999.0), 180.0), max(v - 1e-9, 0.0), max(v - 2e-10, 0.0)):
            out.append((min(w, 90.0), -w, 7))
    return out


def check_other(case):
    v, f, a = case
    got = getattr(lib, f)(v, a)
    require(got == "" and isinstance(got, str), lambda: f"{f}({v!r}, {a}) = {got!r}, expected ''")


SUBS = [
    Sub("forms", gen, check, quick=90000, hyp=0.02, nontrivial=lambda c: c[0] != 0 or c[1] != 0),
    Sub("text", gen_text, check_text, quick=120000, hyp=0.02, nontrivial=lambda c: any(x.isdigit() for x in c[0]),
        classify=lambda c: ["invalid" if grammar(c[0]) is None else "valid"]),
    Sub("minutes", enum=minutes, check=check),
    Sub("other", enum=lambda: [(v, f, a) for v in (None, "", "51.5", "N", [], (), {}, b"5", float("nan"), float("inf"), float("-inf"))
                               for f in ("deg2dmm", "deg2dms") for a in ("LA", "LN")], check=check_other),
]
