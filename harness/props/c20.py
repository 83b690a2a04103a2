"""C20 geodetic <-> ECEF."""
import math

from common import *
from engine import Sub
from pynmeagps import ecef2llh, llh2ecef

RULE = ("latitudes, longitudes (edges, poles, equator, date line, tiny offsets from them), heights -10 km..10000 km "
        "(log distributed), WGS84 and ellipsoids of 1700..6400 km with inverse flattening 100..1000; oracle: reduced "
        "latitude formula, round trip against ground truth, mirror and rotation relations; non-trivial: any")

WGS = (6378137.0, 298.257223563)
ELL = [WGS, WGS, WGS, (6378137.0, 298.257222101), (6378206.4, 294.978698214), (6377563.396, 299.3249646),
       (6378388.0, 297.0), (3396190.0, 169.8944472), (6378245.0, 298.3)]


def angle(s, top):
    k = s.int(0, 4)
    if k == 0:
        v = s.choice([0, top, top / 2, 45.0, 30.0, 60.0, 57.29577951308232, 33.2, 56.8, 56.78, 33.21])
    elif k == 1:
        v = s.choice([0.0, float(top), 90.0, 45.0]) + s.choice([1, -1]) * 10.0 ** -s.int(0, 14)
    elif k == 2:
        v = 10.0 ** -s.int(0, 12) * s.int(0, 9)
    else:
        v = s.real(0.0, float(top))
    v = min(max(v, 0.0), float(top))
    return -v if s.bool() else v


def height(s):
    k = s.int(0, 4)
    if k == 0:
        return s.choice([0.0, -10000.0, 1e7, 100.0, 8848.86, -430.5, 1, 20200000 / 2])
    if k == 1:
        return s.real(-10000.0, 10000.0)
    if k == 2:
        return s.choice([1, -1]) * 10.0 ** -s.int(0, 6)
    return min(10.0 ** (s.uint(0, 7000) / 1000) * (1 + s.uint(0, 999) / 999), 1e7)


def ellipsoid(s):
    if s.bool(0.8):
        return s.choice(ELL)
    return s.real(1.7e6, 6.4e6), s.real(100.0, 1000.0)


def gen(s):
    return angle(s, 90), angle(s, 180), height(s), ellipsoid(s)


def exact(lat, lon, h, a, finv):
    """point on the ellipsoid by reduced latitude, plus height along the normal"""
    f = 1 / finv
    sp, cp = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    n = math.hypot(cp, (1 - f) * sp)
    p = a * cp / n + h * cp
    z = a * (1 - f) * (1 - f) * sp / n + h * sp
    return p * math.cos(math.radians(lon)), p * math.sin(math.radians(lon)), z


def lon_gap(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


def check_llh(got, lat, lon, h, what):
    require(isinstance(got, tuple) and len(got) == 3 and all(isinstance(x, float) for x in got), lambda: f"{what}: {got!r}")
    require(abs(got[0] - lat) <= 1e-8, lambda: f"{what}: latitude {got[0]!r}, expected {lat!r}")
    require(-90 <= got[0] <= 90 and -180 <= got[1] <= 180, lambda: f"{what}: {got!r} out of range")
    require(lon_gap(got[1], lon) * math.cos(math.radians(lat)) <= 1e-8,
            lambda: f"{what}: longitude {got[1]!r}, expected {lon!r}")
    require(abs(got[2] - h) <= 1e-3, lambda: f"{what}: height {got[2]!r}, expected {h!r}")


def check(case):
    lat, lon, h, (a, f) = case
    wgs = (a, f) == WGS
    want = exact(lat, lon, h, a, f)
    xyz = llh2ecef(lat, lon, h, a, f)
    require(len(xyz) == 3 and all(abs(g - w) <= 1e-5 for g, w in zip(xyz, want)),
            lambda: f"llh2ecef{(lat, lon, h, a, f)} = {xyz}, expected {want}")
    if wgs:
        require(llh2ecef(lat, lon, h) == xyz, lambda: f"defaults of llh2ecef{(lat, lon, h)} are not WGS84")
        require(ecef2llh(*want) == ecef2llh(*want, *WGS), lambda: f"defaults of ecef2llh{want} are not WGS84")
    got = ecef2llh(*want, a, f)
    check_llh(got, lat, lon, h, f"ecef2llh{(*want, a, f)} (from {lat, lon, h})")
    check_llh(ecef2llh(*xyz, a, f), lat, lon, h, f"round trip of {lat, lon, h, a, f}")
    back = llh2ecef(*got, a, f)
    require(all(abs(g - w) <= 1e-3 for g, w in zip(back, want)), lambda: f"{want} -> {got} -> {back} (a={a}, f={f})")
    # mirrored in the equator, and rotated by 180 and 90 degrees
    x, y, z = want
    check_llh(ecef2llh(x, y, -z, a, f), -lat, lon, h, f"ecef2llh{(x, y, -z, a, f)}")
    check_llh(ecef2llh(-x, -y, z, a, f), lat, lon + 180, h, f"ecef2llh{(-x, -y, z, a, f)}")
    check_llh(ecef2llh(-y, x, z, a, f), lat, lon + 90, h, f"ecef2llh{(-y, x, z, a, f)}")
    check_llh(ecef2llh(y, -x, z, a, f), lat, lon - 90, h, f"ecef2llh{(y, -x, z, a, f)}")
    check_llh(ecef2llh(x, -y, z, a, f), lat, -lon, h, f"ecef2llh{(x, -y, z, a, f)}")


def gen_core(s):
    k = s.int(0, 3)
    if k == 0:
        return s.choice([0.0, -0.0, 0]), s.choice([0.0, 0]), s.choice([0.0, 0, 1.0, 99999.0, -99999.0])
    r = 99999.9 * 10.0 ** -(s.uint(0, 4000) / 1000)
    th, ph = s.real(0.0, 3.141592), s.real(-3.141592, 3.141592)
    return r * math.sin(th) * math.cos(ph), r * math.sin(th) * math.sin(ph), r * math.cos(th)


def check_core(case):
    got = ecef2llh(*case)
    require(tuple(got) == (0.0, 0.0, -1e7), lambda: f"ecef2llh{case} = {got}, expected the nominal (0, 0, -1e7)")
    got = ecef2llh(*case, 6378206.4, 294.98)
    require(tuple(got) == (0.0, 0.0, -1e7), lambda: f"ecef2llh{case} = {got}, expected the nominal (0, 0, -1e7)")


def axes():
    """points on the axes and in the planes of two axes, as floats, negative zeros and ints"""
    return [(x, y, z, ell) for x in (0, 1, -1) for y in (0, 1, -1) for z in (0, 1, -1) if x or y or z
            for ell in (WGS, (6377563.396, 299.3249646), (3396190.0, 169.8944472))]


def check_axes(case):
    dx, dy, dz, (a, f) = case
    for r in (a - 9000, a, a + 1, a * 1.1, a + 9e6):
        n = math.sqrt(dx * dx + dy * dy + dz * dz)
        vals = [d * r / n for d in (dx, dy, dz)]
        lon = math.degrees(math.atan2(dy, dx)) if dx or dy else 0.0
        for v in (vals, [x if x else -0.0 for x in vals], [round(x) for x in vals]):
            got = ecef2llh(*v, a, f)
            what = f"ecef2llh{(*v, a, f)}"
            require(lon_gap(got[1], lon) <= 1e-6 or not (dx or dy), lambda: f"{what}: longitude {got[1]!r}, expected {lon}")
            require(got[0] == 0 if dz == 0 else (got[0] > 0) == (dz > 0), lambda: f"{what}: latitude {got[0]!r}")
            require(abs(abs(got[0]) - 90) <= 1e-8 or dx or dy, lambda: f"{what}: latitude {got[0]!r}")
            back = llh2ecef(*got, a, f)
            require(all(abs(g - w) <= 1e-3 for g, w in zip(back, v)), lambda: f"{what} = {got} -> {back}")


def grid():
    """every latitude in steps of 0.25 degrees, coarse heights and longitudes"""
    return [(la / 4, lo, h, WGS) for la in range(-360, 361) for lo in (-180.0, -120.0, -0.0, 37.5, 90.0, 180.0)
            for h in (-10000.0, 0.0, 1234.5, 4e5, 2.02e6, 1e7)]


SUBS = [
    Sub("points", gen, check, quick=110000, hyp=0.02, classify=lambda c: ["wgs84" if c[3] == WGS else "other"]),
    Sub("core", gen_core, check_core, quick=10000, hyp=0.02),
    Sub("grid", enum=grid, check=check),
    Sub("axes", enum=axes, check=check_axes),
]
