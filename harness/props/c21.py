"""C21 distances, bearings, areas."""
import math

from common import *
from engine import Sub
from pynmeagps import area, bearing, haversine, planar

RULE = ("pairs of coordinates: random, displaced by 1e-9..1e2 degrees, antipodal and nearly so, polar, on one meridian, on "
        "the equator, across the date line, equal; radii; oracle: vector formulas (atan2), algebraic relations; "
        "non-trivial: the two coordinates differ")
R = 6378.137
RM = 6378137.0


def coord(s):
    k = s.int(0, 4)
    if k == 0:
        la, lo = s.choice([0.0, 90.0, -90.0, 45.0]), s.choice([0.0, 180.0, -180.0, 90.0, -90.0])
    elif k == 1:
        la, lo = s.sint(90), s.sint(180)
    else:
        la, lo = s.real(-90.0, 90.0), s.real(-180.0, 180.0)
    return la, lo


def wrap(lo):
    return lo - 360 if lo > 180 else lo + 360 if lo < -180 else lo


def clampl(la):
    return min(max(la, -90.0), 90.0)


def gen(s):
    la, lo = coord(s)
    k = s.int(0, 8)
    d = [10.0 ** -s.int(0, 9) * s.uint(0, 99) * s.choice([1, -1]) for _ in range(2)]
    if k == 0:
        lb, lp = la, lo
    elif k == 1:
        lb, lp = -la, wrap(lo + 180)
    elif k == 2:
        lb, lp = clampl(-la + d[0] / 10), wrap(wrap(lo + 180) + d[1] / 10)
    elif k == 3:
        lb, lp = clampl(la + d[0]), wrap(lo + d[1])
    elif k == 4:  # same meridian, same parallel
        lb, lp = (s.real(-90.0, 90.0), lo) if s.bool() else (la, s.real(-180.0, 180.0))
    elif k == 5:
        la, lb, lp = 0.0, 0.0, s.real(-180.0, 180.0)
    elif k == 6:  # date line
        lo = s.choice([180.0, 179.9999, -180.0, 180 - abs(d[0]) / 100])
        lb, lp = clampl(la + d[1] / 100), s.choice([-180.0, -179.9999, 180.0, -180 + abs(d[0]) / 100])
    else:
        lb, lp = coord(s)
    return la, lo, lb, lp, s.choice([R, R, RM, 1.0, 3396.19, 6371.0, 0.5])


def vec(la, lo):
    a, o = math.radians(la), math.radians(lo)
    return math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a)


def angle(la, lo, lb, lp):
    u, v = vec(la, lo), vec(lb, lp)
    # |u-v| and |u+v| keep full precision at both ends
    m = math.sqrt(sum((x - y) ** 2 for x, y in zip(u, v)))
    p = math.sqrt(sum((x + y) ** 2 for x, y in zip(u, v)))
    return 2 * math.atan2(m, p)


def tol(d):
    return 1e-11 + 4e-15 / max(math.sin(d), 4e-8)


def dlon(lo, lp):
    return wrap(lp - lo)


def check(case):
    la, lo, lb, lp, radius = case
    d = angle(la, lo, lb, lp)
    h = haversine(la, lo, lb, lp, radius)
    require(isinstance(h, float) and h >= 0, lambda: f"haversine{case} = {h!r}")
    require(h <= radius * math.pi * (1 + 1e-14), lambda: f"haversine{case} = {h!r} exceeds half the circumference")
    if d * RM > 50:
        require(abs(h / radius - d) <= tol(d), lambda: f"haversine{case} = {h!r}, expected {d * radius!r}")
    else:
        require(h / radius <= d + 6e-8, lambda: f"haversine{case} = {h!r} for {d * RM} m")
    back = haversine(lb, lp, la, lo, radius)
    require(abs(h - back) <= radius * tol(d), lambda: f"haversine{case} = {h!r}, swapped {back!r}")
    if (la, lo) == (lb, lp):
        require(h == 0, lambda: f"haversine{case} = {h!r} for one point")
    if radius == R:
        require(haversine(la, lo, lb, lp) == h, lambda: f"haversine{case[:4]}: default radius is not {R} km")
    # mirrored and shifted pairs have the same distance
    mir = haversine(-la, lo, -lb, lp, radius)
    require(abs(mir - h) <= radius * tol(d), lambda: f"haversine{case} = {h!r}, mirrored {mir!r}")
    # bearing
    b = bearing(la, lo, lb, lp)
    require(isinstance(b, float) and 0 <= b < 360, lambda: f"bearing{case[:4]} = {b!r}")
    f1, f2, dl = math.radians(la), math.radians(lb), math.radians(dlon(lo, lp))
    east = math.sin(dl) * math.cos(f2)
    # north component without cancellation for close points
    north = math.sin(f2 - f1) + 2 * math.sin(f1) * math.cos(f2) * math.sin(dl / 2) ** 2
    size = math.hypot(east, north)
    if size > 1e-6:
        want = math.degrees(math.atan2(east, north)) % 360
        gap = abs(want - b) % 360
        gap = min(gap, 360 - gap)
        require(gap <= 1e-10 + 1e-12 / size, lambda: f"bearing{case[:4]} = {b!r}, expected {want!r}")
    # planar
    p = planar(la, lo, lb, lp, radius)
    require(isinstance(p, float) and p >= 0, lambda: f"planar{case} = {p!r}")
    if (la, lo) == (lb, lp):
        require(p == 0, lambda: f"planar{case} = {p!r} for one point")
    if radius == RM:
        require(planar(la, lo, lb, lp) == p, lambda: f"planar{case[:4]}: default radius is not {RM} m")
    if d * RM < 50 and max(abs(la), abs(lb)) <= 89:
        require(abs(p / radius - d) <= d * 1e-3 + 2e-13, lambda: f"planar{case} = {p!r}, expected {d * radius!r}")
    # area
    ar = area(la, lo, lb, lp, radius)
    require(isinstance(ar, float) and ar >= 0, lambda: f"area{case} = {ar!r}")
    want = radius**2 * abs(math.sin(f1) - math.sin(f2)) * math.radians(abs(lo - lp))
    require(abs(ar - want) <= 1e-12 * radius**2, lambda: f"area{case} = {ar!r}, expected {want!r}")
    require(ar == area(lb, lp, la, lo, radius), lambda: f"area{case} = {ar!r}, swapped {area(lb, lp, la, lo, radius)!r}")
    if la == lb or lo == lp:
        require(ar == 0, lambda: f"area{case} = {ar!r} for coinciding latitudes or longitudes")
    if radius == R:
        require(area(la, lo, lb, lp) == ar, lambda: f"area{case[:4]}: default radius is not {R} km")
    # scaling with the radius
    for k in (2.0, 1000.0):
        for fn, e, v in ((haversine, 1, h), (planar, 1, p), (area, 2, ar)):
            g = fn(la, lo, lb, lp, radius * k)
            require(abs(g - v * k**e) <= 1e-12 * abs(g) + 1e-300, lambda: f"{fn.__name__}{case}: {v!r}, {g!r} for {k} times the radius")


def grid():
    pts = [(la, lo) for la in (-90, -89.9999, -45, -0.0001, 0, 0.0001, 45, 60, 89.9999, 90)
           for lo in (-180, -179.9999, -90, -0.0001, 0, 0.0001, 90, 135, 179.9999, 180)]
    return [(float(a), float(b), float(c), float(d), R) for a, b in pts for c, d in pts]


SUBS = [
    Sub("pairs", gen, check, quick=110000, hyp=0.02, nontrivial=lambda c: c[:2] != c[2:4],
        classify=lambda c: ["short" if angle(*c[:4]) * RM < 50 else "antipodal" if angle(*c[:4]) > 3.14 else "other"]),
    Sub("grid", enum=grid, check=check),
]
