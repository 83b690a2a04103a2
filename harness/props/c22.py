"""C22 GNSS week / time of week."""
import datetime as dt

from common import *
from engine import Sub
from pynmeagps import leapsecond, utc2wnotow, wnotow2utc

RULE = ("instants from each system's epoch to 2035 and up to two rollovers on: random, within 40 s of leap seconds, of week ends (UTC and GNSS) and of "
        "rollovers, at whole/half milliseconds and microseconds; naive, UTC and other time zones; systems G,E,C,J,I,R; "
        "oracle: own leap second table and integer arithmetic; non-trivial: at least one week after the epoch")
UTC = dt.timezone.utc
WEEK = dt.timedelta(days=7)
# first instant (UTC) of each TAI-UTC value since the GPS epoch
LEAPS = [dt.datetime(y, m, 1, tzinfo=UTC) for y, m in (
    (1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7),
    (1996, 1), (1997, 7), (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1))]
EARLY = [dt.datetime(y, m, 1, tzinfo=UTC) for y, m in (
    (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1), (1977, 1), (1978, 1), (1979, 1), (1980, 1))]
GPS0 = dt.datetime(1980, 1, 6, tzinfo=UTC)
SYS = {"G": (GPS0, 1024), "J": (GPS0, 1024), "E": (dt.datetime(1999, 8, 22, tzinfo=UTC), 4096),
       "I": (dt.datetime(1999, 8, 22, tzinfo=UTC), 1024), "C": (dt.datetime(2006, 1, 1, tzinfo=UTC), 8192),
       "R": (GPS0, 1024)}
END = dt.datetime(2035, 12, 31, tzinfo=UTC)
FAR = {g: ep + WEEK * (2 * roll + 10) for g, (ep, roll) in SYS.items()}  # two rollovers on


def offset(utc, g):
    if g == "R":
        return 0
    n = sum(t <= utc for t in LEAPS)
    return n - 14 if g == "C" else n


def instant(s, g):
    ep = SYS[g][0]
    k = s.int(0, 5)
    jitter = dt.timedelta(seconds=s.sint(40)) if s.bool() else dt.timedelta(milliseconds=s.sint(2500))
    if s.bool(0.3):
        jitter += dt.timedelta(microseconds=s.sint(1500))
    if k == 0:
        t = s.choice(LEAPS) + jitter
    elif k == 1:  # week ends
        t = ep + WEEK * s.int(0, (END - ep) // WEEK) + jitter
    elif k == 2:  # GNSS week ends
        t = ep + WEEK * s.int(0, (END - ep) // WEEK)
        t += jitter - dt.timedelta(seconds=offset(t, g))
    elif k == 3:  # rollovers and leap second adjacent weeks
        t = ep + WEEK * SYS[g][1] * s.int(0, 2) + jitter + WEEK * (s.sint(2) if s.bool(0.3) else 0)
    else:
        end = FAR[g] if s.bool(0.2) else END
        t = ep + dt.timedelta(seconds=s.uint(0, int((end - ep).total_seconds())), microseconds=s.uint(0, 999999))
    return min(max(t, ep), FAR[g])


def gen(s):
    g = s.choice("GECJIR")
    t = instant(s, g)
    tz = s.choice([0, 0, None, s.int(-14, 14) * 60, s.int(-840, 840)])
    return g, (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond), tz


def at(case):
    g, f, tz = case
    t = dt.datetime(*f, tzinfo=UTC)
    if tz is None:
        return t, t.replace(tzinfo=None)
    return t, t.astimezone(dt.timezone(dt.timedelta(minutes=tz)))


def check(case):
    g = case[0]
    utc, given = at(case)
    ep, roll = SYS[g]
    ls = offset(utc, g)
    if g != "R":
        got = leapsecond(given, g)
        require(got == ls, lambda: f"leapsecond({given}, {g}) = {got}, expected {ls}")
        if g == "G":
            require(leapsecond(given) == ls, lambda: f"leapsecond({given}) = {leapsecond(given)}, expected {ls}")
    total = utc - ep + dt.timedelta(seconds=ls)
    wno, rest = divmod(total, WEEK)
    tow = rest // dt.timedelta(milliseconds=1)
    got = utc2wnotow(given, g, False)
    require(tuple(got) == (wno, tow, ls) and all(type(x) is int for x in got),
            lambda: f"utc2wnotow({given}, {g}, continuous) = {got}, expected {(wno, tow, ls)}")
    for mod in (utc2wnotow(given, g, True), utc2wnotow(given, g)):
        require(tuple(mod) == (wno % roll, tow, ls), lambda: f"utc2wnotow({given}, {g}) = {mod}, expected {(wno % roll, tow, ls)}")
    if g == "G":
        require(utc2wnotow(given) == mod, lambda: f"default system of utc2wnotow({given}) is not GPS")
    ms = utc.replace(microsecond=utc.microsecond // 1000 * 1000)
    if (utc - ms).total_seconds() > 0 and rest % dt.timedelta(milliseconds=1) == dt.timedelta(0):
        ms = utc
    for l in (None, ls):
        back = wnotow2utc(wno, tow, l, g, False, False)
        require(back == ms and back.utcoffset() == dt.timedelta(0),
                lambda: f"wnotow2utc({wno}, {tow}, {l}, {g}, continuous) = {back}, expected {ms}")
    if wno < roll:
        back = wnotow2utc(wno, tow, gnss=g)
        require(back == ms, lambda: f"wnotow2utc({wno}, {tow}, {g}) = {back}, expected {ms}")
        if g == "G":
            require(wnotow2utc(wno, tow) == ms, lambda: f"default system of wnotow2utc({wno}, {tow}) is not GPS")


def to_utc(total, g, ls):
    """instant of a GNSS time since the epoch; None inside a leap second"""
    ep = SYS[g][0]
    if g == "R":
        return ep + total
    if ls is not None:
        return ep + total - dt.timedelta(seconds=ls)
    for n in range(-1, 19):
        t = ep + total - dt.timedelta(seconds=n)
        if offset(t, g) == n:
            return t
    return None


def gen_back(s):
    g = s.choice("GECJIR")
    roll = SYS[g][1]
    k = s.int(0, 3)
    tow = s.choice([s.uint(0, 604799999), s.int(0, 604799999), s.int(0, 40) * 1000, 604800000 - s.int(1, 40000),
                    s.int(604800000, 10**10)])
    if k == 0:
        t = s.choice(LEAPS) + dt.timedelta(milliseconds=s.sint(40000)) - SYS[g][0]
        if t >= dt.timedelta(0):
            return g, t // WEEK % roll, (t % WEEK) // dt.timedelta(milliseconds=1), None, s.bool()
    wno = s.uint(0, roll - 1) if k == 1 else s.int(0, 2900) if k == 2 else max(0, roll * s.int(1, 2) + s.sint(3))
    return g, wno, tow, s.choice([None, None, 0, s.int(0, 30), s.int(-5, 18)]), s.bool()


def check_back(case):
    g, wno, tow, ls, auto = case
    roll = SYS[g][1]
    cands = []
    now = dt.datetime.now(UTC)
    for i in range(6):
        total = WEEK * (wno % roll + i * roll) + dt.timedelta(milliseconds=tow % 604800000)
        try:
            cands.append(to_utc(total, g, ls))
        except OverflowError:
            break
    if any(c is None or abs(c - now) < dt.timedelta(days=1) for c in cands):
        return
    want = ([c for c in cands if c <= now] or cands[:1])[-1] if auto else cands[0]
    got = wnotow2utc(wno, tow, ls, g, auto)
    require(got == want and got.utcoffset() == dt.timedelta(0),
            lambda: f"wnotow2utc({wno}, {tow}, ls={ls}, {g}, autoroll={auto}) = {got}, expected {want}")
    if not auto:
        total = WEEK * wno + dt.timedelta(milliseconds=tow % 604800000)
        want = to_utc(total, g, ls)
        if want is not None:
            got = wnotow2utc(wno, tow, ls, g, False, False)
            require(got == want, lambda: f"wnotow2utc({wno}, {tow}, ls={ls}, {g}, continuous) = {got}, expected {want}")


def gen_auto(s):
    g = s.choice("GECJIR")
    t = instant(s, g)
    return g, (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond // 1000 * 1000), s.bool()


def check_auto(case):
    """instants of the current rollover period survive modular week numbers"""
    g, f, derive = case
    t = dt.datetime(*f, tzinfo=UTC)
    now = dt.datetime.now(UTC)
    roll = SYS[g][1] * WEEK
    day = dt.timedelta(days=1)
    w, tow, ls = utc2wnotow(t, g)
    got = wnotow2utc(w, tow, None if derive else ls, g, True)
    if now - roll + day < t < now - day:
        require(got == t, lambda: f"{t} ({g}) -> week {w}, tow {tow} -> {got}")


def gen_current(s):
    k = s.int(0, 3)
    off = s.sint(25000) if k < 2 else s.sint(10**8) if k == 2 else s.choice([0, 1, 10, 500, 1000, 18000, -1, -500, -1000, -18000])
    return s.choice("GECJIR"), off, s.bool(), s.sint(30) if s.bool(0.1) else 0


def check_current(case):
    """instants just before and just after the present, resolved while the clock runs"""
    g, off, derive, extra = case
    for _ in range(3):
        a = dt.datetime.now(UTC)
        t = (a + dt.timedelta(milliseconds=off)).replace(microsecond=0) + dt.timedelta(milliseconds=off % 1000)
        w, tow, ls = utc2wnotow(t, g)
        ls = None if derive else ls + extra
        got = wnotow2utc(w, tow, ls, g, True)
        b = dt.datetime.now(UTC)
        roll = SYS[g][1]
        cands = [to_utc(WEEK * (w + i * roll) + dt.timedelta(milliseconds=tow), g, ls) for i in range(4)]
        if None in cands:
            return
        wants = {([c for c in cands if c <= n] or cands[:1])[-1] for n in (a, b)}
        if got in wants:
            return
    raise Violation(f"{t} ({g}) -> week {w}, tow {tow}; wnotow2utc with ls={ls} at {a} -> {got}, expected {wants}")


def check_now(case):
    """without an argument the present is converted"""
    g, mod = case
    a = dt.datetime.now(UTC)
    w = utc2wnotow(None, g, mod)
    b = dt.datetime.now(UTC)
    lo, hi = utc2wnotow(a, g, mod), utc2wnotow(b, g, mod)
    require(lo[:2] <= w[:2] <= hi[:2] or lo[0] > hi[0], lambda: f"utc2wnotow(None, {g}, {mod}) = {w}, now is {lo}..{hi}")


def around_leaps():
    """each second (and half second) within 25 s of each leap second, each system"""
    out = []
    for t in LEAPS + [dt.datetime(2000, 1, 1, tzinfo=UTC)]:
        for g in "GECJIR":
            for k in range(-50, 51):
                x = t + dt.timedelta(milliseconds=500 * k)
                if x >= SYS[g][0]:
                    out.append((g, (x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond), 0))
    return out


def early():
    return [(t.year, t.month, k) for t in EARLY for k in range(-3, 4)] + [(1972, 1, k) for k in range(0, 4)]


def check_early(case):
    """the published table also covers 1972 to 1980"""
    t = dt.datetime(*case[:2], 1, tzinfo=UTC) + dt.timedelta(seconds=case[2])
    want = sum(x <= t for x in EARLY) - 9
    require(leapsecond(t, "G") == want, lambda: f"leapsecond({t}) = {leapsecond(t, 'G')}, expected {want}")


SUBS = [
    Sub("instants", gen, check, quick=60000, hyp=0.03, classify=lambda c: [c[0]],
        nontrivial=lambda c: at(c)[0] - SYS[c[0]][0] > WEEK),
    Sub("weeks", gen_back, check_back, quick=40000, hyp=0.03, classify=lambda c: ["autoroll" if c[4] else "plain"]),
    Sub("autoroll", gen_auto, check_auto, quick=20000, hyp=0.03),
    Sub("current", gen_current, check_current, quick=4000, hyp=0),
    Sub("leaps", enum=around_leaps, check=check),
    Sub("early", enum=early, check=check_early),
    Sub("now", enum=lambda: [(g, m) for g in "GECJIR" for m in (True, False)] * 20, check=check_now),
]
