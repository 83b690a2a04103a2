"""C09 dates and times."""
import datetime

import gens
import ref
from common import *
from engine import Sub

RULE = ("all calendar dates of 1969..2068 and 1000..9999 in three formats (each day of a full cycle of century years "
        "enumerated), all times with 0..6 decimals, malformed strings; helpers, parsed fields of every definition with "
        "a date/time field, generated messages from objects and ISO text; non-trivial: a well formed date or time")

DATES = ("DT", "DTL", "DM")
POOL = [a for a in ref.ADDRESSES
        if any(t in DATES for _, t in ref.flat(ref.G[a[1]][a[2]]))]
TIMES = [a for a in ref.ADDRESSES if any(t == "TM" for _, t in ref.flat(ref.G[a[1]][a[2]]))]


def digits_of(y, m, d, typ):
    return {"DT": f"{d:02d}{m:02d}{y % 100:02d}", "DTL": f"{d:02d}{m:02d}{y:04d}",
            "DM": f"{m:02d}{d:02d}{y % 100:02d}"}[typ]


def mangled(s, f):
    """a field with a digit missing, doubled or replaced"""
    i = s.uint(0, max(0, len(f) - 1))
    k = s.int(0, 2)
    if k == 0:
        return f[:i] + f[i + 1:]
    x = s.choice(["0", " ", "1", "-", "+", "_", ".", "\u0663", "a", "/", ":", "\n", "9"])
    return f[:i] + x + f[i + (k == 1):]


def gen_date(s):
    typ = s.choice(DATES)
    if s.bool(0.2):
        return typ, mangled(s, gens.date_(s, typ))
    if s.bool(0.25):
        return typ, s.choice(gens.BAD[typ] + ["", "      ", "1e1223"] +
                             (["31042024", "29022023"] if typ == "DTL" else ["313131", "300224"]))
    return typ, gens.date_(s, typ)


def clock(o):
    return f"{o.hour:02d}{o.minute:02d}{o.second:02d}.{o.microsecond // 10000:02d}"


ZONES = [datetime.timezone(datetime.timedelta(minutes=m)) for m in (0, 120, -570, 345)]


def zoned(conv, obj, digits):
    """the digits are those of the object's own clock, whatever zone it is in and whatever equal instant came before"""
    here = obj.replace(tzinfo=ZONES[0])
    if isinstance(obj, datetime.datetime):
        if obj.year in (1, 9999):
            return
        same = [here.astimezone(z) for z in ZONES]
    else:
        day = datetime.datetime.combine(datetime.date(2000, 1, 2), here)
        same = [day.astimezone(z).timetz() for z in ZONES]
    for o in same:
        require(conv(o) == digits(o), lambda: f"{o!r} -> {conv(o)!r}, expected {digits(o)!r}")


def check_date(case):
    typ, f = case
    want = ref.date_of(f, typ)
    got = lib.date2utc(f, typ)
    require(type(got) is type(want) and got == want, lambda: f"date2utc({f!r}, {typ}) = {got!r}, expected {want!r}")
    if typ == "DT":
        require(lib.date2utc(f) == want, lambda: f"date2utc({f!r}) = {lib.date2utc(f)!r}")
    if want != "":
        back = lib.date2str(want, typ)
        require(back == f, lambda: f"date2str({want!r}, {typ}) = {back!r}, expected {f!r}")
        both = datetime.datetime.combine(want, datetime.time(23, 59, 59, 999999), datetime.timezone.utc)
        require(lib.date2str(both, typ) == f, lambda: f"date2str({both!r}, {typ}) = {lib.date2str(both, typ)!r}, expected {f!r}")
        zoned(lambda o: lib.date2str(o, typ), both, lambda o: digits_of(o.year, o.month, o.day, typ))
        if typ == "DT":
            require(lib.date2str(want) == f, lambda: f"date2str({want!r}) = {lib.date2str(want)!r}")


def gen_time(s):
    if s.bool(0.2):
        return [mangled(s, gens.time_(s))]
    if s.bool(0.25):
        return [s.choice(gens.BAD["TM"] + ["", "      ", "24", "1200", "noon", "120060.00", "120000.00Z"])]
    return [gens.time_(s)]


def check_time(case):
    f = case[0]
    want = ref.time_of(f)
    got = lib.time2utc(f)
    require(type(got) is type(want) and got == want, lambda: f"time2utc({f!r}) = {got!r}, expected {want!r}")
    if want != "":
        full = f"{f[:6]}.{(f[7:] + '000000')[:6]}"
        back = lib.time2str(want)
        require(back == full[:9], lambda: f"time2str({want!r}) = {back!r}, expected {full[:9]!r}")
        both = datetime.datetime.combine(datetime.date(2024, 2, 29), want)
        require(lib.time2str(both) == full[:9], lambda: f"time2str({both!r}) = {lib.time2str(both)!r}, expected {full[:9]!r}")
        zoned(lib.time2str, both, clock)
        zoned(lib.time2str, both.timetz(), clock)


def gen_field(s):
    adr = s.choice(POOL if s.bool() else TIMES)
    return (gens.talker_for(s, adr[3]), adr[3], adr[0],
            gens.def_payload(s, adr, pbad=s.choice([0.0, 0.3]), pempty=0.05))


def check_field(case):
    check_parse(*case)


BUILD = [a for a in gens.BUILDABLE if a in POOL or a in TIMES]


def gen_kw(s):
    adr = s.choice(BUILD)
    kw = gens.kwargs_for(s, adr, p=0.3)
    for n, t in ref.G[adr[1]][adr[2]]:
        if t in DATES or t == "TM":
            kw[n] = gens.typed(s, t)
    return gens.talker_for(s, adr[3]), adr[3], adr[0], adr[2], adr[1], kw, False


def check_kw(case):
    import build

    t, m, mode, key, tab, kw, hp = case
    msg, b, a = build.build(t, m, mode, kw, hp)
    build.check_built(ref.G[tab][key], msg, mode, kw, hp, b, a)
    build.check_parse_back(ref.G[tab][key], msg, kw, hp, key)


def all_days():
    out = []
    d = datetime.date(1969, 1, 1)
    while d < datetime.date(2069, 1, 1):
        for typ in DATES:
            out.append((typ, digits_of(d.year, d.month, d.day, typ)))
        d += datetime.timedelta(days=1)
    return out


def all_seconds():
    return [[f"{h:02d}{m:02d}{x:02d}{t}"] for h in range(24) for m in range(60) for x in (0, 1, 29, 30, 58, 59)
            for t in ("", ".00", ".99", ".5", ".999999")]


def two_digits():
    """every pair of digits in every place, right or wrong"""
    out = []
    for a in range(100):
        for y in (1969, 1999, 2000, 2024, 2068):
            for typ in DATES:
                for b in (0, 1, 2, 12, 13, 28, 29, 30, 31, 32, 99):
                    out += [(typ, digits_of(y, a, b, typ)), (typ, digits_of(y, b, a, typ))]
    return out


def two_digit_times():
    out = []
    for a in range(100):
        for t in ("", ".00", ".99", ".5", ".999999"):
            for b in (0, 12, 23, 59):
                out += [[f"{a:02d}{b:02d}{b:02d}{t}"], [f"{min(b, 23):02d}{a:02d}{b:02d}{t}"],
                        [f"{min(b, 23):02d}{b:02d}{a:02d}{t}"]]
    return out


SUBS = [
    Sub("date", gen_date, check_date, quick=40000, nontrivial=lambda c: ref.date_of(c[1], c[0]) != "", hyp=0.03,
        classify=lambda c: [c[0]]),
    Sub("time", gen_time, check_time, quick=40000, nontrivial=lambda c: ref.time_of(c[0]) != "", hyp=0.03),
    Sub("field", gen_field, check_field, quick=30000, hyp=0.03,
        nontrivial=lambda c: any(t in DATES + ("TM",) and v != "" for _, t, v in Expect(*c).attrs or ())),
    Sub("build", gen_kw, check_kw, quick=30000, hyp=0.03),
    Sub("days", enum=all_days, check=check_date),
    Sub("pairs", enum=two_digits, check=check_date),
    Sub("timepairs", enum=two_digit_times, check=check_time),
    Sub("seconds", enum=all_seconds, check=check_time),
    Sub("invalid", enum=lambda: [(None,), (5,)],
        check=lambda c: require(lib.date2utc(c[0]) == "" == lib.time2str(c[0]) == lib.date2str(c[0]),
                                f"{c[0]!r} is not turned into ''")),
]
