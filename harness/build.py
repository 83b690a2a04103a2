"""Reference check of messages generated from keyword attributes (shared by C02, C06, C07, C18)."""
import datetime
import re
from decimal import Decimal

import gens
import ref
from common import *

UTC = datetime.timezone.utc


def decimals(fields):
    """conversion for build: numbers of decimal and position attributes are supplied as Decimal objects"""
    types = {n: t for n, t in ref.flat(fields)}

    def conv(name, v):
        typ = types.get(name, types.get(re.sub(r"_[0-9]+$", "", name)))
        if typ in ("DE", "LA", "LN") and type(v) in (int, float):
            return Decimal(repr(v))
        return gens.lib_value(v)

    return conv


def build(talker, msgid, mode, kw, hp=False, user=None, validate=1, conv=lambda n, v: gens.lib_value(v)):
    """-> (message, instant before, instant after)"""
    lkw = {k: conv(k, v) for k, v in kw.items()}
    before = datetime.datetime.now(UTC)
    opt = {"hpnmeamode": True} if hp else {}
    if user is not None:
        opt["userdefined"] = gens.lib_table(user)
    if validate != 1:
        opt["validate"] = validate
    msg = NMEAMessage(talker, msgid, mode, **opt, **lkw)
    return msg, before, datetime.datetime.now(UTC)


def pos_format_error(raw, typ, deg, hp):
    """why raw is not the published format of |deg| degrees, or None"""
    decs = 7 if hp else 5
    m = re.fullmatch(r"([0-9]{%d})([0-9]{2}\.[0-9]{%d})" % (2 if typ == "LA" else 3, decs), raw)
    if not m:
        return f"{raw!r} is not {'dd' if typ == 'LA' else 'ddd'}mm. with {decs} decimals"
    if Decimal(m.group(2)) >= 60:
        return f"{raw!r} has 60 or more minutes"
    err = abs(Decimal(m.group(1)) * 60 + Decimal(m.group(2)) - abs(Decimal(deg)) * 60)
    if err > Decimal("0.5").scaleb(-decs) + Decimal("2e-11"):
        return f"{raw!r} is off {deg!r} degrees by {err:.3e} minutes"
    return None


def date_digits(v, typ):
    y, m, d = v[1:4]
    if typ == "DTL":
        return f"{d:02d}{m:02d}{y:04d}"
    if typ == "DM":
        return f"{m:02d}{d:02d}{y % 100:02d}"
    return f"{d:02d}{m:02d}{y % 100:02d}"


def time_ok(raw, v):
    h, mi, sec, us = v[1:5]
    full = f"{h:02d}{mi:02d}{sec:02d}.{us:06d}"
    if v[0] == "isotime":  # taken over as written, without its colons
        return raw == full or us == 0 and raw == full[:6]
    return raw == full[:9]


def check_built(fields, msg, mode, kw, hp, before, after, key=None, conv=lambda n, v: gens.lib_value(v)):
    """every field of a generated message is the supplied or the nominal value"""
    want = gens.count_after_groups(fields, kw)
    got = ref.attrs_of(msg)
    require([g[0] for g in got] == [w[0] for w in want],
            lambda: f"{msg!r}: attributes {[g[0] for g in got]}, expected {[w[0] for w in want]}")
    p = msg.payload
    require(len(p) == len(want), lambda: f"{msg!r}: {len(p)} fields, expected {len(want)}")
    require(all(isinstance(x, str) for x in p), lambda: f"{msg!r}: payload not all str: {p!r}")
    pend = {"LAD": None, "LND": None}
    for (name, typ), raw, (_, gv) in zip(want, p, got):
        base = re.sub(r"_[0-9]+$", "", name)

        def bad(why):
            raise Violation(f"{msg!r}: {name} ({typ}): {why}; supplied {kw.get(name)!r}")

        own = None
        if typ in ("LAD", "LND") and pend[typ] is not None:
            pos, pend[typ] = pend[typ], None
            v = kw.get(pos)
            neg = isinstance(v, (int, float)) and v < 0
            letter = ("S" if neg else "N") if typ == "LAD" else ("W" if neg else "E")
            if raw != letter:
                bad(f"direction {raw!r} of {pos}={v!r}, expected {letter!r}")
            if gv != letter:
                bad(f"attribute is {gv!r}, field {raw!r}")
            continue
        if typ == "LA" or base == "lat":
            pend["LAD"] = name
        elif typ == "LN" or base == "lon":
            pend["LND"] = name
        if name in kw:
            own = kw[name]
            if gv != conv(name, own):
                bad(f"attribute is {gv!r}")
            if typ in ref.TEXT:
                ok = raw == str(own)
            elif typ == "IN":
                ok = raw == str(own) if not isinstance(own, str) else raw == own
            elif typ == "DE":
                ok = float(raw) == float(own) and (isinstance(own, str) or re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", raw))
            elif typ in ("LA", "LN"):
                why = pos_format_error(raw, typ, own, hp)
                if why:
                    bad(why)
                ok = True
            elif typ == "TM":
                ok = time_ok(raw, own)
            else:
                ok = raw == date_digits(own, typ)
            if not ok:
                bad(f"field {raw!r}")
            continue
        # nominal value
        if typ in ("CH", "ST", "LA", "LN"):
            ok = raw == "" and gv == ""
        elif typ == "HX":
            ok = raw == "0"
        elif typ == "DE":
            ok = ref.dec_of(raw) == 0 and gv == 0
        elif typ == "IN":
            ok = raw == "0" and gv == 0
        elif typ == "LAD":
            ok = raw == "N"
        elif typ == "LND":
            ok = raw == "E"
        elif typ == "QS":
            ok = raw == {0: "OK", 1: "W", 2: "R"}[mode] and gv == raw
        elif typ == "TM":
            t = ref.time_of(raw)
            ok = t != ""
            if ok and before.date() == after.date():
                lo = before - datetime.timedelta(milliseconds=10)
                ok = lo.date() != before.date() or lo.time() <= t <= after.time()
        else:
            ok = ref.date_of(raw, typ) in (before.date(), after.date())
        if not ok:
            bad(f"nominal field {raw!r}, attribute {gv!r}")
    return want


def check_parse_back(fields, msg, kw, hp, key, user=None):
    """parsing the serialized message gives the supplied values back"""
    raw = msg.serialize()
    back = parse(raw, msg.msgmode, VALCKSUM, gens.lib_table(user))
    require(isinstance(back, NMEAMessage), lambda: f"{raw!r} parsed to {back!r}")
    require(back.identity == msg.identity, lambda: f"identity {msg.identity!r} -> {back.identity!r}")
    require(back.serialize() == raw, lambda: f"{raw!r} -> {back.serialize()!r}")
    require(back.payload == msg.payload, lambda: f"payload {msg.payload!r} -> {back.payload!r}")
    want = gens.count_after_groups(fields, kw)
    got = ref.attrs_of(back)
    require([g[0] for g in got] == [w[0] for w in want],
            lambda: f"{raw!r}: parsed attributes {[g[0] for g in got]}, generated {[w[0] for w in want]}")
    dirs = set()
    prev = {"LAD": None, "LND": None}
    for name, typ in want:
        base = re.sub(r"_[0-9]+$", "", name)
        if typ in prev and prev[typ] is not None:
            dirs.add(name)
            dirs.add(prev[typ])
            prev[typ] = None
        if typ == "LA" or base == "lat":
            prev["LAD"] = name
        elif typ == "LN" or base == "lon":
            prev["LND"] = name
    for (name, typ), (_, gv) in zip(want, got):
        if name not in kw or (typ in ("LAD", "LND") and name in dirs):
            continue
        v = kw[name]
        if typ in ref.TEXT:
            ok = gv == str(v)
        elif typ == "IN":
            ok = gv == int(v) and type(gv) is int
        elif typ == "DE":
            ok = type(gv) is float and gv == float(v)
            if name in dirs:
                ok = ok or abs(gv) == abs(float(v))
        elif typ in ("LA", "LN"):
            tol = (0.5 / 60) * 10.0 ** -(7 if hp else 5) + 1e-9
            ok = isinstance(gv, float) and abs(gv - (v if name in dirs else abs(v))) <= tol
        elif typ == "TM":
            us = v[4] if v[0] == "isotime" else v[4] // 10000 * 10000
            ok = gv == datetime.time(v[1], v[2], v[3], us)
        else:
            ok = gv == datetime.date(*v[1:4])
        require(ok, lambda: f"{raw!r}: {name} ({typ}) parsed as {gv!r}, supplied {v!r}")
    return back


def gen_build(s, pool=None):
    """(talker, msgid, mode, key, tab, kwargs, hp)"""
    adr = s.choice(pool if pool is not None else gens.BUILDABLE)
    kw = gens.kwargs_for(s, adr)
    return (gens.talker_for(s, adr[3]), adr[3], adr[0], adr[2], adr[1], kw, s.bool(0.4))
