"""C23 the published dictionary."""
import datetime

import gens
import ref
from build import build, check_built, check_parse_back
from common import *
from engine import Sub

RULE = ("every entry of every table compared with the published (golden) one and checked for structure, each definition "
        "reached from generated sentences and constructor calls; all again after 200 generated parse/build/read activities; "
        "non-trivial: any")

import pynmeagps as lib
import pynmeagps.nmeatypes_core as core
import pynmeagps.nmeatypes_decodes as decodes
import pynmeagps.nmeatypes_get as nget
import pynmeagps.nmeatypes_get_prop as ngetp
import pynmeagps.nmeatypes_poll as npoll
import pynmeagps.nmeatypes_poll_prop as npollp
import pynmeagps.nmeatypes_set as nset
import pynmeagps.nmeatypes_set_prop as nsetp

LIVE = {"GET": lambda: nget.NMEA_PAYLOADS_GET, "GETP": lambda: ngetp.NMEA_PAYLOADS_GET_PROP,
        "SET": lambda: nset.NMEA_PAYLOADS_SET, "SETP": lambda: nsetp.NMEA_PAYLOADS_SET_PROP,
        "POLL": lambda: npoll.NMEA_PAYLOADS_POLL, "POLLP": lambda: npollp.NMEA_PAYLOADS_POLL_PROP}


def conv(dic):
    return [[k, [v[0], conv(v[1])]] if isinstance(v, tuple) else [k, v] for k, v in dic.items()]


def entries():
    out = [("def", t, k) for t in LIVE for k in ref.G[t] if (t, k) not in ref.SKIP_KEYS]
    out += [("new", t, "") for t in LIVE]
    out += [("talker", k, "") for k in ref.G["TALKERS"]]
    out += [("id", k, "") for k in ref.G["MSGIDS"]] + [("pid", k, "") for k in ref.G["MSGIDS_PROP"]]
    out += [("decode", k, "") for k in ref.G["DECODES"]] + [("const", k, "") for k in ref.G["CONST"]]
    out += [("prefix", k, "") for k in ref.PREFIX]
    return out


def structure(fields, where, names=(), deep=0):
    """a definition is well formed"""
    seen = list(names)
    for i, (name, typ) in enumerate(fields):
        require(isinstance(name, str) and name.isidentifier() and not name.startswith("_"), lambda: f"{where}: name {name!r}")
        if ref.is_group(typ):
            count, attrs = typ
            if isinstance(count, str) and count != "None":
                require(count in seen, lambda: f"{where}: group count {count!r} is not given before the group")
                ct = dict((n, t) for n, t in fields if not ref.is_group(t)).get(count)
                require(ct == "IN", lambda: f"{where}: group count {count!r} is of type {ct!r}")
            else:
                require(count == "None" or isinstance(count, int) and count > 0, lambda: f"{where}: group count {count!r}")
                require(count != "None" or len(fields) - 1 - i < max(len(attrs), 1),
                        lambda: f"{where}: open ended group swallows the fields after it")
            require(attrs, lambda: f"{where}: empty group")
            structure(attrs, where + "." + name, seen, deep + 1)
            continue
        require(typ in ref.TYPES, lambda: f"{where}: field {name} has unknown type {typ!r}")
        seen.append(name)


def check_entry(case):
    kind, k, key = case
    if kind == "def":
        live = LIVE[k]()
        require(key in live, lambda: f"definition {k} {key} is missing")
        got = conv(live[key])
        require(got == ref.G[k][key], lambda: f"definition {k} {key} is {got}, published {ref.G[k][key]}")
        structure(got, f"{k} {key}")
    elif kind == "new":
        for key, d in LIVE[k]().items():  # definitions added since must be well formed, too
            if (k, key) not in ref.SKIP_KEYS and key not in ref.G[k]:
                structure(conv(d), f"{k} {key}")
    elif kind == "talker":
        require(core.NMEA_TALKERS.get(k) == ref.G["TALKERS"][k], lambda: f"talker {k}: {core.NMEA_TALKERS.get(k)!r}")
    elif kind in ("id", "pid"):
        t, g = (core.NMEA_MSGIDS, "MSGIDS") if kind == "id" else (core.NMEA_MSGIDS_PROP, "MSGIDS_PROP")
        want = ref.G[g][k]
        require(t.get(k) == want, lambda: f"description of {k} is {t.get(k)!r}, published {want!r}")
        got = lib.msgdesc(k)
        if not (kind == "pid" and k in ref.G["MSGIDS"]):
            require(got == want, lambda: f"msgdesc({k!r}) = {got!r}, published {want!r}")
    elif kind == "decode":
        got = repr(sorted(getattr(decodes, k, {}).items(), key=repr))
        require(got == ref.G["DECODES"][k], lambda: f"code list {k} is {got}")
    elif kind == "const":
        got, want = getattr(core, k, None), ref.G["CONST"][k]
        require(got == want and type(got) is type(want), lambda: f"constant {k} is {got!r}, published {want!r}")
    else:
        require(k in core.NMEA_PREFIX_PROP, lambda: f"{k} is no longer a prefix message")


def gen_reach(s):
    i = s.uint(0, len(ref.ADDRESSES) - 1)
    adr = ref.ADDRESSES[i]
    return i, gens.talker_for(s, adr[3]), gens.def_payload(s, adr, reps=s.int(1, 2))


def check_reach(case):
    """the definition's own attribute names come out of a full sentence"""
    i, t, p = case
    mode, tab, key, msgid, first = ref.ADDRESSES[i]
    fields = ref.G[tab][key]
    if key not in ("QTMACK", "QTMNAK") and ref.lookup(msgid, mode, p)[1] in ("QTMACK", "QTMNAK"):
        return  # the generated values happen to be an error response
    exp, raw, msg = check_parse(t, msgid, mode, p, VALCKSUM | VALMSGID)
    if exp.outcome == "ok":
        names = [a[0] for a in ref.attrs_of(msg)]
        top = [n for n, ty in fields if not ref.is_group(ty)]
        missing = [n for n in top if n not in names]
        # fields after a group that took fewer repeats are present as the payload is complete
        require(not missing, lambda: f"{raw!r}: attributes {missing} of {tab} {key} missing, got {names}")


def all_reach():
    """each definition once or more, deterministic"""
    import random

    from engine import RandomSource

    out = []
    for i, adr in enumerate(ref.ADDRESSES):
        for k in range(4):
            s = RandomSource(random.Random(i * 31 + k))
            out.append((i, gens.talker_for(s, adr[3]), gens.def_payload(s, adr, reps=1 + k % 2)))
    return out


def all_build():
    import random

    from engine import RandomSource

    out = []
    for i, adr in enumerate(gens.BUILDABLE):
        for k, p in enumerate((0.0, 1.0, 0.5)):
            s = RandomSource(random.Random(i * 37 + k))
            kw = gens.kwargs_for(s, adr, p)
            out.append((gens.talker_for(s, adr[3]), adr[3], adr[0], adr[2], adr[1], kw, s.bool()))
    return out


def check_build(case):
    t, m, mode, key, tab, kw, hp = case
    msg, before, after = build(t, m, mode, kw, hp, validate=VALCKSUM | VALMSGID)
    check_built(ref.G[tab][key], msg, mode, kw, hp, before, after, key)
    check_parse_back(ref.G[tab][key], msg, kw, hp, key)


def gen_use(s):
    out = []
    for _ in range(s.int(20, 200)):
        if s.bool(0.4):
            adr = s.choice(gens.BUILDABLE)
            out.append((gens.talker_for(s, adr[3]), adr[3], adr[0], gens.kwargs_for(s, adr)))
        elif s.bool(0.2):
            out.append(("help", s.uint(0, len(HELPERS) - 1), gens.unknown_id(s), s.int(0, 3000)))
        else:
            out.append(gens.any_sentence(s, pbad=0.1, miscount=0.1))
    return out


ENTRIES = []
SNAP = []
HELPERS = [
    lambda m, n: lib.msgdesc(m),
    lambda m, n: lib.get_parts(f"${m},{n}*00"),
    lambda m, n: lib.knots2spd(n, "kmph"),
    lambda m, n: lib.knots2spd(n, m),
    lambda m, n: lib.leapsecond(datetime.datetime(1970 + n % 60, 1, 2), m[:1]),
    lambda m, n: lib.utc2wnotow(datetime.datetime(1981 + n % 60, 1, 2), "GECJI"[n % 5]),
    lambda m, n: lib.wnotow2utc(n, n * 1000, None, "GECJI"[n % 5], n % 2 == 0),
    lambda m, n: lib.generate_checksum("GN", m, [str(n)]),
    lambda m, n: lib.llh2iso6709(n / 100, n / 50, n, m),
    lambda m, n: lib.groupsize(**{m + "_01": n}),
    lambda m, n: (lib.latlon2dms(n / 100, n / 50), lib.latlon2dmm(n / 100, n / 50), lib.dms2deg("51d20m45sN")),
    lambda m, n: lib.ecef2llh(*lib.llh2ecef(n / 100, n / 50, n)),
]


def check_use(case):
    if not SNAP:
        SNAP.append(snapshot())
    for t, m, mode, x in case:
        if t == "help":
            try:
                HELPERS[m](mode, x)
            except (KeyError, ValueError, NMEAMessageError):
                pass
            continue
        if isinstance(x, dict):
            build(t, m, mode, x)
            continue
        raw = ref.sentence(t, m, x)
        outcome_of(lambda: parse(raw, mode, 3))
        rd = NMEAReader(make_stream("bytesio", raw), msgmode=mode, quitonerror=0)
        rd.read()
    if not ENTRIES:
        ENTRIES.extend(entries())
    for e in ENTRIES:
        check_entry(e)
    now = snapshot()
    require(now == SNAP[0], lambda: f"changed by use: {[k for k in now if now[k] != SNAP[0].get(k)]}")


SUBS = [
    Sub("entries", enum=entries, check=check_entry),
    Sub("reach", enum=all_reach, check=check_reach),
    Sub("build", enum=all_build, check=check_build),
    Sub("reachrnd", gen_reach, check_reach, quick=25000, hyp=0.02),
    Sub("afteruse", gen_use, check_use, quick=600, thorough=10000, hyp=0),
]
