"""C17 message validation, fallback decoding, user definitions."""
import gens
import ref
from common import *
from engine import Sub

RULE = ("talkers (published, unknown) x message ids (published, user-defined, unknown, near misses) x modes x validation "
        "settings x user tables (also naming published ids), through parser, constructor and reader; oracle: reference "
        "lookup; non-trivial: anything but a plain published sentence in its own mode")

BADT = ["XX", "Q9", "G", "gn", "Gn", "G1", "ZZ", "NN", "p", "PX", "GPX", "", "G ", "NP"]
STD = {x.upper() for t in ("GET", "SET", "POLL") for x in ref.G[t]}


def msgid(s, user):
    k = s.int(0, 9)
    if k <= 2:
        m = s.choice(ref.ADDRESSES)[3]
    elif k <= 4 and user:
        m = s.choice(sorted(user))
    elif k == 5:
        m = s.choice(sorted(ref.G["MSGIDS"]) if s.bool() else sorted(ref.G["MSGIDS_PROP"]))
    elif k == 6:
        return gens.unknown_id(s)
    else:  # near miss of a published or user-defined one
        m = s.choice(sorted(user) if user and s.bool() else [s.choice(ref.ADDRESSES)[3]])
        j = s.int(0, 5)
        m = [m + s.choice(gens.IDCH), m[:-1], m[1:], m[::-1], m.lower(), m.swapcase()][j]
    if m.upper() in STD and m not in ref.G["MSGIDS"] or m.upper() == "FOO":
        return gens.unknown_id(s)  # ids known only in other letter case: not claimed either way
    return m


def gen(s):
    user = gens.user_table(s) if s.bool(0.5) else None
    if user and s.bool(0.3):  # a user table naming published messages
        user[s.choice(ref.ADDRESSES)[3]] = [["mine", "ST"], ["yours", "IN"]]
    m = msgid(s, user)
    t = s.choice(BADT) if s.bool(0.25) else "P" if s.bool(0.3) else s.choice(ref.GNSS_TALKERS)
    if (t + m)[:1] in ("$", "\r", "\n"):  # dropped before a sentence
        t = "Q9"
    mode = s.choice([0, 0, 1, 2])
    own = [a for a in ref.ADDRESSES if a[3] == m]
    if user and m in user and s.bool(0.8):
        p = gens.payload_for(s, user[m], pbad=0.1)
    elif own and s.bool(0.8):
        a = s.choice(own)
        p = gens.def_payload(s, a)
        mode = a[0] if s.bool(0.7) else mode
    else:
        p = [gens.text(s, 0, 6) for _ in range(s.int(0, 12 if s.bool(0.9) else 120))]
        if s.bool(0.3):
            p = [s.choice([str(s.int(0, 99)), ""]) for _ in p]
    return t, m, mode, gens.strict(gens.no_brackets(t, m, p)), s.choice([0, 1, 2, 3]), user


def split(t, m):
    h = t + m
    return (h[:1], h[1:]) if h[:1] == "P" else (h[:2], h[2:])


def check(case):
    t, m, mode, p, validate, user = case
    # constructor
    exp = Expect(t, m, mode, p, validate, user)
    utab = gens.lib_table(user)
    ctx = f"{t!r} {m!r} mode {mode} validate {validate} payload {p!r} user {user!r}"

    def construct():
        try:
            return "ok", NMEAMessage(t, m, mode, payload=list(p), validate=validate, userdefined=utab)
        except NMEAMessageError as err:
            require(type(err) is NMEAMessageError, lambda: f"{type(err).__name__} from constructor: {ctx}")
            return "reject", None
        except NMEATypeError:
            return "type", None

    got, msg = construct()
    if exp.outcome == "any":
        return
    require(got == exp.outcome, lambda: f"constructor outcome {got}, expected {exp.outcome}: {ctx}")
    if got == "ok":
        check_message(msg, exp, None, "constructed " + ctx)
    # parser
    pt, pm = split(t, m)
    if not pm and not pt or pm.upper() in STD and pm not in ref.G["MSGIDS"]:
        return
    exp = Expect(pt, pm, mode, p, validate, user)
    raw = ref.sentence(t, m, p)
    try:
        got, msg = "ok", parse(raw, mode, validate, gens.lib_table(user))
    except NMEAParseError:
        got, msg = "reject", None
    except NMEATypeError:
        got, msg = "type", None
    if exp.outcome == "any":
        return
    require(got == exp.outcome, lambda: f"parser outcome {got}, expected {exp.outcome}: {raw!r} {ctx}")
    if got == "ok":
        check_message(msg, exp, ref.checksum(ref.content(t, m, p)), f"parsed {raw!r} {ctx}")
        nominal = str(msg).startswith(f"<NMEA({msg.identity}, NOMINAL")
        require(nominal == exp.nominal, lambda: f"{msg} {'is' if nominal else 'is not'} marked NOMINAL: {ctx}")
    # reader
    if not ref.is_header(pt) or not raw.startswith(b"$") or raw.startswith(b"$$"):
        return
    for q in (0, 2):
        rd = NMEAReader(make_stream("bytesio", raw), msgmode=mode, validate=validate, userdefined=gens.lib_table(user),
                        quitonerror=q)
        try:
            out = rd.read()
        except NMEAParseError:
            out = "reject"
        except NMEATypeError:
            out = "type"
        if exp.outcome == "ok":
            require(isinstance(out, tuple) and out[0] == raw, lambda: f"reader gave {out!r}: {raw!r} {ctx}")
            check_message(out[1], exp, None, "read " + ctx)
        elif q == 0:
            require(out == (None, None), lambda: f"reader gave {out!r} for {raw!r} to be skipped: {ctx}")
        else:
            require(out == exp.outcome, lambda: f"reader gave {out!r}, expected {exp.outcome}: {raw!r} {ctx}")


MULTI = {"QTMCFGGEOFENCE", "QTMCFGMSGRATE", "QTMCFGPPS", "QTMCFGSAT", "QTMCFGUART", "QTMSN", "STMDRSENMSG"}


def kw_gen(s):
    """construction from keyword attributes"""
    user = gens.user_table(s) if s.bool(0.3) else None
    if user and s.bool(0.2):
        user[s.choice(ref.ADDRESSES)[3]] = [["mine", "ST"]]
    k = s.int(0, 5)
    sub = ""
    if user and k <= 1:
        m = s.choice(sorted(user))
    elif k == 2:
        m = gens.unknown_id(s)
    elif k == 3:
        m = s.choice(list(ref.PREFIX))
        sub = s.choice([a[4] for a in ref.ADDRESSES if a[3] == m and a[4][0] != "#"] + ["Z9", ""])
    else:
        m = s.choice([m for m in sorted(ref.G["MSGIDS"]) if m != "FOO"] if k == 4 else
                     [m for m in sorted(ref.G["MSGIDS_PROP"]) if m not in MULTI])
    t = s.choice(BADT) if s.bool(0.2) else "P" if k == 3 or ref.source(m) == "PROP" else s.choice(ref.GNSS_TALKERS)
    return t, m, s.choice([0, 1, 2]), s.choice([0, 1, 2, 3]), user, sub, s.choice([(), ("lat",), ("zz", "status")])


def kw_check(case):
    t, m, mode, validate, user, sub, names = case
    src = ref.source(m, user or {})
    if src == "USER":
        fields = user[m]
    elif src == "PROP":
        key = (m + sub).upper()
        fields = ref.G[ref.TABLES[mode][1]].get(key)
        if fields is None and mode == 2:
            fields = ref.G["POLL"].get(key)
    else:
        fields = ref.G[ref.TABLES[mode][0]].get(m) if src == "STND" else None
    kw = {n: 1.5 if n == "lat" else "1" for n in names if not fields or n not in dict(map(tuple, fields)) or n == "lat"}
    kw = {n: v for n, v in kw.items() if n != "lat" or not fields or ["lat", "LA"] in fields}
    if m in ref.PREFIX:
        kw["msgId"] = sub
    reject = bool(validate & 2) and (t not in ref.TALKERS or fields is None)
    ctx = f"{t!r} {m!r} mode {mode} validate {validate} attributes {kw!r} user {user!r}"
    try:
        msg = NMEAMessage(t, m, mode, validate=validate, userdefined=gens.lib_table(user), **kw)
    except NMEAMessageError as err:
        require(reject, lambda: f"rejected ({err}): {ctx}")
        return
    require(not reject, lambda: f"accepted as {msg!r}: {ctx}")
    if fields is None:
        require(msg.payload == [] and not ref.attrs_of(msg), lambda: f"fields {msg.payload} out of nothing: {ctx}")
    require(msg.talker == t and msg.msgID == m and msg.msgmode == mode, lambda: f"{msg!r}: {ctx}")


def matrix():
    """every published id, with and without validation, in each mode, with no, one and many fields"""
    out = []
    ids = [m for m in sorted(ref.G["MSGIDS"]) if m != "FOO"] + sorted(ref.G["MSGIDS_PROP"]) + list(ref.PREFIX) + ["ZZZ", "QQQ"]
    for m in ids:
        for t in ("P", "GN", "XX"):
            for mode in ref.MODES:
                for v in (0, 1, 2, 3):
                    for p in ([], ["1"], ["1", "", "2", "3"] * 6):
                        out.append((t, m, mode, p, v, None))
    return out


def talkers():
    """every two character address prefix"""
    out = []
    for a in gens.IDCH:
        for b in gens.IDCH:
            for v in (1, 3):
                out.append((a + b, "GLL", 0, ["5130.0", "N"], v, None))
                out.append((a + b, "ZZZ", 0, ["5130.0", "N"], v, {"ZZZ": [["a", "DE"], ["b", "ST"]]}))
    return out


def nontriv(c):
    t, m, mode, p, v, user = c
    return bool(v & 2) or bool(user) or ref.source(m) == "UNKN" or t not in ref.TALKERS


SUBS = [
    Sub("cases", gen, check, quick=35000, nontrivial=nontriv, hyp=0.03,
        classify=lambda c: [f"validate{c[4]}", Expect(*c[:4], c[4], c[5]).outcome, ref.source(c[1], c[5] or {})]),
    Sub("kwargs", kw_gen, kw_check, quick=12000, hyp=0.03,
        nontrivial=lambda c: bool(c[3] & 2), classify=lambda c: ["kw " + ref.source(c[1], c[4] or {})]),
    Sub("matrix", enum=matrix, check=check),
    Sub("talkers", enum=talkers, check=check),
]
