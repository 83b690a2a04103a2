"""Generators of field values, payloads, sentences and streams (written against engine.Source)."""

import calendar
import re

import ref

TAME = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .-_+/:"
ODD = ("'\"\\{}%#&@!?;<>=|~^`()[]\t\x01\x7f\u00e9\u00df\u20ac\u4e2d\U0001f600\u00a0$"
       # characters which normalisation, case mapping, line splitting, stripping or number parsing treat specially
       "\x0b\x0c\x1b\x1c\x1d\x1e\x1f\x85\u2028\u2029\u3000\u200b\ufeff\u0301\u0300e\u212b\u0130\u0131\ufb01\u01c5\u0660\uff11\u00b2\u2167"
       "\0\ud7ff\ue000\uffff\U0010ffff\u202e\u2212\u2019")
DIG = "0123456789"
FRAMING = set("$*,[]\r\n")  # not inside a field


def digits(s, n):
    return "".join(s.choice(DIG) for _ in range(n))


def text(s, lo=0, hi=8, odd=True):
    if hi > 1:
        lit = s.literal("texts")
        if lit is not None and not FRAMING & set(lit):
            return s.choice([lit, lit, lit.upper(), lit.lower(), lit + s.choice(TAME)])
        if s.bool(0.004):  # long
            return s.text(TAME, 1, 3) * s.int(10, 40) ** s.int(1, 2)
    if odd and s.bool(0.25):
        return s.text(TAME + ODD, lo, hi)
    return s.text(TAME, lo, hi)


def near(s):
    """a numeric constant of the code under test as a field, or None"""
    v = s.literal("nums")
    if v is None:
        return None
    v = s.choice([v, v, v - 1, v + 1, -v])
    return str(v) if abs(v) >= 1e-3 or v == 0 else "%.12f" % v


def integer(s):
    v = near(s)
    if v is not None:
        return v.partition(".")[0].partition("e")[0] or "0"
    k = s.int(0, 5)
    if k == 5 and s.bool(0.2):
        return s.choice(["", "-"]) + "0" * s.int(0, 40) + digits(s, s.int(1, 40))
    if k == 5:
        return s.choice(["-1", "007", "+5", "-0", "65535", "4294967296", "123456789012345678901"])
    return str(s.int(0, 10 ** (k + 1)))


def decimal(s):
    v = near(s)
    if v is not None:
        return v + s.choice(["", "", ".0" if v.strip("-").isdigit() else "", "1" if "." in v and "e" not in v else ""])
    k = s.int(0, 6)
    sign = s.choice(["", "", "-"])
    if k == 0:
        return s.choice(["0", "0.0", "00.00", "-0.0", ".5", "5.", "+1.5", "1e3", "1E-7", "-2.5e+4"])
    if s.bool(0.04):  # long
        return sign + "0" * s.int(0, 30) + digits(s, s.int(1, 30)) + "." + digits(s, s.int(1, 30))
    whole = str(s.int(0, 10 ** s.int(1, 6))).zfill(s.int(0, 4))
    if k == 1:
        return sign + whole
    return sign + whole + "." + digits(s, s.int(1, 9))


def degmin(s, typ, decs=None):
    """(d)ddmm.mm... field"""
    top = 90 if typ == "LA" else 180
    deg = s.int(0, top)
    decs = s.choice([5, 5, 7, 4, 2, 3, 6, 1, 8, 0]) if decs is None else decs
    if deg == top:
        mins, frac = 0, "0" * decs
    else:
        mins = s.int(0, 59)
        frac = s.choice([digits(s, decs), digits(s, decs), "9" * decs, "0" * decs,
                         "0" * max(decs - 1, 0) + "1" * min(decs, 1)])
    return f"{deg:0{2 if typ == 'LA' else 3}d}{mins:02d}.{frac}"


def time_(s):
    t = f"{s.int(0, 23):02d}{s.int(0, 59):02d}{s.int(0, 59):02d}"
    n = s.choice([2, 0, 3, 1, 6, 2, 4, 5])
    return t + ("." + digits(s, n) if n else "")


def date_(s, typ):
    y = s.int(1000, 9999) if typ == "DTL" and s.bool(0.3) else s.int(1969, 2068)
    m = s.int(1, 12)
    d = s.int(1, calendar.monthrange(y, m)[1])
    if typ == "DTL":
        return f"{d:02d}{m:02d}{y:04d}"
    if typ == "DM":
        return f"{m:02d}{d:02d}{y % 100:02d}"
    return f"{d:02d}{m:02d}{y % 100:02d}"


BAD = {
    "IN": ["x", "1.5", "--1", "1 2", "0x10", "A1", "-", "1e5"],
    "DE": ["x", "1.2.3", "--1", "1,5".replace(",", ";"), "N", "12a", "-", "."],
    "LA": ["x", "12", "5130.12.5", "..", "5130.-12", "5x30.12", "5130", ".5", "51.5", "abcd.ef", "51x0.25", "----.-"],
    "LN": ["x", "12", "00130.12.5", "00130.1.", "00130.-12", "0x130.12", "00130", ".5", "1.5", "abcde.fg", "0013x.25", "-----.--"],
    "TM": ["x", "12:34:56", "abcdef", "246000.00", "126000.00", "125960.5x", "120000.", "236199",
           "120000.1234567", "120000,5".replace(",", ";"), "-1200.00"],
    "DT": ["x", "310299", "320199", "011399", "000100", "ab0199", "2023-01-01", "01019"[:2]],
    "DTL": ["x", "31022023", "32012023", "01132023", "00012023", "ab012023", "010123"[:3]],
    "DM": ["x", "023199", "133199", "010099", "ab0199", "2023-01-01"],
    "LAD": ["n", "s", "E", "X", "NS", "-"],
    "LND": ["e", "w", "N", "X", "EW", "-"],
    "QS": ["ERROR", "ok", "?"],
}


def value(s, typ, pbad=0.0, pempty=0.1):
    """a raw field of this type"""
    k = s.uint(0, 999)
    if k >= 1000 - int(1000 * pbad) and typ in BAD:
        return s.choice(BAD[typ])
    if 500 <= k < 500 + int(1000 * pempty):
        return ""
    if typ == "CH":
        return text(s, 1, 1) if s.bool(0.7) else text(s, 0, 4)
    if typ == "ST":
        return text(s)
    if typ == "HX":
        return s.choice(["", "", "", "", "", "", "0x", "0X", "#", "00"]) + s.text("0123456789ABCDEFabcdef", 1, 8)
    if typ == "QS":
        return s.choice(["OK", "R", "W", "ERROR"])
    if typ == "IN":
        return integer(s)
    if typ == "DE":
        return decimal(s)
    if typ in ("LA", "LN"):
        return degmin(s, typ)
    if typ == "LAD":
        return s.choice("NS")
    if typ == "LND":
        return s.choice("EW")
    if typ == "TM":
        return time_(s)
    return date_(s, typ)


BADNUM = ("IN", "DE")


def payload_for(s, fields, pbad=0.0, pempty=0.1, reps=None, first=None, miscount=0.0,
                max_reps=4, okbad=True):
    """list of raw fields laid out by a definition.  okbad: bad values only where they
    decode to '' (never a type error)."""
    out = []
    counts = {}  # name of a count field -> index in out

    def one(name, typ):
        if first is not None and not out and name in ("msgId", "msgtype"):
            out.append(first)
            return
        pb = 0.0 if okbad and typ in BADNUM else pbad
        out.append(value(s, typ, pb, pempty))
        counts[name] = len(out) - 1

    for name, typ in fields:
        if not ref.is_group(typ):
            one(name, typ)
            continue
        count, attrs = typ
        if isinstance(count, int):
            n = count
        else:
            n = reps if reps is not None else s.weighted(
                (30, s.int(0, max_reps)), (10, s.int(0, 2 * max_reps)), (1, s.int(0, 40)))
        if isinstance(count, str) and count != "None":
            shown = n
            if miscount and s.bool(miscount):
                shown = s.choice([n + 1, max(n - 1, 0), 0, n + 7, 99, 1000, 10**6, 10**18])
            if count in counts:
                out[counts[count]] = str(shown)
        def members(attrs):
            for n2, t2 in attrs:
                if ref.is_group(t2):
                    for _ in range(t2[0]):
                        members(t2[1])
                else:
                    one(n2, t2)

        for _ in range(n):
            members(attrs)
    return out


def address(s, pool=None):
    return s.choice(pool if pool is not None else ref.ADDRESSES)


def talker_for(s, msgid):
    if ref.source(msgid) == "PROP":
        return "P"
    return s.weighted((3, "GN"), (2, "GP"), (3, s.choice(ref.GNSS_TALKERS)))


def def_payload(s, adr, **kw):
    mode, tab, key, msgid, first = adr
    fields = ref.G[tab][key]
    if first == "#digits":
        p = payload_for(s, fields, **kw)
        if p and len(p[0]) < 2:
            p[0] = time_(s)
        return p
    if key == "QTMACK":
        return ["OK"]
    if key == "QTMNAK":
        return ["ERROR", value(s, "IN", 0, 0)]
    p = payload_for(s, fields, first=first, **kw)
    if key == "SSNSNC" and s.bool(0.6):  # group delimiters
        for _ in range(s.int(1, 4)):
            i = s.uint(1, max(1, len(p) - 1))
            if i < len(p):
                p[i] = s.choice(["[" + p[i], p[i] + "]", "[" + p[i] + "]"])
    return p


def surplus(s):
    """a field that is either plainly a number or plainly not"""
    return s.choice([s.text("BCGHJKXZbcg", 0, 4), str(s.int(0, 999)), ""])


def no_brackets(talker, msgid, p):
    """the group delimiters [ ] are defined for PSSN,SNC as such, not for look-alikes"""
    if msgid.upper() == "SSNSNC" or msgid == "SSN" and p and p[0].upper() == "SNC" and (talker != "P" or p[0] != "SNC"):
        return [x.replace("[", "").replace("]", "") for x in p]
    return p


def strict(p):
    """no field that int() or float() reads though it is not an NMEA number"""
    p = ["".join("x" if ch.isspace() or ch == "_" or ch.isdigit() and not ch.isascii() else ch for ch in x) for x in p]
    return ["x" if x.strip("+-").lower() in ("inf", "nan", "infinity") else x for x in p]


def vary_length(s, p, keep=0):
    """truncate or extend"""
    k = s.int(0, 5)
    if k >= 4:
        return p + [surplus(s) for _ in range(s.int(1, 4))]
    if k >= 2 and len(p) > keep:
        return p[:s.int(keep, len(p))]
    return p


def def_sentence(s, pool=None, vary=True, **kw):
    """(talker, msgid, mode, payload) of a published definition"""
    adr = address(s, pool)
    p = def_payload(s, adr, **kw)
    if vary:
        p = vary_length(s, p, 1 if adr[4] is not None else 0)
    return talker_for(s, adr[3]), adr[3], adr[0], p


IDCH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


KEYS = {k for t in ("GET", "SET", "POLL", "GETP", "SETP", "POLLP") for k in ref.G[t]}


def unknown_id(s):
    lit = s.literal("texts")
    if lit is not None and re.fullmatch("[A-Z0-9]{3,16}", lit) and ref.source(lit) == "UNKN" and lit[:3] != "QTM":
        return lit
    if s.bool(0.06):  # anything can stand in an address
        m = s.text(TAME + ODD, 0, 8).replace("[", "").replace("]", "")
        if not {m, m.upper()} & KEYS and m.upper()[:3] != "QTM" and ref.source(m.upper()) == "UNKN":
            return m
    while True:
        m = s.text(IDCH, 3, 4)
        if ref.source(m) == "UNKN" and not m.startswith("QTM"):
            return m
        m = "ZX" + m
        if ref.source(m) == "UNKN":
            return m


def unknown_sentence(s):
    """unknown message and/or unknown talker; -> (talker, msgid, payload)"""
    t = s.choice(["P", "GN", "GP", s.choice(ref.GNSS_TALKERS), "XX", "Q9"])
    n = s.int(0, 8) if not s.bool(0.01) else s.int(50, 1200)
    return t, unknown_id(s), [text(s, 0, 6) for _ in range(n)] if n <= 8 else [s.text(TAME + ODD, 0, 6), s.text(TAME, 1, 3)] * (n // 2)


def any_sentence(s, **kw):
    """(talker, msgid, mode, payload) of any well formed sentence without type errors"""
    if s.bool(0.2):
        t, m, p = unknown_sentence(s)
        return t, m, s.choice(ref.MODES), p
    t, m, mode, p = def_sentence(s, **kw)
    return t, m, mode, p


VOCAB = sorted({n for t in ("GET", "SET", "POLL", "GETP", "SETP", "POLLP") for f in ref.G[t].values()
                for n, _ in ref.flat(f)} - {"msgId"})
VOCAB = [n for n in VOCAB if not re.match("[dfg][a-h]", n)]
# names of the implementation's own parameters and of common methods
INTERNAL = ["key", "att", "pindex", "gindex", "pdict", "attd", "mode", "vals", "val", "numr", "rng", "keyr", "data", "name", "value", "items"]


# names with a meaning of their own in messages and definitions
TAKEN = {"lat", "lon", "msgId", "msgtype", "identity", "talker", "payload", "checksum", "serialize", "grp", "msgID", "msgmode",
         "validate", "hpnmeamode", "userdefined", "self", "kwargs"}


def user_table(s, n=None):
    """user-defined definitions {msgid: fields}, in golden-table form"""
    out = {}
    for _ in range(s.int(1, 3) if n is None else n):
        mid = unknown_id(s)
        if s.bool(0.3):
            mid = mid.lower()
        fields, used = [], set()

        def name(typ, other):
            lit = s.literal("texts")
            if lit is not None and other and re.fullmatch("[a-z][A-Za-z0-9]{1,12}", lit) and lit not in used | TAKEN \
                    and not re.fullmatch("[dfg][a-h]([a-z][a-z])?", lit):  # those are the default names
                used.add(lit)
                return lit
            n = s.choice(INTERNAL) if s.bool(0.1) else s.choice(VOCAB)
            if other and s.bool(0.3) and n not in used and (n not in ("lat", "lon") or typ in ("DE", "LA", "LN")):
                used.add(n)
                return n
            return other

        for i in range(s.int(1, 6) if s.bool(0.94) else 0):
            typ = s.choice(sorted(ref.TYPES - {"LAD", "LND"}))
            fields.append([name(typ, f"f{chr(97 + i)}{typ.lower()}"), typ])
            if typ in ("LA", "LN") and s.bool(0.8):
                fields.append([f"d{chr(97 + i)}", "LAD" if typ == "LA" else "LND"])
        if s.bool(0.3):
            attrs = [["ga", "IN"], ["gb", "ST"]]
            if s.bool():
                attrs = []
                for i in range(s.int(1, 4)):
                    typ = s.choice(sorted(ref.TYPES - {"LAD", "LND"}))
                    attrs.append([name(typ, f"g{chr(97 + i)}"), typ])
            fields.append(["grp", [s.choice([2, "None"]), attrs]])
        out[mid] = fields
    return out


def lib_table(userdef):
    """golden-table form -> the form the library takes"""
    if userdef is None:
        return None

    def conv(fields):
        return {n: (t[0], conv(t[1])) if ref.is_group(t) else t for n, t in fields}

    return {k: conv(v) for k, v in userdef.items()}


# ------------------------------------------------------------------ keyword attributes
# forms of a message that keyword attributes select: key -> (mode or None, required, forbidden)
FORMS = {
    "QTMCFGUART_CURRBAUD": ("baudrate", "", "portid databit"),
    "QTMCFGUART_BAUD": ("portid baudrate", "", "databit"),
    "QTMCFGUART_CURR": ("baudrate databit", "", "portid"),
    "QTMCFGUART": ("portid baudrate databit", "", ""),
    "QTMCFGMSGRATE_NOVER": ("", "", "porttype msgver"),
    "QTMCFGMSGRATE_INTFNOVER": ("porttype", "", "msgver"),
    "QTMCFGMSGRATE_INTF": ("porttype msgver", "", ""),
    "QTMCFGMSGRATE": ("msgver", "", "porttype"),
    "QTMCFGPPS_DIS": ("enable", "enable", ""),
    "QTMCFGSAT_LOW": ("", "", "maskhigh"),
    "QTMCFGSAT": ("maskhigh", "", ""),
    "QTMCFGGEOFENCE_POLY": ("lon1", "", ""),
    "QTMCFGGEOFENCE_DIS": ("geofencemode", "geofencemode", "lon1"),
}
NOT_BUILDABLE = {"ASHR", "QTMACK", "QTMNAK", "QTMSN_ALT"}  # only ever received


def buildable():
    out = []
    for a in ref.ADDRESSES:
        if a[2] in NOT_BUILDABLE or (a[2] == "QTMCFGGEOFENCE_DIS" and a[0] == ref.GET):
            continue
        if a[0] == ref.POLL and a[2] == "QTMCFGSAT":
            out.append(a)
            continue
        out.append(a)
    return out


BUILDABLE = buildable()


def signed_pos(s, typ):
    top = 90.0 if typ == "LA" else 180.0
    k = s.int(0, 3)
    if k == 0:
        v = s.real(0.0, top)
    elif k == 1:
        v = s.int(0, int(top) * 60) / 60
        v = min(abs(v + s.choice([1, -1]) * 10.0 ** -s.int(4, 15)), top)
    elif k == 2:
        v = 10.0 ** -s.int(1, 12)
    else:
        v = s.choice([0.0, 1e-9, top, top - 1e-9, top - 1e-7, 1.0, 59.999999999, s.int(0, int(top))])
    return -v if s.bool() else v


def typed(s, typ, iso=True):
    """a value to supply for a keyword attribute of this type (plain data; see lib_value)"""
    if typ in ("CH", "ST"):
        return text(s, 0, 1 if typ == "CH" else 8).replace("[", "").replace("]", "")
    if typ == "HX":
        return s.choice(["", "", "", "", "", "", "0x", "00"]) + s.text("0123456789ABCDEF", 1, 8)
    if typ == "QS":
        return s.choice(["W", "R", "OK"])
    if typ == "IN":
        return s.choice([1, -1]) * s.int(0, 10 ** s.int(1, 9))
    if typ == "DE":
        return s.choice([s.sint(10 ** 6), s.real(-1000.0, 1000.0), s.real(-1e7, 1e7, (0, 1, 2, 3)),
                         s.real(0.0, 0.01, (2, 3, 4)),
                         s.choice([1, -1]) * s.real(1.0, 10.0) * 10.0 ** s.sint(20)])
    if typ in ("LA", "LN"):
        return signed_pos(s, typ)
    if typ == "LAD":
        return s.choice("NS")
    if typ == "LND":
        return s.choice("EW")
    if typ == "TM":
        t = ref.time_of(time_(s))
        return ("isotime" if iso and s.bool(0.3) else s.choice(["time", "time", "time", "dtime"]), t.hour, t.minute, t.second, t.microsecond)
    d = ref.date_of(date_(s, typ), typ)
    return ("isodate" if iso and s.bool(0.3) else s.choice(["date", "date", "date", "ddate"]), d.year, d.month, d.day)


def lib_value(v):
    import datetime

    if not isinstance(v, tuple):
        return v
    if v[0] == "dtime":  # part of a date and time
        return datetime.datetime(2024, 2, 29, *v[1:], tzinfo=datetime.timezone.utc)
    if v[0] == "ddate":
        return datetime.datetime(*v[1:], 23, 59, 59, 999999)
    o = datetime.time(*v[1:]) if "time" in v[0] else datetime.date(*v[1:])
    return o.isoformat() if v[0].startswith("iso") else o


def kwargs_for(s, adr, p=None):
    """{name: value} of a message built from this definition, in plain data"""
    mode, tab, key, msgid, first = adr
    fields = ref.G[tab][key]
    req, zero, forb = (x.split() for x in FORMS.get(key, ("", "", "")))
    names = {n for n, t in fields}
    req, forb = [r for r in req if r in names], set(forb)
    if key == "QTMCFGUART" and mode == ref.SET and s.bool():
        req, forb = [], {"baudrate"}
    p = s.choice([0.5, 0.0, 1.0, 0.8, 0.2]) if p is None else p
    out = {}
    for name, typ in fields:
        if ref.is_group(typ):
            count, attrs = typ
            n = count if isinstance(count, int) else s.weighted((60, s.int(0, 4)), (10, s.int(0, 25)), (1, s.int(0, 130)))
            if isinstance(count, str) and count != "None":
                out[count] = n
            last = {}
            for k in range(1, n + 1):
                for n2, t2 in attrs:
                    if s.bool(p) or (count == "None" and k == n and not last and n2 == attrs[-1][0]):
                        last[n2] = k
                        out["%s_%02d" % (n2, k)] = typed(s, t2)
            if count == "None" and n and not any(x.endswith("_%02d" % n) for x in out):
                out["%s_%02d" % (attrs[0][0], n)] = typed(s, attrs[0][1])
            continue
        if name in zero:
            out[name] = 0
        elif name == "msgId" and first is not None:
            out[name] = first
        elif name == "msgtype" and msgid == "STMDRSENMSG":
            out[name] = s.choice([first, int(first)])
        elif name in forb:
            continue
        elif name in req or s.bool(p):
            out[name] = typed(s, typ)
    if key == "QTMCFGPPS" and out.get("enable") == 0:
        out["enable"] = 1
    if key == "QTMCFGGEOFENCE" and mode == ref.SET and out.get("geofencemode") == 0:
        out["geofencemode"] = 2
    if key == "QTMCFGGEOFENCE":
        out.pop("lon1", None)
    if key == "QTMSN" and mode == ref.GET:
        out.pop("status", None)
    if s.bool(0.3):  # order of keyword attributes is immaterial
        out = {k: out[k] for k in s.shuffle(sorted(out))}
    return out


def count_after_groups(fields, kw):
    """flat (name, type) list of a built message"""
    out = []
    for name, typ in fields:
        if not ref.is_group(typ):
            out.append((name, typ))
            continue
        count, attrs = typ
        if count == "None":
            count = max([int(k.rsplit("_", 1)[1]) for k in kw
                         if "_" in k and k.rsplit("_", 1)[1].isdigit()] or [0])
        elif isinstance(count, str):
            count = kw.get(count, 0)
        for k in range(1, count + 1):
            out += [("%s_%02d" % (n2, k), t2) for n2, t2 in attrs]
    return out


# ------------------------------------------------------------------ streams
POOLS = {m: [a for a in ref.ADDRESSES if a[0] == m] for m in ref.MODES}


def ok_sentence(s, mode, validate=1, user=None, simple=False):
    """(talker, msgid, payload) that a reader in this mode accepts and recognises"""
    from common import Expect

    for _ in range(6):
        k = s.int(0, 9)
        if user and k >= 8:
            m = s.choice(sorted(user))
            t, p = s.choice(["GN", "P"]), payload_for(s, user[m])
        elif k >= 7 and not validate & 2:
            t, m, p = unknown_sentence(s)
        else:
            t, m, _, p = def_sentence(s, POOLS[mode], vary=k >= 5)
        if ref.is_header(t) and Expect(t, m, mode, p, validate, user).outcome == "ok":
            return t, m, p
    return ("GN", "GLL", ["5130.0", "N", "00000.0", "W", "", "A"]) if mode == 0 else (
        ("P", "QTMHOT", []) if mode == 1 else ("P", "QTMVERNO", []))


HDR2 = {h.encode() for h in ref.HEADERS}
HDR_BYTES = {h[1:].encode() for h in ref.HEADERS}


def junk(s, dollar=True):
    """foreign bytes without the start of a sentence"""
    k = s.int(0, 9)
    lit = s.literal("blobs")
    if lit is not None:
        out = s.choice([lit, lit * s.int(1, 5), lit + s.bytes(1, 9), s.bytes(1, 9) + lit])
    elif k == 0:
        out = s.bytes(1, 40)
    elif k == 1:
        out = b"\xb5b" + s.bytes(4, 20)
    elif k == 2:
        out = b"\xd3\x00" + s.bytes(3, 20)
    elif k == 3:
        out = b"$" * s.weighted((40, s.int(1, 4)), (2, s.int(5, 300)), (1, s.int(5, 3000)))
    elif k == 4:
        out = s.choice([b"\r\n", b"\n", b"\r", b"\n\n", b"\x00", b"GNGGA,1*00\r\n", b"*", b"!AIVDM,1*00\r\n"])
    elif k == 5:
        out = b"$" + s.choice([b"\xb5", b"1", b" ", b"\n", b"g", b"\xff", b"\r\n", b"*"])
    else:
        out = s.text("abc,*0129 \r\n$!", 1, 15).encode()
    if not dollar:
        out = out.replace(b"$", b"#")
    return out


def clean(data):
    """remove starts of sentences from foreign data"""
    for h in HDR2:
        data = data.replace(h, b"#" + h[1:])
    return data
