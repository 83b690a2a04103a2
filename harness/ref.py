"""Independent reference model of the NMEA sentence format and field dictionary.

Works from golden/tables.json only; nothing here imports the code under test.
"""

import datetime
import json
import os
import re
from decimal import Decimal, ROUND_HALF_EVEN

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(os.path.dirname(HERE), "golden", "tables.json"), encoding="utf-8") as f:
    G = json.load(f)

GET, SET, POLL = 0, 1, 2
MODES = (GET, SET, POLL)
TALKERS = list(G["TALKERS"])
GNSS_TALKERS = [t for t in TALKERS if t != "P"]
PREFIX = G["PREFIX"]
TABLES = {GET: ("GET", "GETP"), SET: ("SET", "SETP"), POLL: ("POLL", "POLLP")}
TEXT = ("CH", "ST", "LAD", "LND", "QS", "HX")
TYPES = {"CH", "DE", "DT", "DTL", "DM", "HX", "IN", "LA", "LAD", "LN", "LND", "QS", "ST", "TM"}
SKIP_KEYS = {("GET", "FOO")}  # deliberately invalid definition used by the repo's own tests


class RefTypeError(Exception):
    """A number field does not hold a number."""


class RefAmbiguous(Exception):
    """Not the published format, but Python's number syntax gives it a meaning (" 1", "1_0", "nan"):

    whether such a field is accepted is not specified."""


def lenient(s, typ):
    try:
        if typ == "IN":
            int(s)
        elif typ == "DE":
            float(s)
        else:
            return re.fullmatch(r"[+-][0-9]{3,}\.[0-9]*", s) is not None
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------ framing
def xor(data):
    v = 0
    for b in data:
        v ^= b
    return v


def checksum(content):
    """two upper case hex digits for the str between $ and *"""
    return "%02X" % xor(content.encode("utf-8"))


def content(talker, msgid, payload):
    return ",".join([talker + msgid] + list(payload))


def sentence(talker, msgid, payload, eol="\r\n", cksum=None):
    c = content(talker, msgid, payload)
    return ("$%s*%s%s" % (c, checksum(c) if cksum is None else cksum, eol)).encode("utf-8")


HEADERS = {"$" + t[0] for t in G["TALKERS"]}


def is_header(address):
    """does a reader take $ and this address for the start of a sentence?"""
    return "$" + address[:1] in HEADERS


def split_address(hdr):
    return (hdr[:1], hdr[1:]) if hdr[:1] == "P" else (hdr[:2], hdr[2:])


# ------------------------------------------------------------------ definition lookup
def is_group(t):
    return isinstance(t, list)


def flat(fields):
    for n, t in fields:
        if is_group(t):
            yield from flat(t[1])
        else:
            yield n, t


def source(msgid, userdefined=()):
    if msgid in G["MSGIDS"]:
        return "STND"
    if msgid in G["MSGIDS_PROP"] or msgid in PREFIX:
        return "PROP"
    if msgid in userdefined:
        return "USER"
    return "UNKN"


def prop_key(msgid, mode, payload):
    """table key of a proprietary sentence, None if there is none"""
    key = msgid
    if msgid in PREFIX:
        if not payload:
            return None
        first = payload[0]
        if msgid == "ASHR" and len(first) < 2:
            return None if not first else (key + first).upper()
        if not (msgid == "ASHR" and first[1].isdigit()):
            key += first
    key = key.upper()
    n = len(payload)
    if key.startswith("QTM") and mode == GET:
        if payload == ["OK"]:
            return "QTMACK"
        if n == 2 and payload[0] == "ERROR":
            return "QTMNAK"
    by_len = {
        ("QTMCFGGEOFENCE", SET): {13: "_POLY", 3: "_DIS"},
        ("QTMCFGGEOFENCE", GET): {13: "_POLY"},
        ("QTMCFGMSGRATE", SET): {3: "_NOVER", 5: "_INTFNOVER", 6: "_INTF"},
        ("QTMCFGMSGRATE", GET): {3: "_NOVER", 5: "_INTFNOVER", 6: "_INTF"},
        ("QTMCFGMSGRATE", POLL): {2: "_NOVER", 4: "_INTFNOVER", 5: "_INTF"},
        ("QTMCFGPPS", SET): {3: "_DIS"},
        ("QTMCFGSAT", SET): {4: "_LOW"},
        ("QTMCFGSAT", GET): {4: "_LOW"},
        ("QTMCFGUART", SET): {2: "_CURRBAUD", 3: "_BAUD", 6: "_CURR"},
        ("QTMCFGUART", POLL): {1: "_CURR"},
    }.get((key, mode))
    if by_len:
        return key + by_len.get(n, "")
    if key == "QTMSN" and mode == GET and not payload:
        return None  # the first field decides the form
    if key == "QTMSN" and mode == GET and re.fullmatch("[0-9]+", payload[0]):
        return "QTMSN_ALT"
    if key == "STMDRSENMSG":
        return key + "_" + payload[0] if payload else None
    return key


def lookup(msgid, mode, payload, userdefined=None):
    """-> (source, key, fields) ; fields None when there is no definition"""
    userdefined = userdefined or {}
    src = source(msgid, userdefined)
    if src == "USER":
        return src, msgid, userdefined[msgid]
    std, prop = TABLES[mode]
    if src == "PROP":
        key = prop_key(msgid, mode, payload)
        fields = G[prop].get(key)
        if fields is None and mode == POLL:
            fields = G["POLL"].get(key)
        return src, key, fields
    if src == "STND":
        return src, msgid, G[std].get(msgid)
    return src, msgid, None


def identity(talker, msgid, fields, payload):
    if talker == "P" and msgid in PREFIX and fields is not None and payload \
            and fields and fields[0][0] == "msgId":
        return talker + msgid + payload[0]
    return talker + msgid


# ------------------------------------------------------------------ field decoding
STRICT = {"IN": r"[+-]?[0-9]+", "DE": r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?",
          "LA": r"[0-9]{4,}\.[0-9]*", "LN": r"[0-9]{4,}\.[0-9]*"}


def int_of(s):
    if s == "":
        return ""
    if not re.fullmatch(STRICT["IN"], s):
        raise RefTypeError(s)
    return int(s)


def dec_of(s):
    if s == "":
        return ""
    if not re.fullmatch(STRICT["DE"], s):
        raise RefTypeError(s)
    return float(s)


def pos_of(s):
    """unsigned degrees as exact Fraction-like Decimal, or "" """
    m = re.fullmatch(r"([0-9]{2,})([0-9]{2}\.[0-9]*)", s)
    if not m:
        return ""
    return Decimal(m.group(1)) + Decimal(m.group(2).rstrip(".")) / 60


def time_of(s):
    m = re.fullmatch(r"([0-9]{2})([0-9]{2})([0-9]{2})(?:\.([0-9]{1,6}))?", s)
    if not m:
        return ""
    h, mi, sec = (int(x) for x in m.groups()[:3])
    if h > 23 or mi > 59 or sec > 59:
        return ""
    return datetime.time(h, mi, sec, int((m.group(4) or "0").ljust(6, "0")))


def date_of(s, typ):
    if not re.fullmatch("[0-9]{8}" if typ == "DTL" else "[0-9]{6}", s):
        return ""
    a, b, y = int(s[:2]), int(s[2:4]), int(s[4:])
    d, m = (b, a) if typ == "DM" else (a, b)
    if typ != "DTL":
        y += 1900 if y >= 69 else 2000
    try:
        return datetime.date(y, m, d)
    except ValueError:
        return ""


def value_of(s, typ):
    if typ in TEXT:
        return s
    if typ in STRICT and not re.fullmatch(STRICT[typ], s) and lenient(s, typ):
        raise RefAmbiguous(s)
    if typ == "IN":
        return int_of(s)
    if typ == "DE":
        return dec_of(s)
    if typ in ("LA", "LN"):
        return pos_of(s)
    if typ == "TM":
        return time_of(s)
    if typ in ("DT", "DTL", "DM"):
        return date_of(s, typ)
    raise AssertionError(typ)


def decode(fields, payload, key=None):
    """-> list of (attribute name, field type, value), in sentence order.

    Positions are Decimal (compare with a tolerance) or "".  Raises RefTypeError.
    """
    out = []
    pos = [0]
    vals = {}
    pending = {"N": None, "E": None}  # index in out of the position awaiting its letter

    def single(name, typ):
        if pos[0] >= len(payload):
            return
        raw = payload[pos[0]]
        pos[0] += 1
        if key == "SSNSNC":
            raw = raw.replace("[", "").replace("]", "")
        val = value_of(raw, typ)
        vals[name] = val
        out.append([name, typ, val])
        base = re.sub(r"(_[0-9]+)+$", "", name)
        if typ == "LA" or base == "lat":
            pending["N"] = len(out) - 1
        elif typ == "LN" or base == "lon":
            pending["E"] = len(out) - 1
        elif typ in ("LAD", "LND"):
            ax, neg = ("N", "S") if typ == "LAD" else ("E", "W")
            at, pending[ax] = pending[ax], None
            if at is not None and out[at][2] != "" and not isinstance(out[at][2], str):
                out[at][2] = -abs(out[at][2]) if val == neg else abs(out[at][2])

    def walk(fields, suffix):
        for name, typ in fields:
            if not is_group(typ):
                single(name + suffix, typ)
                continue
            count, attrs = typ
            if count == "None":
                count = (len(payload) - pos[0]) // len(attrs)
            elif isinstance(count, str):
                count = vals.get(count, 0) or 0
            k = 0
            while k < count and pos[0] < len(payload):
                k += 1
                walk(attrs, "%s_%02d" % (suffix, k))

    walk(fields, "")
    return [tuple(x) for x in out]


POS_TOL = Decimal("1e-9")


def same_value(got, want, typ):
    if isinstance(want, Decimal):
        if not isinstance(got, float):
            return False
        if got != got or abs(Decimal(got) - want) > max(POS_TOL, abs(want) * Decimal("1e-14")):
            return False
        return not (want != 0 and (got < 0) != (want < 0) and abs(want) > POS_TOL)
    return type(got) is type(want) and got == want


def attrs_of(msg):
    """public attributes of a message in order (as str() lists them)"""
    return [(k, v) for k, v in vars(msg).items() if not k.startswith("_")]


def diff(msg, want):
    """first difference between a message's attributes and decode() output, or None"""
    got = attrs_of(msg)
    for (gn, gv), (wn, wt, wv) in zip(got, want):
        if gn != wn:
            return f"attribute {gn}={gv!r} where {wn}={wv!r} was expected"
        if getattr(msg, wn, None) is not gv and getattr(msg, wn) != gv:
            return f"attribute {wn} reads {getattr(msg, wn)!r}, listed as {gv!r}"
        if not same_value(gv, wv, wt):
            return f"attribute {wn} ({wt}) is {gv!r}, expected {wv!r}"
    if len(got) != len(want):
        extra = got[len(want):] or [w[0] for w in want[len(got):]]
        return f"{len(got)} attributes instead of {len(want)}: {'surplus' if len(got) > len(want) else 'missing'} {extra[:4]}"
    return None


# ------------------------------------------------------------------ addressing definitions
def addresses():
    """every definition of every mode: (mode, table, key, msgid, first field or None)"""
    out = []
    for mode, (std, prop) in TABLES.items():
        for key in G[std]:
            if (std, key) in SKIP_KEYS:
                continue
            if key in G["MSGIDS"]:
                out.append((mode, std, key, key, None))
            else:
                out += prop_address(mode, std, key)
        for key in G[prop]:
            out += prop_address(mode, prop, key)
    return out


def prop_address(mode, tab, key):
    if key == "ASHR":
        return [(mode, tab, key, "ASHR", "#digits")]
    if key in ("QTMACK", "QTMNAK"):
        return [(mode, tab, key, b, None) for b in ("QTMCFGPPS", "QTMSN", "QTMCFGGEOFENCE", "QTMCFGSAT",
                                                     "QTMCFGUART", "QTMVERNO", "QTMSAVEPAR",
                                                     "QTMCFGMSGRATE") if b in G["MSGIDS_PROP"]]
    for p in sorted(PREFIX, key=len, reverse=True):
        if key.startswith(p):
            first = key[len(p):]
            if key == "TNLGGKX":
                first = "GGKx"
            return [(mode, tab, key, p, first)]
    if key.startswith("STMDRSENMSG_"):
        return [(mode, tab, key, "STMDRSENMSG", key.split("_")[1])]
    return [(mode, tab, key, key.split("_")[0], None)]


ADDRESSES = addresses()


def quant(v, places):
    return Decimal(v).quantize(Decimal(1).scaleb(-places), rounding=ROUND_HALF_EVEN)


def ascii_upper(text):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in text)
