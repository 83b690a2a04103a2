"""C18 proprietary variants and identity."""
import gens
import ref
from build import build, check_built, check_parse_back, gen_build
from common import *
from engine import Sub

RULE = ("enumeration: every proprietary id x mode x 0..14 fields x first field (OK, ERROR, W, R, numbers, text, empty); "
        "every prefix x every known and unknown sub id x mode x length; random payloads; every multi-form definition built "
        "from keyword attributes and parsed back; oracle: reference variant selection; non-trivial: definition found")

FIRST = ["OK", "ERROR", "W", "R", "1", "0", "02", "1a", "", "ok", "error"]
PROP = sorted(ref.G["MSGIDS_PROP"])


def matrix():
    out = []
    for m in PROP + list(ref.PREFIX):
        if m in ref.PREFIX:
            continue
        firsts = FIRST if m.startswith("QTM") or m.startswith("STM") else ["OK", "1", "ERROR", ""]
        for mode in ref.MODES:
            for n in range(0, 15):
                for f in firsts if n else [""]:
                    out.append(("P", m, mode, ([f] + ["1"] * (n - 1))[:n]))
    return out


def prefixes():
    subs = {}
    for a in ref.ADDRESSES:
        if a[3] in ref.PREFIX and a[4] and a[4][0] != "#":
            subs.setdefault(a[3], set()).add(a[4])
    out = []
    for m in ref.PREFIX:
        every = sorted(subs.get(m, ())) + ["", "Z", "ZZZ", "99", "1", "12", "0"]
        for other in ref.PREFIX:
            every += sorted(subs.get(other, ()))[:2]
        for f in list(dict.fromkeys(every)):
            for mode in ref.MODES:
                for n in (1, 2, 3, 5, 8, 14, 25):
                    out.append(("P", m, mode, ([f] + ["1"] * (n - 1))))
            out.append(("GN", m, 0, [f, "1", "2"]))
        for f in sorted(subs.get(m, ())):  # nearly the sub id
            for g in (f + " ", " " + f, f + "\t", "0" + f, f + ".", f + f[-1:], f[1:], f[::-1]):
                for mode in ref.MODES:
                    for n in (1, 3, 8):
                        out.append(("P", m, mode, [g] + ["1"] * (n - 1)))
        for mode in ref.MODES:
            out.append(("P", m, mode, []))
    return out


def acknak():
    out = []
    for m in PROP:
        if not m.startswith("QTM"):
            continue
        for mode in ref.MODES:
            for p in (["OK"], ["ERROR", "1"], ["ERROR", "12"], ["ERROR", ""], ["ERROR"], ["OK", "1"], ["ERROR", "1", "2"],
                      ["OK", ""], ["ERROR", "x"], ["W"], ["R"]):
                out.append(("P", m, mode, p))
    return out


def check(case):
    t, m, mode, p = case
    exp, raw, msg = check_parse(t, m, mode, p, VALCKSUM)
    check_parse(t, m, mode, p, VALMSGID | VALCKSUM)
    check_parse(t, m, mode, p, VALNONE, None, True)
    if exp.outcome == "ok" and exp.fields is not None:
        # the constructor selects the same form
        d = same_message(NMEAMessage(t, m, mode, payload=list(p)), msg)
        require(d is None, lambda: f"{raw!r} parsed and constructed differ: {d}")


def gen_any(s):
    adr = s.choice([a for a in ref.ADDRESSES if ref.source(a[3]) == "PROP"])
    p = gens.def_payload(s, adr, pbad=0.05, miscount=0.05)
    k = s.int(0, 5)
    if k == 1:
        p = gens.vary_length(s, p, 0)
    elif k == 2 and p and adr[3] not in ref.PREFIX:
        p[0] = s.choice(FIRST)
    elif k == 3 and p and adr[3] in ref.PREFIX and adr[4] and adr[4][0] != "#":
        p[0] = s.choice([p[0].lower(), p[0].swapcase(), p[0] + "1", p[0][:-1]])
        if adr[3] == "ASHR" and (len(p[0]) < 2):
            p[0] = "HDG"
    elif k == 4 and adr[3].startswith("QTM"):
        p = s.choice([["OK"], ["ERROR", str(s.int(0, 99))], ["ERROR"], [], ["OK", "1"]])
    mode = adr[0] if s.bool(0.8) else s.choice(ref.MODES)
    if adr[3] == "STMDRSENMSG" and p and s.bool(0.3):
        p[0] = s.choice(["10", "11", "20", "22", "23", "24", "25", "26", "30", "31", "1", "0", "99"])
    t = gens.talker_for(s, adr[3])
    return t, adr[3], mode, gens.strict(gens.no_brackets(t, adr[3], p))


MULTI = [a for a in gens.BUILDABLE if ref.source(a[3]) == "PROP" and
         (a[2] in gens.FORMS or a[3] in ref.PREFIX or a[2].startswith("STMDRSENMSG") or a[2] == "QTMSN"
          or a[2].startswith("QTMCFG"))]


def gen_form(s):
    return gen_build(s, MULTI)


def check_form(case):
    t, m, mode, key, tab, kw, hp = case
    fields = ref.G[tab][key]
    msg, before, after = build(t, m, mode, kw, hp)
    check_built(fields, msg, mode, kw, hp, before, after, key)
    back = check_parse_back(fields, msg, kw, hp, key)
    want = t + m + (msg.payload[0] if m in ref.PREFIX else "")
    require(msg.identity == want and back.identity == want,
            lambda: f"identity {msg.identity!r} / {back.identity!r}, expected {want!r}")


def gen_noid(s):
    m = s.choice(list(ref.PREFIX))
    kw = {}
    adr = [a for a in gens.BUILDABLE if a[3] == m]
    if adr and s.bool(0.7):
        kw = gens.kwargs_for(s, s.choice(adr))
        kw.pop("msgId", None)
    return m, s.choice(ref.MODES), kw, s.choice([0, 1, 3])


def check_noid(case):
    m, mode, kw, v = case
    try:
        msg = build("P", m, mode, kw, validate=v)[0]
    except NMEAMessageError:
        return
    raise Violation(f"P{m} built without payload or msgId: {msg!r}")


SUBS = [
    Sub("matrix", enum=matrix, check=check),
    Sub("prefixes", enum=prefixes, check=check),
    Sub("acknak", enum=acknak, check=check),
    Sub("random", gen_any, check, quick=20000, hyp=0.03,
        nontrivial=lambda c: ref.lookup(c[1], c[2], c[3])[2] is not None),
    Sub("forms", gen_form, check_form, quick=25000, hyp=0.03, classify=lambda c: [c[3]] if c[3] in gens.FORMS else []),
    Sub("noid", gen_noid, check_noid, quick=800, hyp=0.1),
]
