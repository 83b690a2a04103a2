"""C01 parse -> serialize is byte exact."""
import gens
import ref
from common import *
from engine import Sub

RULE = ("sentences of every published definition in every mode, of unknown and of user-defined types, "
        "with empty/malformed/surplus/omitted fields, UTF-8 text, upper/lower/mixed case checksums (any digits where they are not validated), as bytes and "
        "str; non-trivial: the sentence is accepted and has at least one field")


def gen(s):
    user = gens.user_table(s) if s.bool(0.15) else None
    if user and s.bool(0.7):
        mid = s.choice(sorted(user))
        t, m, mode = s.choice(["GN", "P", "XX"]), mid, s.choice(ref.MODES)
        p = gens.vary_length(s, gens.payload_for(s, user[mid], pbad=0.15))
    else:
        t, m, mode, p = gens.any_sentence(s, pbad=0.15)
    validate = s.choice([1, 0, 2, 3])
    cc = s.choice(["upper", "lower", "Mixed", "mIxed"])
    if not validate & 1 and s.bool(0.4):  # any two digits are accepted
        cc = f"={s.uint(0, 255):02{s.choice('xX')}}"
    return (t, m, mode, p, validate, user, s.bool(), cc,
            s.choice(["\r\n", "\r\n", "\n", ""]))


def cased(ck, cc):
    if cc[0] == "=":
        return cc[1:]
    if cc.lower() == "mixed":
        return ck[0].lower() + ck[1] if cc == "mIxed" else ck[0] + ck[1].lower()
    return getattr(ck, cc)()


def check(case):
    t, m, mode, p, validate, user, as_str, cc, eol = case
    exp = Expect(t, m, mode, p, validate, user)
    if exp.outcome != "ok":
        return
    ck = cased(ref.checksum(ref.content(t, m, p)), cc)
    raw = ref.sentence(t, m, p, eol, ck)
    msg = parse(raw.decode("utf-8") if as_str else raw, mode, validate, gens.lib_table(user))
    require(isinstance(msg, NMEAMessage), lambda: f"{raw!r} gave {msg!r}")
    full = ref.sentence(t, m, p, "\r\n", ck)
    out = msg.serialize()
    require(isinstance(out, bytes) and out == full, lambda: f"serialized {out!r}, source {full!r}")
    require(msg.talker == t and msg.msgID == m, lambda: f"talker/msgID {msg.talker!r}, {msg.msgID!r} of {raw!r}")
    require(isinstance(msg.payload, list) and msg.payload == p, lambda: f"payload {msg.payload!r} of {raw!r}")
    require(msg.checksum == ck, lambda: f"checksum {msg.checksum!r} of {raw!r}")
    require(msg.msgmode == mode, lambda: f"msgmode {msg.msgmode!r}")
    again = parse(out, mode, validate, gens.lib_table(user))
    d = same_message(msg, again)
    require(d is None, lambda: f"parsing the serialized form again differs: {d}")


def accepted(case):
    return len(case[3]) > 0 and Expect(*case[:6]).outcome == "ok"


def classify(case):
    yield "str" if case[6] else "bytes"
    yield ref.source(case[1], case[5] or ())


SUBS = [
    Sub("roundtrip", gen, check, quick=60000, nontrivial=accepted, classify=classify, hyp=0.05),
    Sub("regress", enum=lambda: [
        ("P", "SSN", 0, ["SNC", "1", "120000.00", "2100", "[1", "2", "3", "4]"], 1, None, False, "upper", "\r\n"),
        ("P", "ASHR", 0, [], 1, None, False, "upper", "\r\n"),
        ("P", "UBX", 0, [], 1, None, True, "upper", "\r\n"),
        ("GN", "GGA", 0, [""] * 14, 3, None, False, "lower", "\r\n"),
        ("P", "XYZ", 0, ["\u00e9\u20ac", "\U0001f600"], 1, None, False, "upper", "\r\n"),
    ], check=check),
]
