"""C16 repr and str."""
import re

import gens
import ref
from build import build, gen_build
from common import *
from engine import Sub

RULE = ("all definitions of all modes, unknown messages, arbitrary text (quotes, backslashes, control and non-ASCII "
        "characters), correct and wrong checksums, messages (published, user-defined) built from keyword attributes; oracle: eval(repr) observed "
        "against the original, str composed independently; non-trivial: at least one attribute")


def gen(s):
    t, m, mode, p = gens.any_sentence(s, pbad=0.1, miscount=0.05)
    if s.bool(0.15):
        p = [gens.text(s, 0, 6) for _ in range(s.int(0, 9))]
    user = None
    if s.bool(0.05):
        user = gens.user_table(s)
        m = s.choice(sorted(user))
        p = gens.payload_for(s, user[m])
    return t, m, mode, p, user, s.int(1, 255) if s.bool(0.15) else 0, s.bool(0.2)


def expected_str(msg, ident, nominal, names):
    return "<NMEA(" + ", ".join([ident] + ["NOMINAL"] * nominal + [f"{n}={getattr(msg, n)}" for n in names]) + ")>"


def check(case):
    t, m, mode, p, user, wrong, direct = case
    exp = Expect(t, m, mode, p, VALNONE, user)
    ck = "%02X" % (int(ref.checksum(ref.content(t, m, p)), 16) ^ wrong)
    lt = gens.lib_table(user)
    if direct:
        got, msg = outcome_of(lambda: NMEAMessage(t, m, mode, payload=list(p), userdefined=lt))
        wrong = 0
    else:
        got, msg = outcome_of(lambda: parse(ref.sentence(t, m, p, cksum=ck), mode, VALNONE, lt))
    if got != "ok" or exp.attrs is None:
        return  # acceptance is the subject of other properties
    want = expected_str(msg, exp.identity, exp.nominal, [a[0] for a in exp.attrs])
    require(str(msg) == want, lambda: f"str is {str(msg)!r}, expected {want!r}")
    require(f"{msg}" == want and "%s" % msg == want, "format differs from str")
    require(repr(msg) == repr(msg), "repr not repeatable")
    if user is None:
        evaluate(msg, wrong, parsed=True)


def evaluate(msg, wrong, parsed):
    text = repr(msg)
    try:
        back = eval(text, {"NMEAMessage": NMEAMessage})  # the documented contract of repr
    except (SyntaxError, NameError, NMEAMessageError, NMEATypeError, NMEAParseError, TypeError, ValueError) as err:
        raise Violation(f"eval of {text!r}: {err!r}") from err
    require(isinstance(back, NMEAMessage), lambda: f"{text!r} evaluates to {back!r}")
    for n in ("talker", "msgID", "msgmode", "payload", "identity"):
        a, b = getattr(back, n), getattr(msg, n)
        require(type(a) is type(b) and a == b, lambda: f"{text!r}: {n} {a!r}, was {b!r}")
    if parsed:
        a, b = ref.attrs_of(back), ref.attrs_of(msg)
        require(a == b and str(back) == str(msg), lambda: f"{text!r}: attributes {a}, were {b}")
    if not wrong:
        require(back.serialize() == msg.serialize(),
                lambda: f"{text!r} serializes to {back.serialize()!r}, was {msg.serialize()!r}")
    require(repr(back) == text, lambda: f"repr of {text!r} is {back!r}")


def check_built(case):
    t, m, mode, key, tab, kw, hp = case
    msg, _, _ = build(t, m, mode, kw, hp)
    names = [n for n, _ in gens.count_after_groups(ref.G[tab][key], kw)]
    first = [f for f in names if f == "msgId"]
    ident = t + m + (str(kw.get("msgId", "")) if first and m in ref.PREFIX else "")
    want = expected_str(msg, ident, False, names)
    require(str(msg) == want, lambda: f"str is {str(msg)!r}, expected {want!r}")
    evaluate(msg, 0, parsed=False)


def gen_user(s):
    user = gens.user_table(s)
    m = s.choice(sorted(user))
    kw = {n: gens.typed(s, t) for n, t in user[m] if not ref.is_group(t) and s.bool(0.7)}
    return s.choice(["GN", "P", "XX"]), m, s.choice(ref.MODES), user, kw, s.bool(0.3)


def check_user(case):
    t, m, mode, user, kw, hp = case
    msg, _, _ = build(t, m, mode, kw, hp, user)
    want = expected_str(msg, t + m, False, [n for n, _ in gens.count_after_groups(user[m], kw)])
    require(str(msg) == want, lambda: f"str is {str(msg)!r}, expected {want!r}")


def char_cases():
    """every character below 256 and some above, alone and doubled, in talker-safe text fields"""
    out = []
    for c in list(range(256)) + [0x2028, 0x200b, 0xfeff, 0x3b1, 0x4e2d, 0xffff, 0x1f600, 0x10ffff]:
        ch = chr(c)
        if ch in ",*$\r\n":
            continue
        for p in ([ch], ["a" + ch, ch + "b", ch + ch], ["'" + ch + '"', "\\" + ch]):
            out.append(("GN", "TXT", 0, ["01", "01", "01"] + p, None, 0, False))
            out.append(("P", "ZZQ", 0, ["x"] + p + ["y"], None, 0, False))
            out.append(("GP", "QQ" + ch, 1, p, None, 0, True))
    return out


SUBS = [
    Sub("parsed", gen, check, quick=45000, nontrivial=lambda c: len(c[3]) > 0, hyp=0.03),
    Sub("built", gen_build, check_built, quick=15000, nontrivial=lambda c: len(c[5]) > 0, hyp=0.03),
    Sub("builtuser", gen_user, check_user, quick=6000, nontrivial=lambda c: len(c[4]) > 0, hyp=0.03),
    Sub("chars", enum=char_cases, check=check),
]
