"""C26 modes and options."""
import gens
import ref
from build import build, check_built, gen_build
from common import *
from engine import Sub

RULE = ("sentences of every definition in every mode (also the wrong one) x validation settings x user definitions x stream "
        "kinds; messages built in every mode; invalid modes; defaults; oracle: reference by mode, reader against parser, settings against each other; "
        "non-trivial: message accepted in some setting")

BADMODES = [3, -1, 4, 99, 255, "0", "GET", None, 2.5, 0.5, "", (0,), 1 << 40]


def gen(s):
    user = gens.user_table(s) if s.bool(0.2) else None
    if user and s.bool(0.7):
        m = s.choice(sorted(user))
        t, p = s.choice(["GN", "P", "XX"]), gens.payload_for(s, user[m], pbad=0.1)
    elif s.bool(0.15):
        t, m, p = gens.unknown_sentence(s)
    else:
        t, m, _, p = gens.def_sentence(s, pbad=0.1, vary=s.bool(0.3), okbad=s.bool(0.9))
    return t, m, gens.strict(gens.no_brackets(t, m, p)), user, s.choice(STREAMS), s.bool(0.1), s.choice(BADMODES)


def check(case):
    t, m, p, user, kind, wrong, badmode = case
    ck = ref.checksum(ref.content(t, m, p))
    if wrong:
        ck = "%02X" % (int(ck, 16) ^ 0x11)
    raw = ref.sentence(t, m, p, cksum=ck)
    utab = gens.lib_table(user)

    def run(fn):
        try:
            return "ok", fn()
        except NMEAParseError:
            return "reject", None
        except NMEATypeError:
            return "type", None

    for mode in ref.MODES:
        same = None
        for v in (0, 1, 2, 3):
            exp = Expect(t, m, mode, p, v, user)
            want = "reject" if wrong and v & 1 else exp.outcome
            got, msg = run(lambda: NMEAReader.parse(raw, mode, v, utab))
            ctx = f"{raw!r} mode {mode} validate {v} user {user}"
            require(want in (got, "any"), lambda: f"parse gives {got}, expected {want}: {ctx}")
            if want == "any":
                continue
            kgot, kmsg = run(lambda: NMEAReader.parse(message=raw, msgmode=mode, validate=v, userdefined=utab))
            require(kgot == got, lambda: f"keyword call gives {kgot}, positional {got}: {ctx}")
            if got == "ok":
                require(msg is not None and msg.msgmode == mode, lambda: f"mode reported {getattr(msg, 'msgmode', msg)!r}: {ctx}")
                check_message(msg, exp, ck, ctx)
                require(same_message(kmsg, msg) is None, lambda: f"{same_message(kmsg, msg)}: {ctx}")
                if same is not None:
                    d = same_message(msg, same)
                    require(d is None, lambda: f"depends on validation setting: {d}: {ctx}")
                same = msg
            if not ref.is_header(t) or t + m == t + "" and not p:
                continue
            for q in (0, 2):
                rd = NMEAReader(make_stream(kind, raw), msgmode=mode, validate=v, userdefined=utab, quitonerror=q,
                                nmeaonly=(mode + v + q + len(p)) % 3 == 0)
                rgot, pair = run(rd.read)
                if got != "ok" and q == 0:
                    require(rgot == "ok" and pair == (None, None), lambda: f"reader gives {rgot} {pair}: {ctx}")
                    continue
                require(rgot == got, lambda: f"reader gives {rgot}, parser {got}: {ctx}")
                if got == "ok":
                    require(pair[0] == raw, lambda: f"reader gives bytes {pair[0]!r}: {ctx}")
                    d = same_message(pair[1], msg)
                    require(d is None, lambda: f"reader and parser differ: {d}: {ctx}")
    # defaults: GET, checksum validation only
    got, msg = run(lambda: NMEAReader.parse(raw))
    want, wmsg = run(lambda: NMEAReader.parse(raw, 0, 1, None))
    require(got == want, lambda: f"default parse of {raw!r}: {got}, GET with checksum validation {want}")
    if got == "ok":
        require(same_message(msg, wmsg) is None, lambda: f"default parse of {raw!r}: {same_message(msg, wmsg)}")
        if ref.is_header(t):
            pair = NMEAReader(make_stream(kind, raw)).read()
            require(pair[0] == raw and same_message(pair[1], wmsg) is None, lambda: f"default reader on {raw!r}: {pair!r}")
    # other modes are rejected
    for what, fn, exc in (("parse", lambda: NMEAReader.parse(raw, badmode), NMEAParseError),
                          ("parse", lambda: NMEAReader.parse(raw, msgmode=badmode, validate=0), NMEAParseError),
                          ("reader", lambda: NMEAReader(make_stream(kind, raw), msgmode=badmode), NMEAParseError),
                          ("constructor", lambda: NMEAMessage(t, m, badmode, payload=list(p)), NMEAMessageError),
                          ("constructor", lambda: NMEAMessage(t, m, badmode, validate=0, checksum="00"), NMEAMessageError)):
        try:
            res = fn()
        except exc as err:
            require(type(err) is exc, lambda: f"{type(err)} from {what}")
            continue
        raise Violation(f"{what} accepted mode {badmode!r}: {res!r}")


def gen_builds(s):
    return gen_build(s) + (s.choice([0, 1, 2, 3]),)


def check_builds(case):
    """messages are built by the definition of their mode, from keyword attributes and from a payload alike"""
    t, m, mode, key, tab, kw, hp, validate = case
    fields = ref.G[tab][key]
    msg, b, a = build(t, m, mode, kw, hp, None, validate)
    require(msg.msgmode == mode, lambda: f"{msg!r} reports mode {msg.msgmode!r}")
    check_built(fields, msg, mode, kw, hp, b, a, key)
    other = NMEAMessage(t, m, mode, payload=msg.payload, validate=validate)
    require(other.msgmode == mode, lambda: f"{other!r} reports mode {other.msgmode!r}")
    names = [n for n, _ in gens.count_after_groups(fields, kw)]
    require([n for n, _ in ref.attrs_of(other)] == names,
            lambda: f"{other!r} has attributes {[n for n, _ in ref.attrs_of(other)]}, mode {mode} defines {names}")
    back = parse(msg.serialize(), mode, validate)
    d = same_message(other, back)
    require(d is None, lambda: f"{other!r} and its sentence parsed in mode {mode} differ: {d}")


def modes():
    """every definition's sentence in every mode, fully populated"""
    import random

    from engine import RandomSource

    out = []
    for i, adr in enumerate(ref.ADDRESSES):
        for k in range(2):
            s = RandomSource(random.Random(i * 41 + k))
            p = gens.strict(gens.no_brackets("P", adr[3], gens.def_payload(s, adr, reps=1 + k, pempty=0)))
            out.append((gens.talker_for(s, adr[3]), adr[3], p, None, STREAMS[i % 4], False, BADMODES[i % len(BADMODES)]))
    return out


SUBS = [
    Sub("options", gen, check, quick=10000, hyp=0.03,
        nontrivial=lambda c: any(Expect(c[0], c[1], m, c[2], 1, c[3]).outcome == "ok" for m in ref.MODES)),
    Sub("builds", gen_builds, check_builds, quick=12000, hyp=0.03, nontrivial=lambda c: len(c[5]) > 0,
        classify=lambda c: ["builds " + ("GET", "SET", "POLL")[c[2]]]),
    Sub("modes", enum=modes, check=check),
]
