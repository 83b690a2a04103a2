"""C02 generated messages carry the correct checksum and framing."""
import gens
import ref
from build import *
from engine import Sub

RULE = ("messages created from payload lists (all types incl. unknown and unknown talkers, user-defined, UTF-8 text) and from keyword "
        "attributes, in all modes; helper calls on arbitrary text; non-trivial: at least one field")


def check_framing(msg, t, m, what):
    p = msg.payload
    ck = ref.checksum(ref.content(t, m, p))
    require(msg.checksum == ck, lambda: f"{what}: checksum {msg.checksum!r}, XOR of content is {ck!r}")
    raw = msg.serialize()
    require(raw == ref.sentence(t, m, p), lambda: f"{what}: serialized {raw!r}, expected {ref.sentence(t, m, p)!r}")
    body, _, tail = raw.rpartition(b"*")
    require(tail == b"%02X\r\n" % ref.xor(body[1:]), lambda: f"{what}: {raw!r}: checksum is not that of the bytes sent")


def gen_payload(s):
    t, m, mode, p = gens.any_sentence(s, pbad=0.1)
    if s.bool(0.1):
        t = s.choice(["XX", "\u00c4B", "P"])
        p = gens.no_brackets(t, m, p)
    user = None
    if s.bool(0.1):
        user = gens.user_table(s)
        m = s.choice(sorted(user))
        p = gens.vary_length(s, gens.payload_for(s, user[m], pbad=0.1))
    return t, m, mode, p, s.choice([0, 1, 2, 3]), s.bool(0.3), user


def check_payload(case):
    t, m, mode, p, validate, hp, user = case
    if t == "P" and ref.source(m) == "STND":
        t = "GN"
    exp = Expect(t, m, mode, p, validate, user)
    if exp.outcome != "ok":
        return
    opt = {} if user is None else {"userdefined": gens.lib_table(user)}
    msg = NMEAMessage(t, m, mode, payload=p, validate=validate, hpnmeamode=hp, **opt)
    require(msg.payload == p, lambda: f"payload {msg.payload!r} given {p!r}")
    check_framing(msg, t, m, f"NMEAMessage({t!r},{m!r},{mode},payload={p!r})")
    if ref.split_address(t + m) == (t, m):
        back = parse(msg.serialize(), mode, VALCKSUM, gens.lib_table(user))
        require(isinstance(back, NMEAMessage) and back.payload == p and back.checksum == msg.checksum,
                lambda: f"{msg.serialize()!r} parsed to {back!r}")


def check_kwargs(case):
    t, m, mode, key, tab, kw, hp = case
    msg, _, _ = build(t, m, mode, kw, hp)
    check_framing(msg, t, m, f"{t}{m} from {kw!r}")
    back = parse(msg.serialize(), mode, VALCKSUM)
    require(isinstance(back, NMEAMessage) and back.serialize() == msg.serialize(),
            lambda: f"{msg.serialize()!r} parsed to {back!r}")


def gen_user(s):
    user = gens.user_table(s)
    m = s.choice(sorted(user))
    kw = {n: gens.typed(s, t) for n, t in user[m] if not ref.is_group(t) and s.bool(0.7)}
    return s.choice(["GN", "P", "XX"]), m, s.choice(ref.MODES), user, kw, s.bool(0.3), s.choice([0, 1])


def check_user(case):
    t, m, mode, user, kw, hp, validate = case
    msg, _, _ = build(t, m, mode, kw, hp, user, validate)
    check_framing(msg, t, m, f"{t}{m} from {kw!r}")
    back = parse(msg.serialize(), mode, VALCKSUM, gens.lib_table(user))
    require(isinstance(back, NMEAMessage) and back.serialize() == msg.serialize(),
            lambda: f"{msg.serialize()!r} parsed to {back!r}")


def gen_unknown_kw(s):
    kw = {s.choice(["time", "lat", "foo", "msgId", "svid_01"]): s.choice([1, "x", 2.5]) for _ in range(s.int(0, 2))}
    return s.choice(["GN", "P", "XX"]), gens.unknown_id(s), s.choice(ref.MODES), sorted(kw.items())


def check_unknown_kw(case):
    t, m, mode, kw = case
    check_framing(NMEAMessage(t, m, mode, **dict(kw)), t, m, f"NMEAMessage({t!r},{m!r},{mode}, {kw})")


def gen_helper(s):
    return (s.choice(["GN", "P", "XX", ""]), gens.text(s, 0, 5),
            [s.choice([gens.text(s, 0, 12), s.text("*$,\r\n\x00\u0130\uffff", 0, 3)]) for _ in range(s.int(0, 6))])


def check_helper(case):
    t, m, p = case
    c = ref.content(t, m, p)
    want = ref.checksum(c)
    got = lib.calc_checksum(c)
    require(got == want, lambda: f"calc_checksum({c!r}) = {got!r}, XOR is {want!r}")
    got = lib.generate_checksum(t, m, p)
    require(got == want, lambda: f"generate_checksum{case!r} = {got!r}, XOR is {want!r}")


SUBS = [
    Sub("payload", gen_payload, check_payload, quick=60000, nontrivial=lambda c: len(c[3]) > 0, hyp=0.04,
        classify=lambda c: [ref.source(c[1])]),
    Sub("kwargs", gen_build, check_kwargs, quick=25000, nontrivial=lambda c: len(c[5]) > 0, hyp=0.04),
    Sub("user", gen_user, check_user, quick=8000, nontrivial=lambda c: len(c[4]) > 0, hyp=0.04),
    Sub("unknown", gen_unknown_kw, check_unknown_kw, quick=2000),
    Sub("helpers", gen_helper, check_helper, quick=20000, nontrivial=lambda c: len(c[2]) > 0),
]
