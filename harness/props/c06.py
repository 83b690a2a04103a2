"""C06 keyword generation and round trip."""
import gens
import ref
from build import *
from engine import Sub

RULE = ("keyword messages of every buildable definition and form in GET/SET/POLL, random subsets of attributes, "
        "typed values incl. edges, 0..25 group occurrences, standard and high precision, and user-defined "
        "definitions; payload lists with keywords besides; non-trivial: at least one attribute beyond the form selectors supplied")


def check(case):
    t, m, mode, key, tab, kw, hp = case
    fields = ref.G[tab][key]
    msg, b, a = build(t, m, mode, kw, hp)
    require((msg.talker, msg.msgID, msg.msgmode) == (t, m, mode), lambda: f"{msg!r} built for {case[:3]}")
    check_built(fields, msg, mode, kw, hp, b, a, key)
    check_parse_back(fields, msg, kw, hp, key)


def gen_user(s):
    user = gens.user_table(s)
    mid = s.choice(sorted(user))
    kw = {}
    for name, typ in user[mid]:
        if ref.is_group(typ):
            n = typ[0] if isinstance(typ[0], int) else s.int(0, 3)
            for k in range(1, n + 1):
                for i, (n2, t2) in enumerate(typ[1]):
                    if not i or s.bool():
                        kw["%s_%02d" % (n2, k)] = gens.typed(s, t2)
        elif s.bool(0.6):
            kw[name] = gens.typed(s, typ)
    return s.choice(["GN", "P", "XX"]), mid, s.choice(ref.MODES), user, kw, s.bool()


def check_user(case):
    t, m, mode, user, kw, hp = case
    msg, b, a = build(t, m, mode, kw, hp, user)
    check_built(user[m], msg, mode, kw, hp, b, a)
    check_parse_back(user[m], msg, kw, hp, m, user)


def check_dec(case):
    """the same with Decimal objects for numbers"""
    t, m, mode, user, kw, hp = case
    conv = decimals(user[m])
    msg, b, a = build(t, m, mode, kw, hp, user, conv=conv)
    check_built(user[m], msg, mode, kw, hp, b, a, conv=conv)
    check_parse_back(user[m], msg, kw, hp, m, user)


def gen_nominal(s):
    adr = s.choice(gens.BUILDABLE)
    return (gens.talker_for(s, adr[3]), adr[3], adr[0], adr[2], adr[1], gens.kwargs_for(s, adr, p=0.0), s.bool())


def one_each():
    """each buildable definition: nothing supplied, everything supplied"""
    import random
    from engine import RandomSource
    out = []
    for i, adr in enumerate(gens.BUILDABLE):
        for p in (0.0, 1.0):
            s = RandomSource(random.Random(i * 7 + int(p)))
            out.append((gens.talker_for(s, adr[3]), adr[3], adr[0], adr[2], adr[1],
                        gens.kwargs_for(s, adr, p=p), False))
    return out


SELECTORS = ("portid baudrate databit msgver porttype enable maskhigh lon1 lat1 geofencemode msgtype msgId field_01 field_02 lat lon "
             "NS EW svid_01 svid_40 prn_07 numMsg numGrp gsv_03 time date foo _payload _mode msgid status").split()
OURS = set("talker msgID msgmode hpnmeamode validate userdefined checksum self payload".split())


def gen_payload(s):
    """a payload list, with attribute keywords besides"""
    t, m, mode, p = gens.any_sentence(s, pbad=0.1)
    user = None
    if s.bool(0.15):
        user = gens.user_table(s)
        m = s.choice(sorted(user))
        p = gens.vary_length(s, gens.payload_for(s, user[m], pbad=0.1))
    kw = {}
    near = [a for a in gens.BUILDABLE if a[3] == m]
    if near and s.bool(0.7):
        kw |= gens.kwargs_for(s, s.choice(near))
    if user is not None:
        kw |= {n: gens.typed(s, ty) for n, ty in ref.flat(user[m]) if s.bool()}
    for _ in range(s.int(0 if kw else 1, 3)):
        kw[s.choice(SELECTORS)] = s.choice([0, 1, 2, -3.5, "", "W", "OK", "R", gens.text(s, 0, 5), None])
    return t, m, mode, p, {k: v for k, v in kw.items() if k not in OURS}, user, s.choice([0, 1, 2, 3]), s.bool(0.3)


def check_payload(case):
    """where the payload is given, attribute keywords have no effect"""
    t, m, mode, p, kw, user, validate, hp = case

    def make(**more):
        try:
            return NMEAMessage(t, m, mode, payload=list(p), validate=validate, hpnmeamode=hp,
                               userdefined=gens.lib_table(user), **more)
        except DOCUMENTED as err:
            return type(err)

    one, two = make(), make(**kw)
    if isinstance(one, type) or isinstance(two, type):
        d = None if one is two else "not the same outcome"
    else:
        d = same_message(one, two)
    require(d is None, lambda: f"NMEAMessage({t!r}, {m!r}, {mode}, payload={p!r}, validate={validate}) gives {one!r}, with {kw!r} {two!r}: {d}")


SUBS = [
    Sub("payload", gen_payload, check_payload, quick=30000, nontrivial=lambda c: len(c[3]) > 0, hyp=0.04),
    Sub("build", gen_build, check, quick=60000, nontrivial=lambda c: len(c[5]) > 1, hyp=0.04,
        classify=lambda c: [("GET", "SET", "POLL")[c[2]], ref.source(c[1])]),
    Sub("user", gen_user, check_user, quick=10000, nontrivial=lambda c: len(c[4]) > 0, hyp=0.04),
    Sub("decimal", gen_user, check_dec, quick=8000, hyp=0.04,
        nontrivial=lambda c: any(type(v) in (int, float) for v in c[4].values())),
    Sub("each", enum=one_each, check=check),
]
