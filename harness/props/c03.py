"""C03 corruption never becomes a message under checksum validation."""
import io

import gens
import ref
from common import *
from engine import Sub

RULE = ("well formed sentences with one byte substituted, deleted or inserted, fields swapped, or the checksum "
        "replaced by another string, as bytes or text, with and without user definitions, parsed and read with checksum validation on and off; non-trivial: the damaged "
        "sentence's checksum field does not match its content")


def base(s):
    t, m, mode, p = gens.any_sentence(s)
    return t, m, mode, p


def gen_byte(s):
    t, m, mode, p = base(s)
    raw = ref.sentence(t, m, p)
    i = s.uint(0, len(raw) - 1)
    kind = s.choice(["sub", "flip", "del", "ins", "dup"])
    b = s.uint(0, 255)
    if kind == "flip":
        b = raw[i] ^ (1 << s.uint(0, 7))
    bad = {"sub": raw[:i] + bytes([b]) + raw[i + 1:], "flip": raw[:i] + bytes([b]) + raw[i + 1:],
           "del": raw[:i] + raw[i + 1:], "ins": raw[:i] + bytes([b]) + raw[i:],
           "dup": raw[:i] + raw[i:i + 1] + raw[i:]}[kind]
    return bad, mode, s.choice([1, 3])


def reading(raw):
    """(content bytes, checksum bytes) of a sentence; None if it has no checksum delimiter"""
    body = raw.lstrip(b"$\r\n").rstrip(b"\r\n")
    if b"*" not in body:
        return None
    c, _, k = body.partition(b"*")
    return c, k


def valid(raw):
    r = reading(raw)
    return r is not None and r[1].upper() == b"%02X" % ref.xor(r[0])


def check_byte(case):
    raw, mode, validate = case
    if valid(raw):
        return
    got, msg = outcome_of(lambda: parse(raw, mode, validate))
    require(got != "type", lambda: f"{raw!r}: type error instead of a checksum error")
    if got == "ok":
        r = reading(raw)
        require(msg is None, lambda: f"{raw!r} with a wrong checksum gave {msg}")
        try:
            raw.decode("utf-8")
            text = True
        except UnicodeDecodeError:
            text = False
        require(r is None or not text, lambda: f"{raw!r}: a wrong checksum was not reported")


WRONG = ["", "0", "00", "FF", "5", "5A5", "0x%s", " %s", "%s ", "%s0", "0%s", "00%s", "+%s", "%s*%s", "%s,", "_%s",
         "%s\t", "ZZ", "None", "%s\x00", "%s$", "%s$$", "$%s", "\ufb00", "\u00df%s"]


def gen_ck(s):
    t, m, mode, p = base(s)
    user = None
    if s.bool(0.1):
        user = gens.user_table(s)
        m = s.choice(sorted(user))
        p = gens.payload_for(s, user[m])
    c = ref.checksum(ref.content(t, m, p))
    k = s.int(0, 6)
    if k == 0:
        ck = c
    elif k == 1:
        ck = c.lower()
    elif k == 2:
        ck = "".join(s.choice([x.lower(), x.upper()]) for x in c)
    elif k == 3:
        ck = "%02X" % s.uint(0, 255)
    elif k == 4:
        w = s.choice(WRONG)
        ck = w.replace("%s", c)
    elif k == 5:
        ck = s.choice([c[0], c[1], c[::-1], hex(int(c, 16)), str(int(c, 16)), "%03X" % int(c, 16), "%X" % int(c, 16)])
    else:
        ck = "".join(chr(s.uint(32, 126)) for _ in range(s.int(0, 4)))
    return t, m, mode, p, ck, s.choice([1, 3, 0, 2]), user, s.bool(0.2)


def check_ck(case):
    t, m, mode, p, ck, validate, user, as_str = case if len(case) == 8 else case + (None, False)
    exp = Expect(t, m, mode, p, validate, user)
    lt = gens.lib_table(user)
    raw = ref.sentence(t, m, p, cksum=ck)
    want = exp.outcome
    if validate & 1 and ref.ascii_upper(ck) != ref.checksum(ref.content(t, m, p)):
        want = "reject"
    got, msg = outcome_of(lambda: parse(raw.decode() if as_str else raw, mode, validate, lt))
    if want == "any":
        return
    require(got == want, lambda: f"{raw!r} validate={validate}: outcome {got}, expected {want}")
    if got == "ok":
        check_message(msg, exp, ck)
        require(msg.serialize() == ref.sentence(t, m, p, cksum=ck), lambda: f"{raw!r} serialized {msg.serialize()!r}")
    else:
        require(msg is None, "")
    # the reader agrees with the parser
    if not ref.is_header(t):
        return
    rd = NMEAReader(io.BytesIO(raw), msgmode=mode, validate=validate, quitonerror=0, userdefined=lt)
    r, pm = rd.read()
    if want == "ok":
        require(r == raw and pm is not None and pm.payload == p, lambda: f"reader gave {(r, pm)!r} for {raw!r}")
    else:
        require(pm is None, lambda: f"reader gave {pm} for the rejected {raw!r}")


def gen_swap(s):
    """content exchanged between sentences, fields exchanged within one (XOR may survive: no claim then)"""
    t, m, mode, p = base(s)
    t2, m2, _, p2 = base(s)
    ck = ref.checksum(ref.content(t2, m2, p2))
    return t, m, mode, p, ck, s.choice([1, 3])


def exhaustive():
    """every single byte substitution of one short sentence"""
    raw = ref.sentence("GN", "GLL", ["5130.12", "N", "00", "W"])
    return [(raw[:i] + bytes([b]) + raw[i + 1:], 0, 1) for i in range(len(raw)) for b in range(256) if b != raw[i]]


def ligatures():
    """sentences with checksum FF and their look-alikes (upper() of U+FB00 is FF)"""
    out = []
    for ch in "\u20ac\u4e2d\u0905\u1e9e\uffe6\ud55c":
        for a in map(chr, range(0x2d, 0x7b)):
            p = ["01", "01", "02", a + ch]
            if ref.checksum(ref.content("GN", "TXT", p)) == "FF":
                out += [("GN", "TXT", 0, p, ck, v) for ck in ("FF", "ff", "fF", "\ufb00", "F\uff26", "\uff26\uff26")
                        for v in (0, 1, 2, 3)]
    return out


def mism(c):
    return ref.ascii_upper(c[4]) != ref.checksum(ref.content(c[0], c[1], c[3]))


SUBS = [
    Sub("bytes", gen_byte, check_byte, quick=60000, nontrivial=lambda c: not valid(c[0]), hyp=0.03),
    Sub("checksum", gen_ck, check_ck, quick=40000, nontrivial=mism, hyp=0.03,
        classify=lambda c: ["wrong" if mism(c) else "right", f"validate{c[5]}"]),
    Sub("swap", gen_swap, check_ck, quick=6000, nontrivial=mism),
    Sub("ligatures", enum=ligatures, check=check_ck),
    Sub("exhaustive", enum=exhaustive, check=check_byte, nontrivial=lambda c: not valid(c[0])),
]
