"""C15 immutability."""
import copy
import pickle

import gens
import ref
from build import build
from common import *
from engine import Sub

RULE = ("messages parsed (with and without checksum validation), built from a payload list, from keyword attributes or with user-defined definitions x sequences "
        "of 1..12 set/add/delete attempts, changes of every list and dictionary passed in or handed out, copies (copy, deepcopy, pickle) and further "
        "constructions; oracle: an observation before equals every later one; non-trivial: at least one attempt and one "
        "change")


def gen(s):
    how = s.choice(["parse", "payload", "build", "user", "unknown", "puser", "parse0"])
    user = None
    if how == "build":
        adr = s.choice(gens.BUILDABLE)
        src = (gens.talker_for(s, adr[3]), adr[3], adr[0], gens.kwargs_for(s, adr))
        names = list(src[3])
    else:
        if how in ("user", "puser"):
            user = gens.user_table(s)
            m = s.choice(sorted(user))
            t, mode, p = s.choice(["GN", "P"]), s.choice([0, 1, 2]), gens.payload_for(s, user[m])
        elif how == "unknown":
            t, m, p = gens.unknown_sentence(s)
            mode = s.choice([0, 1, 2])
        else:
            t, m, mode, p = gens.def_sentence(s, vary=s.bool(0.3))
        src = (t, m, mode, p)
        names = []
    ops = []
    for _ in range(s.int(1, 12)):
        k = s.int(0, 10)
        if k <= 3:
            name = s.choice(["lat", "_payload", "_immutable", "identity", "payload", "msgmode", "_checksum", "new",
                             "msgId", "field_01", "_mode", "talker", "#0", "#1", "#-1", "_talker", "_msgID", "checksum",
                             "__dict__", "__class__", "serialize", "msgID"] + names)
            ops.append((s.choice(["set", "set", "del"]), name, s.choice([0, "", "x", None, 1.5])))
        elif k <= 5:
            ops.append(("out", s.int(0, 5)))
        elif k <= 7:
            ops.append(("in", s.int(0, 5)))
        elif k == 10:
            ops.append(("copy", s.int(0, 2)))
        elif k == 8:
            ops.append(("other",) + gens.def_sentence(s)[:4])
        else:
            ops.append(("observe",))
    return how, src, user, s.bool(), ops


def observe(m):
    a = ref.attrs_of(m)
    return (m.identity, m.talker, m.msgID, m.msgmode, m.payload, m.checksum, m.serialize(), str(m), repr(m), a,
            [getattr(m, n) for n, _ in a])


def spoil(lst, k):
    """change a list in one of several ways"""
    if k == 0:
        lst.append("zz")
    elif k == 1:
        lst.clear()
    elif k == 2 and lst:
        lst[0] = "zz"
    elif k == 3 and lst:
        lst.pop()
    elif k == 4:
        lst.insert(0, "zz")
    else:
        lst[:] = ["q"] * 30


def check(case):
    how, src, user, tup, ops = case
    given, utab = None, gens.lib_table(user)
    if how == "build":
        kw = {k: gens.lib_value(v) for k, v in src[3].items()}
        kcopy = dict(kw)
        msg = NMEAMessage(*src[:3], **kw)
        require(kw == kcopy, lambda: f"keyword arguments changed to {kw!r}")
    elif how in ("parse", "puser", "parse0"):  # the last with a checksum that may be wrong
        raw = ref.sentence(src[0], src[1], src[3], cksum="5a" if how == "parse0" else None)
        got, msg = outcome_of(lambda: parse(raw, src[2], int(how != "parse0"), utab))
        if got != "ok":
            return
    else:
        given = list(src[3])
        try:
            msg = NMEAMessage(*src[:3], payload=given, userdefined=utab)
        except NMEATypeError:
            require(given == src[3], lambda: f"payload list given became {given!r}, was {src[3]!r}")
            return
        require(given == src[3], lambda: f"payload list given became {given!r}, was {src[3]!r}")
    require(utab == gens.lib_table(user), lambda: f"user definitions changed to {utab!r}, were {user!r}")
    first = observe(msg)
    require(observe(msg) == first, lambda: f"two observations differ: {first} / {observe(msg)}")
    if how != "build":
        require(first[4] == src[3], lambda: f"payload {first[4]!r}, given {src[3]!r}")
    for op in ops:
        if op[0] in ("set", "del"):
            name = op[1]
            if name[0] == "#":
                if not first[9]:
                    continue
                name = first[9][int(name[1:]) % len(first[9])][0]
            try:
                if op[0] == "set":
                    setattr(msg, name, op[2])
                else:
                    delattr(msg, name)
                done = "no error"
            except NMEAMessageError:
                done = None
            except AttributeError as err:
                done = repr(err)
            require(done is None, lambda: f"{op[0]} {name} of {first[8]}: {done}")
        elif op[0] == "out":
            spoil(msg.payload, op[1])
        elif op[0] == "in":
            if given is not None:
                spoil(given, op[1])
            if utab:
                for d in utab.values():
                    d["zz"] = "ST"
                    d.pop(next(iter(d)))
                if op[1] == 1:
                    utab.clear()
            if how == "build":
                kw["zz"] = 1
                kw.clear()
        elif op[0] == "other":
            outcome_of(lambda: parse(ref.sentence(op[1], op[2], op[4]), op[3]))
        elif op[0] == "copy":
            was = msg
            msg = (copy.copy, copy.deepcopy, lambda m: pickle.loads(pickle.dumps(m)))[op[1]](msg)  # then go on with the copy
            require(type(msg) is type(was) and observe(was) == first, lambda: f"copy of {first[8]} changed it")
        now = observe(msg)
        require(now == first, lambda: f"after {op!r} of {ops!r} {first[8]} changed: "
                                      f"{[(a, b) for a, b in zip(now, first) if a != b]!r}")


# --------------------------------------------------------------- published tables are never changed
BASE = []


def gen_many(s):
    out = []
    for _ in range(s.int(5, 60)):
        if s.bool(0.4):
            adr = s.choice(gens.BUILDABLE)
            out.append((gens.talker_for(s, adr[3]), adr[3], adr[0], gens.kwargs_for(s, adr)))
        else:
            out.append(gens.any_sentence(s, pbad=0.1, miscount=0.1))
    return out


def check_many(case):
    if not BASE:
        BASE.append(snapshot())
    for t, m, mode, x in case:
        if isinstance(x, dict):
            build(t, m, mode, x)
        else:
            outcome_of(lambda: parse(ref.sentence(t, m, x), mode, 3))
            outcome_of(lambda: parse(ref.sentence(t, m, x), mode, 0))
    now = snapshot()
    require(now == BASE[0], lambda: f"tables changed: {[k for k in now if now[k] != BASE[0].get(k)]}")


SUBS = [
    Sub("history", gen, check, quick=30000, hyp=0.03, classify=lambda c: [c[0]],
        nontrivial=lambda c: any(o[0] in ("set", "del") for o in c[4]) and any(o[0] in ("in", "out") for o in c[4])),
    Sub("tables", gen_many, check_many, quick=700, hyp=0, thorough=20000),
]
