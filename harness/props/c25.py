"""C25 no influence between readers, messages, calls, threads."""
import sys
import threading
from decimal import Decimal

import fresh
import gens
import ref
from build import build
from common import *
from engine import Sub
from pynmeagps import get_parts

SCALE = 1
RULE = ("histories of 2..60 operations interleaved over 2..5 readers with different modes, validation settings, user "
        "definitions (also different definitions of the same msgID), error handling and stream kinds, direct parses and "
        "constructions, and 2..6 concurrent threads; oracle: each result as the reference gives for its own arguments, all "
        "messages re-observed at the end; non-trivial: at least two different settings in use")


def shared_tables(s):
    """two or three different user definitions of the same ids"""
    base = gens.user_table(s, 2)
    out = [base]
    for _ in range(s.int(1, 2)):
        t = gens.user_table(s, 2)
        out.append(dict(zip(base, t.values())))
    return out


def a_sentence(s, mode, validate, user):
    if user and s.bool(0.4):
        m = s.choice(sorted(user))
        return s.choice(["GN", "P"]), m, gens.payload_for(s, user[m])
    if s.bool(0.15):
        return s.choice([("GN", "GGA", ["120000", "5130.0", "N", "00000.0", "W", "1", "x8"]), ("P", "UBX", ["03", "2x"])])
    if s.bool(0.5):
        return s.choice([("GN", "GLL", ["5130.0", "N", "00010.0", "W", "120000.00", "A", "A"]),
                         ("P", "QTMCFGPPS", ["OK"]), ("P", "QTMCFGUART", ["W", "1", "9600"]), ("P", "QTMCFGUART", ["R"]),
                         ("P", "QTMCFGPPS", ["R", "1"]), ("P", "UBX", ["40", "GLL"]), ("P", "QTMVERNO", []),
                         ("GN", "GLQ", ["GGA"]), ("GP", "GPQ", ["GLL"])])
    return gens.ok_sentence(s, mode, validate, user)


def settings(s, tables):
    return s.choice([0, 0, 1, 2]), s.choice([1, 0, 3]), s.choice(tables + [None]), s.choice([0, 2])


def gen(s):
    tables = shared_tables(s)
    readers = []
    for _ in range(s.int(2, 5)):
        mode, validate, user, q = settings(s, tables)
        items = [a_sentence(s, mode, validate, user) for _ in range(s.int(1, 6))]
        items = [i for i in items if ref.is_header(i[0])]
        readers.append((mode, validate, user, q, s.choice(["bytesio", "serial", "socket"]), items))
    ops = []
    for _ in range(s.int(2, 40)):
        k = s.int(0, 5)
        if k <= 2:
            ops.append(("read", s.uint(0, len(readers) - 1)))
        elif k <= 4:
            mode, validate, user, _ = settings(s, tables)
            sen = tuple(a_sentence(s, mode, validate, user))
            ops.append(("parse", mode, validate, user) + sen)
            while s.bool(0.3):  # the same sentence again, read otherwise
                what = s.int(0, 3)
                mode2, validate2, user2, _ = settings(s, tables)
                if what == 0:
                    mode2, validate2 = mode, validate
                    user2 = None if user is not None else user2
                elif what == 1:
                    validate2, user2 = validate, user
                elif what == 2:
                    mode2, user2 = mode, user
                ops.append(("parse", mode2, validate2, user2) + sen)
        else:
            adr = s.choice(gens.BUILDABLE)
            ops.append(("build", gens.talker_for(s, adr[3]), adr[3], adr[0], gens.kwargs_for(s, adr, 1.0), adr[1], adr[2]))
    return readers, ops


class Rd:
    def __init__(self, spec):
        self.mode, self.validate, self.user, self.q, kind, items = spec
        self.todo = []
        items = [i for i in items if Expect(*i[:2], self.mode, i[2], self.validate, self.user).outcome != "any"]
        for t, m, p in items:
            exp = Expect(t, m, self.mode, p, self.validate, self.user)
            if exp.outcome == "ok" or self.q == 2:
                self.todo.append((ref.sentence(t, m, p), exp))
        data = b"".join(ref.sentence(*i) for i in items)
        self.rd = NMEAReader(make_stream(kind, data), msgmode=self.mode, validate=self.validate, quitonerror=self.q,
                             userdefined=gens.lib_table(self.user))

    def step(self):
        try:
            raw, msg = self.rd.read()
            got = "ok"
        except NMEATypeError:
            got = "type"
        except NMEAParseError:
            got = "reject"
        if not self.todo:
            require(got == "ok" and raw is None and msg is None, lambda: f"reader at its end: {got}")
            return None
        wraw, exp = self.todo.pop(0)
        ctx = f"reader mode={self.mode} validate={self.validate} user={self.user} on {wraw!r}"
        require(got == exp.outcome, lambda: f"{got}, expected {exp.outcome}: {ctx}")
        if got == "ok":
            require(raw == wraw, lambda: f"read {raw!r}: {ctx}")
            check_message(msg, exp, None, ctx)
            return msg, exp
        return None


def do_parse(op):
    _, mode, validate, user, t, m, p = op
    exp = Expect(t, m, mode, p, validate, user)
    raw = ref.sentence(t, m, p)
    get_parts(raw)[3].append("x")  # what callers do to their lists is no matter
    get_parts(raw)[3].clear()
    got, msg = outcome_of(lambda: parse(raw, mode, validate, gens.lib_table(user)))
    ctx = f"parse of {raw!r} mode={mode} validate={validate} user={user}"
    if exp.outcome == "any":
        return None
    require(got == exp.outcome, lambda: f"{got}, expected {exp.outcome}: {ctx}")
    if got == "ok":
        check_message(msg, exp, None, ctx)
        return msg, exp
    return None


def observe(m):
    return m.serialize(), str(m), m.identity, m.payload, m.checksum


def check(case):
    readers, ops = case
    rds = [Rd(r) for r in readers]
    kept = []
    for op in ops:
        if op[0] == "read":
            got = rds[op[1]].step()
        elif op[0] == "parse":
            got = do_parse(op)
        else:
            _, t, m, mode, kw, tab, key = op
            msg, _, _ = build(t, m, mode, kw)
            want = [n for n, _ in gens.count_after_groups(ref.G[tab][key], kw)]
            names = [a[0] for a in ref.attrs_of(msg)]
            require(names == want, lambda: f"{msg!r} has attributes {names}, expected {want}")
            kept.append((msg, None, observe(msg)))
            got = None
        if got:
            kept.append((*got, observe(got[0])))
    for r in rds:
        for _ in range(20):
            if not r.todo:
                break
            r.step()
        require(not r.todo, "reader ended early")
    for msg, exp, seen in kept:
        if exp is not None:
            check_message(msg, exp, None, "message looked at again")
        require(observe(msg) == seen, lambda: f"message changed: {observe(msg)}, was {seen}")


def gen_threads(s):
    tables = shared_tables(s)
    out = []
    for _ in range(s.int(2, 6)):
        mode, validate, user, q = settings(s, tables)
        items = [a_sentence(s, mode, validate, user) for _ in range(s.int(2, 12))]
        items = [i for i in items if ref.is_header(i[0])]
        if s.bool():
            out.append(("reader", (mode, validate, user, q, s.choice(["bytesio", "serial", "socket"]), items)))
        else:
            out.append(("parse", [("parse", mode, validate, user) + tuple(i) for i in items]))
    return out


def check_threads(case):
    errs = []
    start = threading.Barrier(len(case))

    def run(spec):
        try:
            start.wait()
            kept = []
            if spec[0] == "reader":
                for _ in range(3):
                    r = Rd(spec[1])
                    while r.todo:
                        got = r.step()
                        if got:
                            kept.append(got)
            else:
                for op in spec[1] * 3:
                    got = do_parse(op)
                    if got:
                        kept.append(got)
            for msg, exp in kept:
                check_message(msg, exp, None, "message looked at again")
        except BaseException as err:  # handed to the main thread
            errs.append(err)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=run, args=(x,)) for x in case]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0]


def twin(s, v):
    """a value that is equal to, or written like, v"""
    if isinstance(v, tuple):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        k = s.int(0, 5)
        if k == 0:
            return ("dec", repr(v))
        if k == 1:
            return ("dec", "%s0" % repr(float(v))) if "e" not in repr(float(v)) else v
        if k == 2 and v in (0, 1):
            return bool(v)
        if k == 3:
            return str(v)
        if isinstance(v, int):
            return float(v) if abs(v) < 1 << 53 else -v
        return int(v) if v == int(v) and v else -v
    k = s.int(0, 3)
    return v.swapcase() if k == 0 else v + " " if k == 1 else v[:-1] if k == 2 else v


def gen_fresh(s):
    """operations, some of them the same but for one detail"""
    tables = shared_tables(s)
    ops = []
    for _ in range(s.int(1, 5)):
        if s.bool():
            mode, validate, user, _ = settings(s, tables)
            t, m, p = a_sentence(s, mode, validate, user)
            op = ["parse", ref.sentence(t, m, p), mode, validate, user]
            if s.bool(0.3):
                op[0] = "read"
                op[1] += b"".join(ref.sentence(*a_sentence(s, mode, validate, user)) for _ in range(s.int(0, 3)))
        else:
            adr = s.choice(gens.BUILDABLE)
            op = ["build", gens.talker_for(s, adr[3]), adr[3], adr[0], gens.kwargs_for(s, adr, 1.0)]
            if s.bool(0.3):
                op[4]["hpnmeamode"] = s.bool()
            for k, v in op[4].items():  # small numbers have more twins
                if type(v) in (int, float) and s.bool(0.3):
                    op[4][k] = type(v)(s.int(0, 2))
        ops.append(tuple(op))
        for _ in range(s.int(1, 3)):
            op = list(op)
            if op[0] != "build":
                k = s.int(0, 6)
                raw = op[1]
                if k == 0:
                    op[2] = s.int(0, 2)
                elif k == 1:
                    op[3] = s.int(0, 3)
                elif k == 2:
                    op[4] = s.choice(tables + [None])
                elif k == 3:
                    if op[0] == "read" or s.bool():
                        op[0] = "parse" if op[0] == "read" else "read"
                    else:
                        op[0], op[1] = "parse", raw if isinstance(raw, str) else raw.decode("utf-8")
                    if op[0] == "read" and isinstance(op[1], str):
                        op[1] = op[1].encode("utf-8")
                elif k == 4:
                    op[1] = raw[:-4] + raw[-4:].swapcase()
                elif isinstance(raw, bytes):  # a sentence much like it
                    con = raw.split(b"\n")[0][1:-4].decode("utf-8")
                    i = s.uint(0, len(con))
                    con = con[:i] + s.choice(["", ",", "0", "1", ".", " ", "a", "N", con[i:i + 1].swapcase()]) \
                        + con[i + s.choice([0, 1]):]
                    op[1] = b"$%s*%s\r\n" % (con.encode("utf-8"), ref.checksum(con).encode())
            else:
                op[4] = dict(op[4])
                names = [k for k in op[4] if k != "hpnmeamode"]
                for k in names if s.bool() else [s.choice(names)] if names else []:
                    op[4][k] = twin(s, op[4][k])
                if s.bool(0.1):
                    op[4]["hpnmeamode"] = not op[4].get("hpnmeamode")
                if s.bool(0.1):
                    op[3] = s.int(0, 2)
                if s.bool(0.1):
                    op[1] = s.choice(["GN", "GP", "P", "gn"])
            ops.append(tuple(op))
    return s.shuffle(ops) if s.bool() else ops


def check_fresh(ops):
    """each operation gives the same here, after all that was done before, and in a new process, in reverse order"""
    def conv(v):
        return Decimal(v[1]) if isinstance(v, tuple) and v[0] == "dec" else gens.lib_value(v)

    real = [op[:4] + (gens.lib_table(op[4]) if op[0] != "build" else {k: conv(v) for k, v in op[4].items()},)
            for op in ops]
    here = fresh.perform_all(real)
    there = fresh.ask(real[::-1])
    require(there is not None, lambda: f"a new process dies of {ops[::-1]!r}")
    for op, a, b in zip(ops, here, there[::-1]):
        if op[0] == "build" and isinstance(a, tuple) and isinstance(b, tuple) \
                and any(typ in ("time", "date", "datetime") and n not in op[4] for n, typ, _ in a[-1]):
            a, b = [x[0] for x in a[-1]], [x[0] for x in b[-1]]  # has the current time
        require(a == b, lambda: f"{op!r} among {ops!r} gives {a!r}, in a new process and reverse order {b!r}")


def nontriv(c):
    return len({repr(r[:4]) for r in c[0]}) > 1


SUBS = [
    Sub("history", gen, check, quick=14000, nontrivial=nontriv, hyp=0.02),
    Sub("fresh", gen_fresh, check_fresh, quick=6000, thorough=300000, hyp=0, nontrivial=lambda c: len(c) > 2),
    Sub("threads", gen_threads, check_threads, quick=1600, thorough=30000, hyp=0),
]
