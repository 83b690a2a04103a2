"""C11 error policy."""
import logging

import gens
import ref
from common import *
from engine import Sub

RULE = ("sequences of 1..10 good sentences and faults (wrong checksum, number field that is not a number, unknown "
        "message/talker, no delimiter, not UTF-8, foreign $ header, truncated end), of published and user-defined types x quitonerror 0/1/2 x handler/logger x "
        "nmeaonly x validate x stream kind, also in runs of thousands; oracle: list model; non-trivial: at least one fault and one good sentence")

TYPEBAD = [("GN", "GGA", ["120000", "5130.0", "N", "00000.0", "W", "1", "x8"]), ("GN", "GSV", ["a"]),
           ("P", "UBX", ["03", "2x"]), ("GN", "VTG", ["1.1.1"])]


def gen(s):
    mode = s.choice([0, 0, 0, 1, 2])
    validate = s.choice([1, 0, 3, 2])
    nmeaonly = s.bool(0.4)
    items = []
    user = {"ZQW": [["a", "IN"], ["b", "ST"], ["c", "DE"]]} if s.bool(0.15) else None
    n = s.int(1, 10)
    for i in range(n):
        k = s.int(0, 15)
        if k <= 7:
            t, m, p = gens.ok_sentence(s, mode, validate)
            items.append(("ok", ref.sentence(t, m, p), (t, m, p)))
        elif k == 8:
            t, m, p = gens.ok_sentence(s, mode, validate)
            ck = "%02X" % (int(ref.checksum(ref.content(t, m, p)), 16) ^ s.int(1, 255))
            raw = ref.sentence(t, m, p, cksum=ck)
            items.append(("parse", raw, None) if validate & 1 else ("okck", raw, (t, m, p)))
        elif k == 9:
            t, m, p = s.choice(TYPEBAD)
            if user is not None:
                t, m, p = s.choice(["GN", "P"]), "ZQW", s.choice([["1", "x", "1.5"], ["x"], ["", "", "1,5"[:1] + "e"], ["1.5", "x"], ["2"]])
            raw = ref.sentence(t, m, p)
            out = Expect(t, m, mode, p, validate, user).outcome
            items.append(({"ok": "ok", "type": "type", "reject": "parse"}[out], raw, (t, m, p)))
        elif k == 10:
            t, m, p = gens.unknown_sentence(s)
            t = t if ref.is_header(t) else "GX"
            items.append(("parse" if validate & 2 else "ok", ref.sentence(t, m, p), (t, m, p)))
        elif k == 11:
            items.append(("parse" if validate & 2 else "none",
                          s.choice([b"$GNGLL,no delimiter\r\n", b"$P\r\n", b"$GPGGA\n", b"$G\n"]), None))
        elif k == 12:
            items.append(("parse" if validate & 2 else "none", b"$GPTXT,01,\xff\xfe,\xc3*%02X\r\n" % s.uint(0, 255), None))
        elif k == 13 and s.bool() and i == n - 1:
            t, m, p = gens.ok_sentence(s, mode, validate)
            items.append(("stream", ref.sentence(t, m, p)[:-1], None))
        else:
            b = s.choice([b"$\xb5", b"$1", b"$ ", b"$\n", b"$g", b"$\x00", b"$*"])
            items.append(("parse", b, None) if nmeaonly else ("skip", b, None))
    if s.bool(0.3) and len(items) > 1:  # the same again, at once or later
        i = s.int(0, len(items) - 2)
        if items[i][0] != "stream":
            items.insert(i + 1 if s.bool(0.7) else s.int(0, len(items) - 2), items[i])
    kind = s.choice(STREAMS)
    data = b"".join(x[1] for x in items)
    segs = segments(s, data) if kind == "socket" else None
    return items, mode, validate, nmeaonly, s.choice([0, 1, 2]), s.choice([0, 0, 1, 2]), kind, segs, s.bool(), user


EXC = {"parse": NMEAParseError, "type": NMEATypeError, "stream": NMEAStreamError}


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def check(case):
    items, mode, validate, nmeaonly, quit_, handler, kind, segs, iterate, user = case if len(case) == 10 else case + (None,)
    data = b"".join(x[1] for x in items)
    run(items, mode, validate, nmeaonly, quit_, handler, make_stream(kind, data, segs), 0, iterate, user)


def gen_resume(s):
    """streams that break off, within a sentence or between two, and go on later"""
    items, mode, validate, nmeaonly, quit_, handler, kind, _, iterate, user = gen(s)
    items = [i for i in items if i[0] != "stream"]
    parts = [[]]
    for i in items:
        parts[-1].append(i)
        if s.bool(0.4):
            if s.bool(0.7):
                raw = ref.sentence(*gens.ok_sentence(s, mode, validate))
                parts[-1].append(("stream", raw[:s.int(3, len(raw) - 1)], None))
            parts.append([])
    return parts, mode, validate, nmeaonly, quit_, handler, kind, s.choice(["timeout", "oserror"]), iterate, user


def check_resume(case):
    from props import c10

    parts, mode, validate, nmeaonly, quit_, handler, kind, fault, iterate, user = case
    datas = [b"".join(x[1] for x in p) for p in parts]
    if kind == "socket":
        stream, more = FakeSocket([e for d in datas for e in (([d] if d else []) + [fault])]), None
    else:
        grow = c10.Growing(datas, kind)
        stream, more = grow.stream, grow.more
    run([i for p in parts for i in p], mode, validate, nmeaonly, quit_, handler, stream, 2 * len(parts), iterate, user, more)


def run(items, mode, validate, nmeaonly, quit_, handler, stream, pauses, iterate, user, more=None):
    data = b"".join(x[1] for x in items)
    calls = []
    kw = {} if user is None else {"userdefined": gens.lib_table(user)}
    kw |= {"errorhandler": (calls.append, lambda err: calls.append(err))[handler - 1]} if handler else {}
    cap = Capture()
    log = logging.getLogger("pynmeagps")
    prop = log.propagate
    logging.disable(logging.NOTSET)
    log.addHandler(cap)
    log.propagate = False
    try:
        rd = NMEAReader(stream, msgmode=mode, validate=validate, nmeaonly=nmeaonly,
                        quitonerror=quit_, **kw)
        events = []
        for _ in range(len(items) + 2 + pauses):
            try:
                raw, msg = next(rd, (None, None)) if iterate else rd.read()
            except DOCUMENTED as err:
                events.append(("raised", err))
                continue
            if raw is None and msg is None:
                if pauses:
                    pauses -= 1
                    if more:
                        more()
                    continue
                events.append(("end", None))
                break
            events.append(("got", raw, msg))
    finally:
        log.removeHandler(cap)
        log.propagate = prop
        logging.disable(logging.CRITICAL)
    ctx = f"stream {data[:1500]!r} mode={mode} validate={validate} nmeaonly={nmeaonly} quitonerror={quit_}"
    bad = [i[0] for i in items if i[0] in EXC]
    want = [i for i in items if i[0] in ("ok", "okck", "none") or quit_ == 2 and i[0] in EXC]
    require(events and events[-1][0] == "end", lambda: f"no end of stream: {ctx}")
    events.pop()
    require(len(events) == len(want), lambda: f"{len(events)} results, expected {len(want)}: "
                                              f"{[e[:2] for e in events]}; {ctx}")
    for k, (ev, it) in enumerate(zip(events, want)):
        if it[0] in EXC:
            require(ev[0] == "raised" and type(ev[1]) is EXC[it[0]],
                    lambda: f"result {k + 1} is {ev[:2]!r}, expected {EXC[it[0]].__name__} for {it[1]!r}; {ctx}")
            continue
        require(ev[0] == "got", lambda: f"result {k + 1} is {ev!r}, expected sentence {it[1]!r}; {ctx}")
        require(ev[1] == it[1], lambda: f"result {k + 1} has bytes {ev[1]!r}, expected {it[1]!r}; {ctx}")
        if it[0] == "none":
            require(ev[2] is None, lambda: f"malformed {it[1]!r} gave {ev[2]}; {ctx}")
        else:
            check_message(ev[2], Expect(*it[2][:2], mode, it[2][2], validate, user), None, ctx)
    reported = bad if quit_ == 1 else []
    require([type(c) for c in calls] == ([EXC[b] for b in reported] if handler else []),
            lambda: f"error handler got {calls!r}, expected {reported}; {ctx}")
    logged = [r for r in cap.records if r.levelno >= logging.ERROR]
    nlog = 0 if handler else len(reported)
    require(len(logged) == nlog, lambda: f"{len(logged)} errors logged, expected {nlog}; {ctx}")


def nontriv(c):
    kinds = [i[0] for i in c[0]]
    return "ok" in kinds and any(k in EXC for k in kinds)


def gen_many(s):
    """long runs of bad sentences and foreign data"""
    items, mode, validate, nmeaonly, quit_, handler, kind, segs, iterate, user = gen(s)
    items = [i for i in items if i[0] != "stream"] or [("skip", b"!", None)]
    n = s.choice([30, 100, 400, 1200, s.int(1, 6000)]) // len(items) + 1
    n = min(n, 300000 // max(1, sum(len(x[1]) for x in items)))
    if s.bool(0.7):  # run by run
        items = [i for i in items for _ in range(n)]
    else:
        items = items * n
    data = b"".join(x[1] for x in items)
    return items, mode, validate, nmeaonly, quit_, handler, kind, segments(s, data) if kind == "socket" else None, iterate, user


SUBS = [
    Sub("policy", gen, check, quick=25000, nontrivial=nontriv, hyp=0.04,
        classify=lambda c: [f"quit{c[4]}", "handler" if c[5] else "logger", "nmeaonly" if c[3] else "mixed"]),
    Sub("resume", gen_resume, check_resume, quick=10000, hyp=0.03,
        nontrivial=lambda c: any(i[0] == "stream" for p in c[0] for i in p)),
    Sub("many", gen_many, check, quick=80, thorough=6000, nontrivial=nontriv, weight=20),
]
