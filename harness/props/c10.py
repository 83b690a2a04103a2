"""C10 the reader returns every sentence once, in order, exactly."""
import gens
import ref
from common import *
from engine import Sub

RULE = ("streams of 0..12 valid sentences (any type of the reader's mode, CRLF or LF) interleaved with foreign data "
        "(binary, UBX/RTCM like, stray $, line ends, text), optionally truncated, over files, serial-like streams and "
        "segmented sockets, by read or iteration; non-trivial: at least one sentence and some foreign data or >1 sentence")


def gen(s):
    mode = s.choice([0, 0, 0, 1, 2])
    validate = s.choice([1, 1, 0, 3])
    user = gens.user_table(s) if s.bool(0.1) else None
    items = []
    for _ in range(s.int(0, 12)):
        if s.bool(0.35):
            items.append(gens.junk(s))
        else:
            t, m, p = gens.ok_sentence(s, mode, validate, user)
            if s.bool(0.03):  # a long sentence
                m, p = "TXT" if mode == 0 else "ZZZ", ["01", "01", "02", "".join(gens.text(s) for _ in range(4)) + "x" * s.int(0, 9000)]
                t = "GN"
                if mode and validate & 2:
                    continue
            items.append((t, m, p, s.weighted((5, "\r\n"), (1, "\n"))))
    if s.bool(0.2) and items:  # the same again, at once or later
        i = s.int(0, len(items) - 1)
        items.insert(i + 1 if s.bool(0.7) else s.int(0, len(items)), items[i])
    # foreign data must not contain or complete the start of a sentence
    fixed = []
    for it in items:
        if isinstance(it, bytes):
            if fixed and isinstance(fixed[-1], bytes):
                fixed[-1] = gens.clean(fixed[-1] + it)
            else:
                fixed.append(gens.clean(it))
        else:
            fixed.append(it)
    kind = s.choice(STREAMS)
    data = stream_of(fixed)
    cut = s.uint(0, len(data)) if s.bool(0.3) else len(data)
    segs = segments(s, data[:cut]) if kind == "socket" else None
    return fixed, mode, validate, user, kind, cut, segs, s.choice([4096, 1, 7, 64]), s.bool()


def stream_of(items):
    return b"".join(i if isinstance(i, bytes) else ref.sentence(i[0], i[1], i[2], i[3]) for i in items)


def check(case):
    items, mode, validate, user, kind, cut, segs, bufsize, iterate = case
    data = stream_of(items)[:cut]
    want, pos = [], 0
    for it in items:
        raw = it if isinstance(it, bytes) else ref.sentence(*it)
        pos += len(raw)
        if not isinstance(it, bytes) and pos <= cut:
            want.append((raw, Expect(it[0], it[1], mode, it[2], validate, user), pos))
    shown = repr(data[:1000])
    stream = make_stream(kind, data, segs)

    def taken(k):
        """the k-th sentence was returned: nothing after it is taken, so that others can read on"""
        if kind != "socket" and k < len(want):
            at = stream.pos if kind == "serial" else stream.tell()
            require(at == want[k][2], lambda: f"{at} bytes taken when the sentence that ends at {want[k][2]} is returned, stream {shown}")

    rd = NMEAReader(stream, msgmode=mode, validate=validate, quitonerror=0, bufsize=bufsize,
                    userdefined=gens.lib_table(user))
    got = []
    if iterate:
        for pair in rd:
            taken(len(got))
            got.append(pair)
            if len(got) > len(want):
                break
    else:
        while len(got) <= len(want):
            raw, msg = rd.read()
            if raw is None and msg is None:
                break
            taken(len(got))
            got.append((raw, msg))
    for k, ((graw, gmsg), (wraw, exp, _)) in enumerate(zip(got, want)):
        require(graw == wraw, lambda: f"sentence {k + 1} read as {graw!r}, sent {wraw!r}, stream {shown}")
        check_message(gmsg, exp, None, f"sentence {k + 1} of {shown}")
    require(len(got) == len(want), lambda: f"{len(got)} sentences read of {len(want)} sent, stream {shown}: "
                                           f"{[g[0] for g in got][:6]}")
    for _ in range(2):
        end = rd.read()
        require(end == (None, None), lambda: f"read {end!r} after the end of {shown}")


def nontriv(c):
    n = sum(not isinstance(i, bytes) for i in c[0])
    return n > 1 or n == 1 and len(c[0]) > 1


def concat_gen(s):
    a, b = gen(s), gen(s)
    return a, b


def concat_check(case):
    """reading a concatenation = reading one part, then the other (first part ends with a line end)"""
    a, b = case
    da = stream_of(a[0] if a[0] and not isinstance(a[0][-1], bytes) else a[0][:-1])
    db = stream_of(b[0])

    def read_all(data):
        rd = NMEAReader(make_stream("bytesio", data), msgmode=a[1], validate=1, quitonerror=0)
        return [(r, m) for r, m in rd]

    one, two, both = read_all(da), read_all(db), read_all(da + db)
    require([x[0] for x in both] == [x[0] for x in one + two],
            lambda: f"{da!r} + {db!r}: read {[x[0] for x in both]!r}, separately {[x[0] for x in one + two]!r}")
    for (r, x), (_, y) in zip(both, one + two):
        d = "one is None" if (x is None) != (y is None) else None if x is None else same_message(x, y)
        require(d is None, lambda: f"{r!r} read differently after {da!r}: {d}")


def iter_gen(s):
    """any mixture of good, malformed and rejected sentences"""
    from props import c11

    items, mode, validate, nmeaonly, quit_, handler, kind, segs, *_ = c11.gen(s)
    return [x[1] for x in items], mode, validate, s.choice([0, 1]), kind, segs


def iter_check(case):
    """iteration and repeated read calls give the same sequence"""
    parts, mode, validate, quit_, kind, segs = case
    data = b"".join(parts)
    rd, it = (NMEAReader(make_stream(kind, data, segs), msgmode=mode, validate=validate, quitonerror=quit_)
              for _ in range(2))
    one = []
    while len(one) <= len(data):
        pair = rd.read()
        if pair == (None, None):
            break
        one.append(pair)
    two = list(it)
    require([x[0] for x in one] == [x[0] for x in two],
            lambda: f"read gives {[x[0] for x in one]!r}, iteration {[x[0] for x in two]!r}, stream {data!r}")
    for (r, x), (_, y) in zip(one, two):
        d = "one is None" if (x is None) != (y is None) else None if x is None else same_message(x, y)
        require(d is None, lambda: f"{r!r} read and iterated differently: {d}")


def gen_slices(s):
    """sentences and foreign data with bytes changed, removed, added or repeated anywhere"""
    items, mode, validate, user, kind, cut, _, bufsize, _ = gen(s)
    data = stream_of(items)
    for _ in range(s.int(0, 6)):
        i = s.uint(0, len(data))
        new = s.choice([b"", b"\r", b"\n", b"$", b"$G", b"*", b",", b" ", b"\x00", b"\xff", b"$GNGLL,,,,,,V,N*7A\r\n", bytes([s.uint(0, 255)])])
        data = data[:i] + new + data[i + s.choice([0, 0, 1, 2]):]
    return data, mode, validate, user, kind, segments(s, data) if kind == "socket" else None, bufsize


def check_slices(case):
    """whatever the stream is, what is read are successive pieces of it, from a $ to an LF, parsed like any other"""
    data, mode, validate, user, kind, segs, bufsize = case
    table = gens.lib_table(user)
    pos = 0
    for raw, msg in NMEAReader(make_stream(kind, data, segs), msgmode=mode, validate=validate, quitonerror=0,
                               bufsize=bufsize, userdefined=table):
        require(isinstance(raw, bytes) and raw[:1] == b"$" and raw.find(b"\n") == len(raw) - 1, lambda: f"{raw!r} read from {data!r}")
        at = data.find(raw, pos)
        require(at >= 0, lambda: f"{raw!r} read is not in {data[pos:]!r}")
        pos = at + len(raw)
        other = parse(raw, mode, validate, table)
        require((msg is None) == (other is None), lambda: f"{raw!r} read as {msg!r}, parsed as {other!r}")
        if msg is not None:
            d = same_message(msg, other)
            require(d is None, lambda: f"{raw!r} read and parsed differ: {d}")


class Growing:
    """a stream whose data come part by part"""

    def __init__(self, parts, kind):
        import io

        self.parts, self.f = list(parts), io.BytesIO()
        self.stream = {"bytesio": lambda: self.f, "buffered": lambda: io.BufferedReader(self.f, buffer_size=8),
                       "serial": lambda: self}[kind]()
        self.read, self.readline = self.f.read, self.f.readline
        self.more()

    def more(self):
        if self.parts:
            pos = self.f.tell()
            self.f.seek(0, 2)
            self.f.write(self.parts.pop(0))
            self.f.seek(pos)


def gen_pauses(s):
    """streams that have nothing to read for a while, between sentences"""
    items, mode, validate, user, kind, _, _, bufsize, _ = gen(s)
    parts = []
    for i in items:
        if not parts or s.bool(0.4):
            parts.append([])
            while s.bool(0.2):
                parts.append([])
        parts[-1].append(i)
    return parts, mode, validate, user, kind, bufsize, s.choice([0, 1, 2]), s.bool(), s.choice(["timeout", "oserror"])


def check_pauses(case):
    """reading is resumed when there is more to read"""
    parts, mode, validate, user, kind, bufsize, quit_, handler, fault = case
    datas = [stream_of(p) for p in parts]
    want, due = [], []
    for p in parts:
        want += [(ref.sentence(*i), Expect(i[0], i[1], mode, i[2], validate, user)) for i in p if not isinstance(i, bytes)]
        due.append(len(want))
    shown = repr(datas)[:1500]
    grow = None
    if kind == "socket":
        stream = FakeSocket([e for d in datas for e in (([d] if d else []) + [fault])])
    else:
        grow = Growing(datas, kind)
        stream = grow.stream
    errs = []
    kw = {"errorhandler": errs.append} if handler else {}
    rd = NMEAReader(stream, msgmode=mode, validate=validate, quitonerror=quit_, bufsize=bufsize,
                    userdefined=gens.lib_table(user), **kw)
    got, nones = [], 0
    while nones < len(parts) + 2 and len(got) <= len(want):
        raw, msg = rd.read()
        if raw is not None or msg is not None:
            got.append((raw, msg))
            continue
        if grow is not None:
            n = due[min(nones, len(due) - 1)] if due else 0
            require(len(got) == n, lambda: f"{len(got)} sentences read of the {n} first of {shown}")
            grow.more()
        nones += 1
    require([g[0] for g in got] == [w[0] for w in want],
            lambda: f"read {[g[0] for g in got]!r} of {kind} {shown}, pausing between the parts")
    for (graw, gmsg), (_, exp) in zip(got, want):
        check_message(gmsg, exp, None, f"{graw!r} of {shown}")
    require(not errs, lambda: f"errors {errs!r} reported of {shown}")


def gen_many(s):
    """a long stream of short sentences"""
    c = list(gen(s))
    n = s.choice([100, 300, 700, s.int(1, 5000)])
    it = [i for i in c[0] if not isinstance(i, bytes)] or [("GN", "TXT", ["01", "01", "02", "x"], "\r\n")]
    n = min(n, 400000 // max(1, len(stream_of(it)) // len(it)))
    c[0] = [x for k in range(n) for x in [it[k % len(it)]]]
    if c[1] or c[2] & 2 or c[3]:
        c[0] = [("GN", "ZZZ", [str(k), "a"], "\r\n") for k in range(n)]
        c[1], c[2], c[3] = 0, 1, None
    data = stream_of(c[0])
    c[5] = len(data)
    if c[4] == "socket":
        c[6] = segments(s, data)
    return tuple(c)


def every_cut():
    """one stream, cut after every byte, each stream kind"""
    it = [b"\x00$", ("GN", "GLL", ["5130.12", "N", "00010.5", "W", "120000.00", "A", "A"], "\r\n"), b"\xb5b\x01\x07$1",
          ("P", "UBX", ["00", "120000.00"], "\n"), b"\r\n", ("XX"[:0] + "GP", "ZZZ", ["a", ""], "\r\n"), b"$$"]
    n = len(stream_of(it))
    return [(it, 0, 1, None, k, c, None, 16, bool(c % 2)) for k in STREAMS for c in range(n + 1)]


SUBS = [
    Sub("stream", gen, check, quick=16000, nontrivial=nontriv, hyp=0.04,
        classify=lambda c: [c[4], "truncated" if c[5] < len(stream_of(c[0])) else "whole"]),
    Sub("concat", concat_gen, concat_check, quick=3000, nontrivial=lambda c: nontriv(c[0]), hyp=0.03),
    Sub("iterate", iter_gen, iter_check, quick=5000, nontrivial=lambda c: len(c[0]) > 1, hyp=0.03),
    Sub("slices", gen_slices, check_slices, quick=8000, hyp=0.03, nontrivial=lambda c: b"$" in c[0]),
    Sub("pauses", gen_pauses, check_pauses, quick=6000, hyp=0.03, nontrivial=lambda c: len(c[0]) > 1),
    Sub("many", gen_many, check, quick=48, nontrivial=nontriv, weight=20),
    Sub("cuts", enum=every_cut, check=check),
    Sub("regress", enum=lambda: [
        ([b"$", ("GN", "GLL", [], "\r\n")], 0, 1, None, "bytesio", 999, None, 16, True),
        ([b"$$$", ("P", "GRME", ["1"], "\r\n"), b"$"], 0, 1, None, "serial", 999, None, 16, True),
        ([("GN", "GLL", [""], "\n"), ("GN", "GLL", ["a"[:0]], "\n")], 0, 1, None, "socket", 999, None, 16, True)],
        check=check),
]
