"""C12 documented exceptions only, bounded work, termination."""
import gc
import socket as _socket
import time
import tracemalloc

import gens
import ref
from common import *
from engine import Sub

RULE = ("mutated (truncated, spliced, byte/char edits, huge numbers, control and non-ASCII text, checksum usually "
        "corrected afterwards) and random sentences, parsed as bytes/str and from payload lists, and random/mutated "
        "streams read to the end; thorough tier adds coverage guided fuzzing (atheris) of the same oracle; non-trivial: "
        "the input got past sentence splitting (parse) / contained a start of a sentence (streams)")

NASTY = ["", "0", "-1", "9" * 30, "1e999", "nan", "inf", "-", "+", ".", "1_0", " 1", "0x1f", "\x00", "\u0661", "\u00b2",
         "\ufeff", "\u2028", "\U0001f600", "A" * 300, "9" * 5000, "5130.0", "000.", ".5130", "120000", "999999.99",
         "OK", "ERROR", "None", "[", "]", "%s", "{}", "__class__", "03", "00", "1" * 18]
IDS = sorted(set(list(ref.G["MSGIDS"]) + list(ref.G["MSGIDS_PROP"]) + ref.PREFIX))
CHARS = "0123456789.,-+*$ABCPGNU\r\n \x00\x7f\u00e9\u0660\u20ac\U0001f600abcxyz_%{}[]"


def mutated(s):
    """(text without $ and checksum, corrected?)"""
    mode = s.choice(ref.MODES)
    if s.bool(0.25):
        t = s.choice(["P", "GN", "", "G", "PP", "$", "\u00e9"])
        p = [s.choice(NASTY) for _ in range(s.int(0, 6))]
        m = s.choice([s.choice(IDS), s.choice(ref.PREFIX), s.choice(IDS).lower(), "", "X"])
    else:
        t, m, mode, p = gens.def_sentence(s, pbad=0.2, okbad=False, miscount=0.3)
        for _ in range(s.int(0, 3)):
            if p:
                i = s.uint(0, len(p) - 1)
                p[i] = s.choice(NASTY)
    c = ref.content(t, m, p)
    for _ in range(s.weighted((5, 0), (3, 1), (1, 4))):
        if not c:
            break
        i = s.uint(0, len(c) - 1)
        k = s.int(0, 4)
        if k == 0:
            c = c[:i]
        elif k == 1:
            c = c[:i] + s.choice(CHARS) + c[i + 1:]
        elif k == 2:
            c = c[:i] + s.choice(CHARS) + c[i:]
        elif k == 3:
            c = c[:i] + c[s.uint(i, len(c) - 1):]
        else:
            c = c + c[i:]
    return c, mode


def sentence_of(s):
    c, mode = mutated(s)
    k = s.int(0, 9)
    ck = "*" + ref.checksum(c)
    if k == 8:
        ck = s.choice(["", "*", "*0", "*ZZ", "*\u00e9", "*" + "0" * 50])
    if "*" in c and k < 8:
        ck = "*" + ref.checksum(c.split("*", 1)[0])
    raw = s.choice(["$", "$", "$", "", "$$"]) + c + ck + s.choice(["\r\n", "\n", "", "\r\n\r\n"])
    if k == 9:
        b = raw.encode()
        i = s.uint(0, len(b))
        return b[:i] + s.bytes(0, 4) + b[i + s.int(0, 2):], mode
    return (raw if s.bool(0.3) else raw.encode()), mode


def gen_parse(s):
    raw, mode = sentence_of(s)
    if s.bool(0.05):
        raw = s.bytes(0, 40)
    user = gens.user_table(s) if s.bool(0.1) else None
    return raw, mode, s.choice([0, 1, 2, 3]), user


def budget(n):
    return 3.0 + n * 0.02


def check_parse_any(case):
    raw, mode, validate, user = case
    t0 = time.process_time()
    try:
        msg = parse(raw, mode, validate, gens.lib_table(user))
    except (NMEAParseError, NMEAMessageError, NMEATypeError):
        msg = None
    if msg is not None:
        require(isinstance(msg, NMEAMessage), lambda: f"{raw!r} gave {msg!r}")
        str(msg), repr(msg), msg.identity, msg.talker, msg.msgID, msg.payload, msg.checksum, msg.msgmode
        out = msg.serialize()
        require(isinstance(out, bytes), lambda: f"{raw!r} serialized {out!r}")
        n = len(ref.attrs_of(msg))
        require(n <= len(raw) + 1, lambda: f"{raw!r}: {n} attributes from {len(raw)} characters")
    used = time.process_time() - t0
    require(used < budget(len(raw)), lambda: f"{len(raw)} characters took {used:.1f} s of CPU")


def gen_ctor(s):
    """payload lists passed to the constructor"""
    m = s.choice([s.choice(IDS), s.choice(ref.PREFIX), "XYZ", "", "gga"])
    p = [s.choice([s.choice(NASTY), gens.text(s, 0, 6), gens.integer(s)]) for _ in range(s.int(0, 10))]
    if m in ref.PREFIX and s.bool(0.7):
        subs = [a[4] for a in ref.ADDRESSES if a[3] == m and a[4]]
        p[:1] = [s.choice(subs)]
    return s.choice(["P", "GN", "XX", ""]), m, s.choice([0, 1, 2, 3, -1]), p, s.choice([0, 1, 2, 3])


def check_ctor(case):
    t, m, mode, p, validate = case
    t0 = time.process_time()
    try:
        msg = NMEAMessage(t, m, mode, payload=p, validate=validate)
        str(msg), repr(msg), msg.serialize(), msg.identity
        require(mode in (0, 1, 2), lambda: f"mode {mode} accepted")
        require(msg.payload == p, lambda: f"payload {msg.payload!r}")
    except (NMEAMessageError, NMEATypeError):
        pass
    used = time.process_time() - t0
    require(used < budget(sum(map(len, p))), lambda: f"took {used:.1f} s of CPU")


def gen_stream(s):
    parts = []
    for _ in range(s.int(0, 8)):
        k = s.int(0, 3)
        if k <= 1:
            raw = sentence_of(s)[0]
            parts.append(raw if isinstance(raw, bytes) else raw.encode())
        elif k == 2:
            parts.append(gens.junk(s))
        else:
            parts.append(s.choice([b"$G", b"$P", b"$GN", b"$", b"\n", b"$G$G", b"$P\n", b"$PUBX*\n"]))
    data = b"".join(parts)
    kind = s.choice(STREAMS)
    segs = None
    if kind == "socket":
        segs = segments(s, data)
        if s.bool(0.3) and segs:
            segs.insert(s.uint(0, len(segs)), s.choice(["timeout", "oserror", "reset"]))
    return data, s.choice(ref.MODES), s.choice([0, 1, 2, 3]), s.bool(0.3), s.choice([0, 1, 0, 1, 2]), kind, segs


def check_stream(case):
    data, mode, validate, nmeaonly, quit_, kind, segs = case
    t0 = time.process_time()
    rd = NMEAReader(make_stream(kind, data, segs), msgmode=mode, validate=validate, nmeaonly=nmeaonly, quitonerror=quit_)
    limit = data.count(b"$") + 3 + (0 if not segs else sum(isinstance(x, str) for x in segs))
    ends = 0
    for _ in range(2 * limit + 4):
        try:
            raw, msg = rd.read()
        except DOCUMENTED as err:
            require(quit_ == 2, lambda: f"{type(err).__name__}: {err} raised with quitonerror={quit_}: {data!r}")
            continue
        if raw is None and msg is None:
            ends += 1
            if ends > limit + 1 or kind != "socket":
                break
            continue
        require(isinstance(raw, bytes) and (msg is None or isinstance(msg, NMEAMessage)), lambda: f"read {(raw, msg)!r}")
        require(raw in data and raw[:1] == b"$" and raw[-1:] == b"\n" or kind == "socket",
                lambda: f"read {raw!r}, not a line of {data!r}")
    require(ends > 0, lambda: f"end of stream not reached: {data!r}")
    used = time.process_time() - t0
    require(used < budget(len(data)), lambda: f"{len(data)} bytes took {used:.1f} s of CPU")


def gen_chunked(s):
    """chunked and compressed streams with damaged sizes, terminators and contents"""
    from props import c14

    enc = s.uint(0, 15) if s.bool(0.3) else 1 | s.choice([0, 0, 2, 4, 8])
    wire = b""
    for _ in range(s.int(0, 6)):
        raw = s.choice([sentence_of(s)[0], gens.junk(s)])
        body = c14.compress(raw if isinstance(raw, bytes) else raw.encode(), enc)
        if s.bool(0.15):
            body = mangle(s, body)
        n = len(body)
        size = s.weighted((12, b"%x" % n), (1, b"%d" % n), (1, b"%X;x=y" % n), (1, b"-%x" % n), (1, b"%x" % max(0, n - 1)),
                          (1, b"%x" % (n + 1)), (1, b""), (1, b"f" * s.int(8, 40)), (1, b"-" + b"f" * s.int(8, 40)), (1, b"g"),
                          (1, b"0"), (1, b"0x%x" % n), (1, b"\xff"), (1, b"\x00"), (1, b" %x " % n), (1, s.bytes(0, 6)))
        wire += size + s.weighted((12, b"\r\n"), (1, b"\n"), (1, b""), (1, b"\r")) + body + s.weighted(
            (12, b"\r\n"), (1, b"\n"), (1, b""), (1, b"\r\n\r\n"), (1, s.bytes(0, 4)))
    wire += s.choice([b"", b"0\r\n\r\n", b"0\r\n", b"0", b"0\r\nX: y\r\n\r\n"])
    segs = segments(s, wire)
    if s.bool(0.3) and segs:
        segs.insert(s.uint(0, len(segs)), s.choice(["timeout", "oserror", "reset"]))
    return segs, enc, s.choice([4096, 64, 7, 1]), s.choice([0, 1, 2])


def mangle(s, b):
    if not b:
        return b
    i = s.uint(0, len(b) - 1)
    return s.choice([b[:i], b[i:], b[:i] + s.bytes(1, 1) + b[i + 1:], b[:i] + b[i + 1:], b + b, b[:i] + b[i:] * 2])


def check_chunked(case):
    segs, enc, bufsize, quit_ = case
    size = sum(len(x) for x in segs if isinstance(x, bytes))
    t0 = time.process_time()
    rd = NMEAReader(FakeSocket(segs), encoding=enc, bufsize=bufsize, quitonerror=quit_)
    ends = 0
    for _ in range(8 * size + 20):
        try:
            raw, msg = rd.read()
        except DOCUMENTED as err:
            require(quit_ == 2, lambda: f"{type(err).__name__}: {err} raised with quitonerror={quit_}: {segs!r}")
            continue
        if raw is None and msg is None:
            ends += 1
            if ends > 2:
                break
            continue
        require(isinstance(raw, bytes) and (msg is None or isinstance(msg, NMEAMessage)), lambda: f"read {(raw, msg)!r}")
    require(ends > 0, lambda: f"end of stream not reached: {segs!r}")
    used = time.process_time() - t0
    require(used < budget(8 * size), lambda: f"{size} bytes took {used:.1f} s of CPU")


def regress():
    out = []
    for t, m in [("P", x) for x in ref.PREFIX] + [("P", "QTMSN"), ("P", "STMDRSENMSG"), ("GN", "GSV"), ("GN", "ALC"), ("", ""),
                                                  ("P", "")]:
        for p in ([], [""], ["A"], ["1"], ["A1"], ["03", "9" * 20], ["03", "-1"], ["03", "1"], ["OK"], ["ERROR", "1"]):
            for mode in ref.MODES:
                for v in (0, 1, 2, 3):
                    out.append((ref.sentence(t, m, p), mode, v, None))
    for raw in (b"", b"$", b"*", b"$*", b"$*\r\n", b"\n", b"$G*47\r\n", b"$GN*09\r\n", b"\xff*", "", "*00", "$,*2C", b"$**"):
        for v in (0, 1, 2, 3):
            out.append((raw, 0, v, None))
    return out


def split_ok(c):
    return (b"*" if isinstance(c[0], bytes) else "*") in c[0]


# --------------------------------------------------------------- work grows with the input, not faster
def shape(name, n):
    """an input of about n characters, as something to run"""
    def parsing(t, m, p, mode=0, user=None):
        raw = ref.sentence(t, m, p)
        return lambda: parse(raw, mode, 1, gens.lib_table(user))

    def reading(data, kind="bytesio", encoding=None, **kw):
        def run():
            rd = NMEAReader(make_stream(kind, data, [data[i:i + 5000] for i in range(0, len(data), 5000)]),
                            quitonerror=0, **kw)
            return sum(1 for _ in rd)
        return run

    gll = ref.sentence("GN", "GLL", ["5130.12", "N", "00010.5", "W", "120000.00", "A", "A"])
    k, _, kind = name.partition("/")
    if k == "commas":
        return parsing("GN", "ZZZ", [""] * n)
    if k == "digits":
        return parsing("GN", "ZZZ", ["1"] * (n // 2))
    if k == "field":
        return parsing("GN", "TXT", ["01", "01", "02", "x" * n])
    if k == "text":
        return parsing("GN", "TXT", ["01", "01", "02", "\u20ac" * (n // 3)])
    if k == "surplus":
        return parsing("GN", "GGA", [""] * n)
    if k == "fraction":
        return parsing("GN", "GLL", ["5130." + "1" * n, "N"])
    if k == "time":
        return parsing("GN", "GLL", ["5130.0", "N", "00130.0", "W", "120000." + "1" * n])
    if k == "msgid":
        return parsing("GN", "Z" * n, ["1"])
    if k == "indeterminate":
        return parsing("GN", "ALC", ["1", "1", "1", "1"] + ["1"] * (n // 2))
    if k == "counted":
        return parsing("P", "UBX", ["03", str(n // 12)] + ["1", "U", "1", "1", "1", "1"] * (n // 12))
    if k == "fixed":
        return parsing("GN", "ZQW", ["1", "x"] * (n // 4), 0, {"ZQW": [["g", [n // 4, [["a", "IN"], ["b", "ST"]]]]]})
    if k == "brackets":
        return parsing("P", "SSN", ["SNC"] + ["[1]"] * (n // 4))
    if k == "stars":
        return lambda: outcome_of(lambda: parse("$GNGLL," + "*" * n))
    if k == "nofield":
        return lambda: outcome_of(lambda: parse("$" + "G" * n))
    if k == "sentences":
        return reading(gll * (n // len(gll)), kind)
    if k == "junk":
        return reading(b"\x00\xffab" * (n // 4), kind)
    if k == "dollars":
        return reading(b"$" * n, kind)
    if k == "headers":
        return reading(b"$G" * (n // 2), kind)
    if k == "lines":
        return reading(b"$G\n" * (n // 3), kind)
    if k == "badsums":
        return reading(b"$GNGLL,1*00\r\n" * (n // 13), kind)
    if k == "badtypes":
        return reading(ref.sentence("GN", "GSV", ["a"]) * (n // 12), kind)
    if k == "unknown":
        return reading(ref.sentence("GN", "ZZZ", ["a"]) * (n // 12), kind, validate=3)
    if k == "foreign":
        return reading(b"$x" * (n // 2), kind, nmeaonly=True)
    if k == "line":
        return reading(b"$GNTXT,01,01,02," + b"x" * n + b"\n", kind)
    if k == "wrapper":  # chunk by chunk
        from pynmeagps.socketwrapper import SocketWrapper
        data = b"".join(b"400\r\n" + b"a" * 1023 + b"\n" + b"\r\n" for _ in range(n // 1024)) + b"0\r\n\r\n"
        seg = 3000
        if kind == "readchunk":
            data, seg = b"%x\r\n" % n + b"a" * n + b"\r\n0\r\n\r\n", 100
        elif kind == "readsize":  # a size that never ends
            data, seg = b"0" * n, 100
        elif kind == "readend":  # a terminator that never ends
            data, seg = b"1\r\n" + b"a" * n, 100
        elif kind == "onechunk":
            data = b"%x\r\n" % n + b"a" * n + b"\r\n0\r\n\r\n"
        elif kind == "onesegment":
            seg = len(data)

        def run():
            w = SocketWrapper(FakeSocket([data[i:i + seg] for i in range(0, len(data), seg)]), encoding=1,
                              bufsize=max(seg, 4096))
            if kind.startswith("read"):
                return w.read(n) == b"a" * n
            while w.readline():
                pass
        return run
    raise AssertionError(name)


SHAPES = (["commas", "digits", "field", "text", "surplus", "fraction", "time", "msgid", "indeterminate", "counted", "fixed",
           "brackets", "stars", "nofield", "wrapper/chunks", "wrapper/onechunk", "wrapper/onesegment",
           "wrapper/readchunk", "wrapper/readsize", "wrapper/readend"] +
          [f"{k}/{kind}" for k in ("sentences", "junk", "dollars", "headers", "lines", "badsums", "badtypes", "unknown", "foreign", "line") for kind in STREAMS])


def cpu(run):
    t0 = time.process_time()
    try:
        run()
    except DOCUMENTED:
        pass
    return time.process_time() - t0


def check_growth(case):
    name, = case
    n = 2000
    while n < 200000 and cpu(shape(name, n)) < 0.008:
        n *= 2
    for attempt in range(4):  # a slow machine is not a violation: only a ratio found every time is
        small = min(cpu(shape(name, n)) for _ in range(3 + attempt))
        large = min(cpu(shape(name, 8 * n)) for _ in range(1 + attempt))
        if large <= 24 * small + 0.05:
            return
    raise Violation(f"{name}: {n} characters take {small:.4f} s, 8 times as many {large:.4f} s of CPU")


# --------------------------------------------------------------- long runs of alike characters in one place
RUNS = ["1", "0", "9", "1.", "12:", "-", "+", " ", ".", "[", "]", "a", "aB", "a1", "_", "\u00e9", "\u0663", "\t", "0x", "e1", "::", "A."]


def gen_runs(s):
    unit = s.choice(RUNS) if s.bool(0.8) else s.text(gens.TAME + gens.ODD, 1, 3).replace(",", ".").replace("*", "x")
    run = unit * s.weighted((6, s.int(20, 60)), (3, s.int(60, 400)), (1, s.int(400, 4000)))
    end = s.choice(["x", "!", "", " ", ".", "\u00e9", "-", "1", "\x00"])
    where = s.int(0, 9)
    if where == 0:
        return f"${s.choice(['', 'GN', 'P', 'GNGL', 'PQTM'])}{run}{end},1*{s.choice(['00', '', run])}\r\n", 0, 0
    t, m, mode, p = gens.def_sentence(s, vary=False)
    if where == 1:
        return f"${ref.content(t, m, p)}*{run}{end}\r\n", mode, s.choice([0, 1])
    if not p:
        p = [""]
    for _ in range(s.int(1, 2)):
        i = s.uint(0, len(p) - 1)
        k = s.uint(0, len(p[i]))
        p[i] = (p[i][:k] if s.bool(0.8) else "") + run + end + (p[i][k:] if s.bool(0.3) else "")
    return ref.sentence(t, m, p).decode(), mode, s.choice([0, 1, 2, 3])


def check_runs(case):
    raw, mode, validate = case
    t0 = time.process_time()
    check_parse_any((raw, mode, validate, None))
    used = time.process_time() - t0
    require(used < 2, lambda: f"{len(raw)} characters took {used:.1f} s of CPU: {raw!r}")


class Endless(_socket.socket):
    """file-like or socket: data made while they are read"""

    def __init__(self, make, n):
        self.make, self.n, self.i, self.buf = make, n, 0, b""

    def fill(self):
        if self.buf == b"" and self.i < self.n:
            self.buf = self.make(self.i)
            self.i += 1

    def read(self, n=1):
        self.fill()
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

    def readline(self):
        self.fill()
        i = self.buf.find(b"\n") + 1 or len(self.buf)
        out, self.buf = self.buf[:i], self.buf[i:]
        return out

    def recv(self, n, *args):
        return self.read(n)


class File:
    def __init__(self, make, n):
        src = Endless(make, n)
        self.read, self.readline = src.read, src.readline


def abc(i, n):
    out = ""
    for _ in range(n):
        i, d = divmod(i, 26)
        out += chr(65 + d)
    return out


def snt(con, ck=None):
    return b"$%s*%s\r\n" % (con.encode(), (ck or ref.checksum(con)).encode())


FLOWS = {  # the i-th piece of an endless stream; every one of them different
    "positions": lambda i: snt("GNGLL,%02d%02d.%05d,N,%03d%02d.%05d,W,%06d.00,A,A" % (i % 90, i % 60, i % 100000, i % 180, i % 60, i, i)),
    "texts": lambda i: snt("GNTXT,01,01,02,text %d" % i),
    "groups": lambda i: snt("GPGSV,1,1,01,%02d,%02d,%03d,%02d" % (i % 90, i % 91, i % 360, i % 100)),
    "unknown": lambda i: snt("GNQ%s,%d" % (abc(i, 4), i)),
    "talkers": lambda i: snt("G%sGLL,%d" % (abc(i, 1), i)),
    "proprietary": lambda i: snt("PUBX,%02d,%d" % (i % 100, i)),
    "prefix": lambda i: snt("PASHR,%s,%d" % (abc(i, 4), i)),
    "badsum": lambda i: snt("GNTXT,01,01,02,text %d" % i, "zz"),
    "badnum": lambda i: snt("GNVTG,x%d,T" % i),
    "nodelim": lambda i: b"$GNGLL,%d\r\n" % i,
    "foreign": lambda i: b"\xb5b%d$x" % i,
}


def flow_cases():
    return [(f, k, e, h) for f in FLOWS for k, e, h in (("file", 0, 0), ("file", 1, 1), ("socket", 1, 0), ("chunked", 0, 0))] \
        + [(f, "parse", 0, 0) for f in FLOWS if f != "foreign"] + [(f, "build", 0, 0) for f in ("texts", "unknown", "prefix")]


def check_flow(case):
    """what has been read or parsed and is not kept by the caller takes no memory"""
    used = left_behind(case, 3000, 6000)
    if used >= 48000:  # unless it is a cache of limited size
        used = left_behind(case, 22000, 6000)
    require(used < 48000, lambda: f"6000 pieces of flow {case[0]!r} ({case[1:]}) leave {used} bytes behind")


def left_behind(case, warm, more):
    flow, kind, quit_, handler = case
    make = FLOWS[flow]
    if flow in ("foreign", "badsum", "badnum"):  # none of it is returned: a sentence now and then
        make = lambda i: snt("GNGLL,") if i % 10 == 9 else FLOWS[flow](i)  # noqa: E731
    todo = iter(range(warm + more))
    if kind in ("parse", "build"):
        def step():
            i = next(todo)
            if kind == "build":
                con = make(i).decode()[1:-5].split(",")
                NMEAMessage(con[0][:1] if con[0] == "PASHR" else con[0][:2], con[0][1 if con[0] == "PASHR" else 2:], 0, payload=con[1:])
            else:
                outcome_of(lambda: parse(make(i), 0, 1))
            return i + 1
    else:
        src = (File if kind == "file" else Endless)(
            (lambda i: b"%x\r\n%s\r\n" % (len(make(i)), make(i))) if kind == "chunked" else make, warm + more)
        kw = {"errorhandler": lambda err: None} if handler else {}
        rd = NMEAReader(src, quitonerror=quit_, encoding=1 if kind == "chunked" else 0, **kw)
        end = src if kind != "file" else src.read.__self__

        def step():
            rd.read()
            return end.i
    tracemalloc.start()
    try:
        while step() < warm:
            pass
        gc.collect()
        first = tracemalloc.get_traced_memory()[0]
        while step() < warm + more:
            pass
        gc.collect()
        used = tracemalloc.get_traced_memory()[0] - first
    finally:
        tracemalloc.stop()
    return used


SUBS = [
    Sub("memory", enum=flow_cases, check=check_flow, weight=3000),
    Sub("runs", gen_runs, check_runs, quick=12000, hyp=0.02),
    Sub("parse", gen_parse, check_parse_any, quick=70000, nontrivial=split_ok, hyp=0.04),
    Sub("constructor", gen_ctor, check_ctor, quick=30000, nontrivial=lambda c: len(c[3]) > 0, hyp=0.04),
    Sub("stream", gen_stream, check_stream, quick=20000, nontrivial=lambda c: b"$" in c[0], hyp=0.04),
    Sub("chunked", gen_chunked, check_chunked, quick=12000, nontrivial=lambda c: len(c[0]) > 1, hyp=0.04),
    Sub("growth", enum=lambda: [(n,) for n in SHAPES], check=check_growth, weight=10000),
    Sub("regress", enum=regress, check=check_parse_any, nontrivial=split_ok),
]
