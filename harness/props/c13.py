"""C13 socket stream: bytes are delivered however segmented."""
import gens
import ref
from common import *
from engine import Sub

from pynmeagps import SocketWrapper

RULE = ("stateful: sequences of read(n)/readline/in_waiting/write over a socket delivering random data in random segments "
        "with timeouts, errors and close at random points, random buffer sizes; oracle: byte queue model; plus readers "
        "over segmented sockets against the unsegmented stream, and real socket pairs; non-trivial: more than one segment "
        "or a fault, and at least one byte")


def gen(s):
    blobs = [s.literal("blobs") or s.choice([b"\r\n", b"\n", b"\r", b"$", b"", b"\x00", b"\\", b"ab"]) for _ in range(s.int(0, 12))]
    data = s.choice([s.bytes(0, 30), b"".join(x for b in blobs for x in (b, s.choice([b"\r\n", b"\n", b"", b"a"]))), s.text("ab\r\n\n", 0, 60).encode(),
                     b"".join(ref.sentence("GN", "GLL", [gens.text(s, 0, 5)]) for _ in range(s.int(0, 5)))])
    segs = segments(s, data)
    out = []
    for g in segs:
        if s.bool(0.15):
            out.append(s.choice(["timeout", "timeout", "oserror", "reset"]))
        out.append(g)
    ops = []
    for _ in range(s.int(0, 30)):
        k = s.int(0, 9)
        if k <= 3:
            ops.append(("read", s.choice([1, 1, 2, 3, 5, 8, 40, 100])))
        elif k <= 6:
            ops.append(("line", 0))
        elif k == 7:
            ops.append(("wait", 0))
        elif k == 8:
            ops.append(("write", s.bytes(0, 6)))
        else:
            ops.append(("read0", 0))
    return out, s.choice([4096, 1, 2, 5, 16, 64]), ops


def check(case, by_line=False):
    events, bufsize, ops = case
    data = b"".join(e for e in events if isinstance(e, bytes))
    sock = FakeSocket(events)
    w = SocketWrapper(sock, bufsize=bufsize)
    pos = 0
    sent = []

    def one(op, arg):
        nonlocal pos
        f0 = sock.faults
        if op == "read":
            got = w.read(arg)
            require(isinstance(got, bytes), lambda: f"read({arg}) returned {got!r}")
            if len(got) == 0:
                require(sock.faults > f0, lambda: f"read({arg}) returned nothing though nothing failed "
                                                  f"(at byte {pos} of {data!r})")
            else:
                require(len(got) == arg, lambda: f"read({arg}) returned {len(got)} bytes {got!r} at byte {pos}")
                require(sock.faults == f0, lambda: f"read({arg}) returned {got!r} after the socket failed")
        elif op == "line":
            got = w.readline()
            require(isinstance(got, bytes), lambda: f"readline() returned {got!r}")
            i = got.find(b"\n")
            require(i in (-1, len(got) - 1), lambda: f"readline() went past a LF: {got!r}")
            if i < 0:
                require(sock.faults > f0, lambda: f"readline() returned {got!r} without LF though nothing failed")
        elif op == "wait":
            n = w.in_waiting()
            require(n == sock.delivered - pos, lambda: f"in_waiting() = {n}, received {sock.delivered}, read {pos}")
            require(bytes(w.buffer) == data[pos:sock.delivered],
                    lambda: f"buffer {w.buffer!r}, received but not read: {data[pos:sock.delivered]!r}")
            return
        elif op == "write":
            n = w.write(arg)
            sent.append(arg)
            require(n == len(arg), lambda: f"write({arg!r}) returned {n!r}")
            return
        else:
            got = w.read(0)
            require(got == b"", lambda: f"read(0) = {got!r}")
            return
        require(got == data[pos:pos + len(got)],
                lambda: f"{op} returned {got!r} at byte {pos}, transmitted {data[pos:pos + len(got) + 3]!r}")
        pos += len(got)

    for op, arg in ops:
        one(op, arg)
    require(b"".join(sock.sent) == b"".join(sent), lambda: f"socket got {sock.sent!r}, written {sent!r}")
    # drain: everything transmitted arrives
    idle = 0
    while idle <= (len(events) + 2 if not by_line else 5):
        p0 = pos
        one(*(("line", 0) if by_line else ("read", 1)))
        idle = 0 if pos > p0 else idle + 1
    require(pos == len(data), lambda: f"only {pos} of {len(data)} bytes delivered")
    one("wait", 0)


def gen_reader(s):
    mode = 0
    parts = []
    for _ in range(s.int(1, 6)):
        if s.bool(0.25):
            parts.append(gens.clean(gens.junk(s)))
        else:
            t, m, p = gens.ok_sentence(s, mode)
            parts.append(ref.sentence(t, m, p, s.choice(["\r\n", "\n"])))
    data = b"".join(parts)
    return data, segments(s, data), s.choice([4096, 1, 3, 16, 100])


def check_reader(case):
    data, segs, bufsize = case
    want = list(NMEAReader(make_stream("bytesio", data), quitonerror=0))
    got = list(NMEAReader(FakeSocket(segs), bufsize=bufsize, quitonerror=0))
    require([g[0] for g in got] == [x[0] for x in want],
            lambda: f"{[len(x) for x in segs]} byte segments of {data!r}: read {[g[0] for g in got]!r}")
    for (r, a), (_, b) in zip(got, want):
        d = same_message(a, b) if a is not None and b is not None else None if a is b else "one is None"
        require(d is None, lambda: f"{r!r} over socket: {d}")


def gen_pair(s):
    data, segs, bufsize = gen_reader(s)
    return data, segs[:12], bufsize


def check_pair(case):
    """a real connected socket"""
    import socket
    import threading

    data, segs, bufsize = case
    data = b"".join(segs)
    a, b = socket.socketpair()
    try:
        b.settimeout(10)

        def send():
            for x in segs:
                a.sendall(x)
            a.shutdown(socket.SHUT_WR)

        th = threading.Thread(target=send)
        th.start()
        rd = NMEAReader(b, bufsize=bufsize, quitonerror=0)
        got = [r for r, _ in rd]
        rd.datastream.write(b"\x01hello,\r\n")
        b.shutdown(socket.SHUT_WR)
        th.join()
        back = b""
        a.settimeout(10)
        while True:
            x = a.recv(100)
            if not x:
                break
            back += x
    finally:
        a.close()
        b.close()
    want = [r for r, _ in NMEAReader(make_stream("bytesio", data), quitonerror=0)]
    require(got == want, lambda: f"real socket read {got!r}, expected {want!r}")
    require(back == b"\x01hello,\r\n", lambda: f"written data arrived as {back!r}")


def check_timeout(case):
    """timeouts in the middle of a line; the caller keeps what a line read returned and carries on"""
    events, bufsize, _ = case
    data = b"".join(e for e in events if isinstance(e, bytes))
    w = SocketWrapper(FakeSocket(events), bufsize=bufsize)
    lines, cur = [], b""
    for _ in range(len(data) + 3 * len(events) + 5):
        cur += w.readline()
        if cur[-1:] == b"\n":
            lines.append(cur)
            cur = b""
    require(b"".join(lines) + cur == data, lambda: f"lines {lines!r} + {cur!r} of {data!r}")
    require(lines == [x + b"\n" for x in data.split(b"\n")[:-1]], lambda: f"lines {lines!r} of {data!r}")


def size(s):
    """lengths, also around powers of two and beyond usual buffers"""
    return max(0, s.choice([s.int(0, 200), s.int(0, 20000), 2 ** s.int(5, 16) + s.sint(2), s.int(1, 9) * 10 ** s.int(2, 4)]))


def gen_large(s):
    return ([(size(s), s.uint(0, 3)) for _ in range(s.int(1, 5))], size(s) + 1, s.choice([4096, 65536, size(s) + 1]),
            [s.choice([("line", 0), ("read", size(s) + 1), ("wait", 0)]) for _ in range(s.int(1, 8))], s.bool(0.3))


FILL = [b"x", b"$GNGLL,,", bytes(range(256)).replace(b"\n", b""), b"\r\0"]


def check_large(case):
    lines, seg, bufsize, ops, fault = case
    data = b"".join((FILL[k] * (n // len(FILL[k]) + 1))[:n] + b"\n" for n, k in lines)
    events = [data[i:i + seg] for i in range(0, len(data), seg)][:3000]
    if fault:
        events.insert(len(events) // 2, "timeout")
    check((events, bufsize, ops), True)


def every_split():
    """each two-segment split of a stream, with and without a timeout between, small buffers"""
    data = b"\n" + ref.sentence("GN", "GLL", ["5130.12", "N"]) + b"x\r\ry\n" + ref.sentence("P", "UBX", ["00"], "\n") + b"end"
    ops = [("line", 0)] * 3 + [("read", 2)] + [("line", 0)] * 4
    out = []
    for i in range(1, len(data)):
        for mid in ([], ["timeout"], ["oserror"]):
            for b in (4096, 3):
                out.append(([data[:i]] + mid + [data[i:]], b, ops))
    return out


SUBS = [
    Sub("ops", gen, check, quick=40000, nontrivial=lambda c: len(c[0]) > 1, hyp=0.04),
    Sub("reader", gen_reader, check_reader, quick=10000, nontrivial=lambda c: len(c[1]) > 1, hyp=0.04),
    Sub("timeouts", gen, check_timeout, quick=10000, nontrivial=lambda c: any(isinstance(e, str) for e in c[0]), hyp=0.03),
    Sub("realsocket", gen_pair, check_pair, quick=300, thorough=3000, nontrivial=lambda c: len(c[1]) > 1, hyp=0),
    Sub("large", gen_large, check_large, quick=120, weight=60, nontrivial=lambda c: True, hyp=0.03),
    Sub("splits", enum=every_split, check=check),
]
