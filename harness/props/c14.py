"""C14 chunked and compressed streams."""
import random
import zlib

import gens
import ref
from common import *
from engine import Sub

from pynmeagps import SocketWrapper

RULE = ("data cut into random chunks (sizes 1..300, some up to 200000, binary or sentences, content with line ends and chunk-like text, compressed empty content), "
        "optionally gzip/zlib/deflate compressed per chunk, chunk sizes in upper/lower/zero padded hex, with and without chunk extensions, delivered in "
        "random segments with pauses (time-outs, interrupted receives), in every two- and three-way split of small streams, byte by byte; oracle: the original data; "
        "non-trivial: at least one chunk and two segments")


LEVELS = (-1, -1, 0, 1, 6, 9, 2)
STRATEGIES = (zlib.Z_DEFAULT_STRATEGY, zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FILTERED)


def compress(data, enc):
    """bits 8 and up of enc choose level, window, strategy, flushes and gzip header"""
    if not enc & 14:
        return data
    form = enc >> 8
    level, form = LEVELS[form % len(LEVELS)], form // len(LEVELS)
    strategy, form = STRATEGIES[form % len(STRATEGIES)], form // len(STRATEGIES)
    window, form = (15, 15, 9, 12)[form % 4], form // 4
    flush, head = form % 2, form // 2 % 2
    c = zlib.compressobj(level, zlib.DEFLATED, -window if enc & 10 else window, 8, strategy)
    out = c.compress(data[:len(data) // 2])
    if flush:
        out += c.flush(zlib.Z_SYNC_FLUSH)
    out += c.compress(data[len(data) // 2:]) + c.flush()
    if enc & 2:
        hdr = b"\x1f\x8b\x08" + bytes([31 if head else 0]) + b"\0\0\0\0\0\xff"
        if head:  # text flag, extra field, file name, comment, header checksum
            hdr += b"\x04\0ab\r\nname\0a comment\0"
            hdr += (zlib.crc32(hdr) & 0xFFFF).to_bytes(2, "little")
        out = hdr + out + zlib.crc32(data).to_bytes(4, "little") + (len(data) & 0xFFFFFFFF).to_bytes(4, "little")
    return out


def encoding(s):
    """transfer encoding with, in its upper bits, a form of compression"""
    return 1 | s.choice([0, 0, 2, 4, 8]) | (s.uint(0, 671) << 8 if s.bool(0.6) else 0)


FINAL = [b"0", b"00", b"0000", b"0;ieof", b"0 ; a=b", b"000000000000"]


def encode(chunks, enc, sizefmt, final):
    out = b""
    for ch, f in zip(chunks, sizefmt):
        b = compress(ch, enc)
        out += (f % len(b)).encode() + b"\r\n" + b + b"\r\n"
    return out + (FINAL[final - 1] + b"\r\n\r\n" if final else b"")


FMT = ["%x", "%X", "%04x", "%02X", "%08X"]
EXT = [";n=v", "; name=\"a b\"", " ;x", ";a=1;b=2", ";ff", ";\"0\"", ";ieof"]


def fmt(s):
    return s.choice(FMT) + (s.choice(EXT) if s.bool(0.04) else "")


def content(s):
    k = s.int(0, 5)
    if k == 0:
        return s.bytes(1, 40)
    if k == 1:
        return s.choice([b"\r\n", b"\n", b"5\r\nab", b"0\r\n\r\n", b"a\r\n", b"\r", b"\n\r\n", b"1\r\n"]) * s.int(1, 3)
    if k == 2:
        return bytes([s.uint(0, 255)]) * s.int(1, 300)
    t, m, p = gens.ok_sentence(s, 0)
    return ref.sentence(t, m, p) * s.int(1, 2)


def gen(s):
    enc = encoding(s)
    chunks = [b"" if enc & 14 and s.bool(0.05) else content(s) for _ in range(s.int(0, 6))]
    fmts = [fmt(s) for _ in chunks]
    final = s.choice([0, 0, 0, 1, 1, 1, 1, 2, 3, 4, 5, 6])
    data = encode(chunks, enc, fmts, final)
    cuts = []
    pos = 0
    for ch, f in zip(chunks, fmts):  # boundaries around sizes and terminators are favoured
        n = len(compress(ch, enc))
        h = len(f % n)
        for d in (h, h + 1, h + 2, h + 2 + n, h + 3 + n, h + 4 + n):
            if s.bool(0.15):
                cuts.append(pos + d)
        pos += h + 4 + n
    segs = segments(s, data, cuts)
    lens = [len(x) for x in segs]
    if s.bool(0.25):  # the peer pauses
        for _ in range(s.int(1, 4)):
            lens.insert(s.uint(0, len(lens)), s.choice(["timeout", "timeout", "oserror"]))
    return chunks, enc, fmts, final, lens, s.choice([4096, 4096, 7, 1, 64])


def cut_up(data, lens):
    out, i = [], 0
    for n in lens:
        if isinstance(n, str):
            out.append(n)
            continue
        out.append(data[i:i + n])
        i += n
    if i < len(data):
        out.append(data[i:])
    return [x for x in out if x]


def check(case):
    chunks, enc, fmts, final, lens, bufsize = case
    want = b"".join(chunks)
    wire = encode(chunks, enc, fmts, final)
    w = SocketWrapper(FakeSocket(cut_up(wire, lens)), encoding=enc & 15, bufsize=bufsize)
    got, empty = b"", 0
    limit = 3 + sum(isinstance(n, str) for n in lens)
    while empty < limit and len(got) <= len(want):
        b = w.read(1)
        got += b
        empty = 0 if b else empty + 1
    require(got == want, lambda: f"segments {lens} of {wire!r} (encoding {enc}): delivered {got!r}, sent {want!r}")


def gen_cut(s):
    """streams that break off, often within a size line or a line end"""
    chunks, enc, fmts, final, _, bufsize = gen(s)
    n = len(encode(chunks, enc, fmts, final))
    ends = [len(encode(chunks[:i], enc, fmts, 0)) for i in range(len(chunks) + 1)]
    cut = min(n, max(0, s.choice(ends) + s.choice([-2, -1, 0, 1, 2, 3]) if s.bool(0.8) else s.uint(0, n)))
    return chunks, enc, fmts, final, cut, [len(x) for x in segments(s, b"x" * cut)], bufsize


def check_cut(case):
    """all that came completely is delivered, and nothing else"""
    chunks, enc, fmts, final, cut, lens, bufsize = case
    wire = encode(chunks, enc, fmts, final)[:cut]
    want, least = b"".join(chunks), b""
    for i in range(len(chunks) + 1):
        if len(encode(chunks[:i], enc, fmts, 0)) <= cut:
            least = b"".join(chunks[:i])
    w = SocketWrapper(FakeSocket(cut_up(wire, lens)), encoding=enc & 15, bufsize=bufsize)
    got = b""
    while len(got) <= len(want):
        b = w.read(1)
        if not b:
            break
        got += b
    require(got.startswith(least) and want.startswith(got),
            lambda: f"segments {lens} of {wire!r} (encoding {enc}): delivered {got!r}, complete chunks hold {least!r}")


def check_lines(case):
    chunks, enc, fmts, final, lens, bufsize = case
    want = b"".join(chunks)
    wire = encode(chunks, enc, fmts, final)
    w = SocketWrapper(FakeSocket(cut_up(wire, lens)), encoding=enc & 15, bufsize=bufsize)
    got = []
    while True:
        b = w.readline()
        if not b:
            break
        got.append(b)
    exp = [x + b"\n" for x in want.split(b"\n")]
    exp[-1] = exp[-1][:-1]
    exp = [x for x in exp if x]
    require(got == exp, lambda: f"segments {lens} of {wire!r} (encoding {enc}): lines {got!r}, expected {exp!r}")


def big(spec):
    """content from (size, kind, seed)"""
    n, kind, seed = spec
    if kind == "random":
        return random.Random(seed).randbytes(n)
    if kind == "far":  # matches at long distances
        b = random.Random(seed).randbytes(min(n, 20000))
        return (b * (n // len(b) + 1))[:n]
    return (b"$GNTXT,01,01,02,%d*00\r\n" % seed * (n // 20 + 1))[:n]


def gen_large(s):
    specs = [(s.choice([s.int(300, 5000), s.int(4000, 70000), s.int(60000, 200000)]), s.choice(["random", "far", "text"]), s.uint(0, 999))
             for _ in range(s.int(1, 3))]
    return specs, encoding(s), [fmt(s) for _ in specs], s.choice([4096, 65536, 1 << 20, 1500]), s.uint(0, 1 << 16)


def check_large(case):
    specs, enc, fmts, bufsize, seed = case
    chunks = [big(x) for x in specs]
    want = b"".join(chunks)
    wire = encode(chunks, enc, fmts, True)
    rng = random.Random(seed)
    at = sorted(rng.sample(range(1, len(wire)), min(len(wire) - 1, rng.choice([0, 1, 5, 20]))))
    segs = [wire[i:j] for i, j in zip([0] + at, at + [len(wire)])]
    w = SocketWrapper(FakeSocket(segs), encoding=enc & 15, bufsize=bufsize)
    got = b""
    for n in (1, 100, 5000):
        got += w.read(min(n, len(want) - len(got)))
    got += w.read(len(want) - len(got))
    i = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    require(got == want, lambda: f"chunks {[len(c) for c in chunks]} encoding {enc} bufsize {bufsize}: delivered {len(got)} bytes "
                                 f"of {len(want)}, first difference at {i}")
    require(w.read(1) == b"", lambda: "more data than sent")


def gen_lines(s):
    c = gen(s)
    return (*c[:4], [n for n in c[4] if isinstance(n, int)], c[5])


def gen_reader(s):
    n = s.int(1, 5)
    data = b"".join(ref.sentence(*gens.ok_sentence(s, 0)) for _ in range(n))
    chunks = segments(s, data)
    enc = encoding(s)
    fmts = [fmt(s) for _ in chunks]
    wire = encode(chunks, enc, fmts, True)
    return chunks, enc, fmts, True, [len(x) for x in segments(s, wire)], s.choice([4096, 64, 7])


def check_reader(case):
    chunks, enc, fmts, final, lens, bufsize = case
    data = b"".join(chunks)
    wire = encode(chunks, enc, fmts, final)
    want = list(NMEAReader(make_stream("bytesio", data), quitonerror=0))
    got = list(NMEAReader(FakeSocket(cut_up(wire, lens)), encoding=enc & 15, bufsize=bufsize, quitonerror=0))
    require([g[0] for g in got] == [x[0] for x in want], lambda: f"segments {lens} of {wire!r}: read {[g[0] for g in got]!r}")
    for (r, a), (_, b) in zip(got, want):
        d = same_message(a, b)
        require(d is None, lambda: f"{r!r}: {d}")


def splits():
    """all two-way and three-way splits of small streams"""
    out = []
    for chunks, enc in (([b"$G", b"\r\n", b"abcdefghijklmnopq"], 1), ([b"\n", b"0\r\n"], 1), ([b"hello\r\n"], 3), ([b"x"], 5),
                        ([b"yz"], 9)):
        fm = ["%x"] * len(chunks)
        n = len(encode(chunks, enc, fm, True))
        for i in range(1, n):
            out.append((chunks, enc, fm, True, [i, n - i], 4096))
            if n <= 45:
                for j in range(i + 1, n):
                    out.append((chunks, enc, fm, True, [i, j - i, n - j], 4096))
        for b in (1, 2, 3, 5):
            out.append((chunks, enc, fm, True, [n], b))
            out.append((chunks, enc, fm, False, [n], b))
    return out


def huge():
    """single chunks beyond powers of two"""
    return [([(n, kind, n % 97)], enc, ["%x"], 1 << 20, 0) for n, kind, enc in (
        ((1 << 16) + 1, "random", 1), ((1 << 20) + 3, "random", 1), ((1 << 20) + 1, "far", 3), ((1 << 21) + 1, "far", 5),
        ((1 << 22) + 9, "far", 9), ((1 << 24) + 5, "random", 1), ((1 << 24) + 5, "far", 3))]


SUBS = [
    Sub("huge", enum=huge, check=check_large, weight=3000),
    Sub("bytes", gen, check, quick=14000, nontrivial=lambda c: len(c[0]) > 0 and len(c[4]) > 1, hyp=0.03,
        classify=lambda c: [f"encoding{c[1] & 15}"]),
    Sub("cut", gen_cut, check_cut, quick=8000, nontrivial=lambda c: len(c[0]) > 0 and c[4] > 0, hyp=0.03),
    Sub("lines", gen_lines, check_lines, quick=8000, nontrivial=lambda c: len(c[0]) > 0 and len(c[4]) > 1, hyp=0.03),
    Sub("reader", gen_reader, check_reader, quick=8000, nontrivial=lambda c: len(c[4]) > 1, hyp=0.03),
    Sub("large", gen_large, check_large, quick=160, weight=30, nontrivial=lambda c: True,
        classify=lambda c: [f"encoding{c[1] & 15}"]),
    Sub("splits", enum=splits, check=check),
]
