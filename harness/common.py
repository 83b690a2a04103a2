"""Bridge between the reference model and the library's public API."""

import gens
import ref
from engine import Violation, require

import pynmeagps as lib
from pynmeagps import (NMEAMessage, NMEAMessageError, NMEAParseError, NMEAReader, NMEAStreamError,
                       NMEATypeError)

VALNONE, VALCKSUM, VALMSGID = 0, 1, 2
DOCUMENTED = (NMEAParseError, NMEAMessageError, NMEATypeError, NMEAStreamError)


class Expect:
    """What parsing this sentence must give.

    outcome: "ok" | "type" (NMEATypeError) | "reject" (NMEAParseError, message validation)
             | "any" (unspecified: a number Python accepts but NMEA does not write, see ref.RefAmbiguous;
             group delimiters in a sentence that only looks like PSSN,SNC)
    """

    def __init__(self, talker, msgid, mode, payload, validate=VALCKSUM, user=None):
        self.source, self.key, self.fields = ref.lookup(msgid, mode, payload, user)
        self.talker, self.msgid, self.mode, self.payload = talker, msgid, mode, payload
        self.attrs = None
        self.outcome = "ok"
        if validate & VALMSGID and (talker not in ref.G["TALKERS"] or self.source == "UNKN"
                                    or self.fields is None):
            self.outcome = "reject"
            return
        if self.fields is None:
            self.attrs = [("field_%02d" % (i + 1), "ST", v) for i, v in enumerate(payload)]
        elif self.key == "SSNSNC" and (talker, msgid, payload[:1]) != ("P", "SSN", ["SNC"]) \
                and any("[" in x or "]" in x for x in payload):
            self.outcome = "any"
            return
        else:
            try:
                self.attrs = ref.decode(self.fields, payload, self.key)
            except ref.RefTypeError:
                self.outcome = "type"
                return
            except ref.RefAmbiguous:
                self.outcome = "any"
                return
        self.identity = ref.identity(talker, msgid, self.fields, payload)
        self.nominal = self.source == "UNKN"


def parse(data, mode=0, validate=VALCKSUM, user=None):
    return NMEAReader.parse(data, msgmode=mode, validate=validate, userdefined=user)


def outcome_of(fn):
    """-> ("ok", message) | ("type", None) | ("reject", None); other exceptions pass"""
    try:
        return "ok", fn()
    except NMEATypeError:
        return "type", None
    except (NMEAParseError, NMEAMessageError):
        return "reject", None


def check_message(msg, exp, cksum=None, what="parsed message"):
    """msg is what exp says"""
    require(isinstance(msg, NMEAMessage), lambda: f"{what}: no message object but {msg!r}")
    require(msg.talker == exp.talker and msg.msgID == exp.msgid,
            lambda: f"{what}: talker/msgID {msg.talker!r}/{msg.msgID!r}, expected {exp.talker!r}/{exp.msgid!r}")
    require(msg.msgmode == exp.mode, lambda: f"{what}: msgmode {msg.msgmode!r}, expected {exp.mode!r}")
    require(list(msg.payload) == list(exp.payload),
            lambda: f"{what}: payload {msg.payload!r}, expected {exp.payload!r}")
    if cksum is not None:
        require(msg.checksum == cksum, lambda: f"{what}: checksum {msg.checksum!r}, expected {cksum!r}")
    if exp.attrs is not None:
        d = ref.diff(msg, exp.attrs)
        require(d is None, lambda: f"{what} {exp.talker}{exp.msgid} ({exp.key}): {d}")
        require(msg.identity == exp.identity,
                lambda: f"{what}: identity {msg.identity!r}, expected {exp.identity!r}")


def check_parse(talker, msgid, mode, payload, validate=VALCKSUM, user=None, as_str=False, eol="\r\n"):
    """parse the sentence and compare outcome and message with the reference"""
    exp = Expect(talker, msgid, mode, payload, validate, user)
    raw = ref.sentence(talker, msgid, payload, eol)
    data = raw.decode("utf-8") if as_str else raw
    got, msg = outcome_of(lambda: parse(data, mode, validate, gens.lib_table(user)))
    if exp.outcome == "any":
        return exp, raw, msg
    require(got == exp.outcome,
            lambda: f"parsing {raw!r} in mode {mode} validate {validate}: outcome {got}, expected {exp.outcome}")
    if got == "ok":
        check_message(msg, exp, ref.checksum(ref.content(talker, msgid, payload)))
    return exp, raw, msg


def same_message(a, b):
    """None, or how two messages differ"""
    for n in ("talker", "msgID", "msgmode", "payload", "checksum", "identity"):
        if getattr(a, n) != getattr(b, n):
            return f"{n} {getattr(a, n)!r} / {getattr(b, n)!r}"
    if ref.attrs_of(a) != ref.attrs_of(b):
        return f"attributes {ref.attrs_of(a)} / {ref.attrs_of(b)}"
    if a.serialize() != b.serialize():
        return f"serialization {a.serialize()!r} / {b.serialize()!r}"
    if str(a) != str(b):
        return f"str {a} / {b}"
    return None


class ByteStream:
    """serial-like stream: read(n) and readline() only, and not a file"""

    def __init__(self, data):
        self.data, self.pos = bytes(data), 0

    def read(self, n=1):
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readline(self):
        i = self.data.find(b"\n", self.pos)
        end = len(self.data) if i < 0 else i + 1
        out = self.data[self.pos:end]
        self.pos = end
        return out


import socket as _socket


class FakeSocket(_socket.socket):
    """recv() delivers prescribed segments; events: bytes | "timeout" | "oserror" | "reset"

    After the last event the peer has closed (recv gives b"")."""

    def __init__(self, events):  # no real socket is created
        self.events = [bytes(e) if isinstance(e, (bytes, bytearray)) else e for e in events]
        self.i = self.off = 0
        self.delivered = 0
        self.faults = 0
        self.calls = 0
        self.sent = []
        self.sent_kw = []

    def recv(self, n, *args):
        self.calls += 1
        if self.i >= len(self.events):
            self.faults += 1
            return b""
        ev = self.events[self.i]
        if not isinstance(ev, bytes):
            self.i += 1
            self.faults += 1
            raise {"timeout": TimeoutError("timed out"), "oserror": OSError("i/o error"),
                   "reset": ConnectionResetError("reset")}[ev]
        out = ev[self.off:self.off + n]
        self.off += len(out)
        if self.off >= len(ev):
            self.i, self.off = self.i + 1, 0
        self.delivered += len(out)
        return out

    def recv_into(self, buf, nbytes=0, *args):
        data = self.recv(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data)

    def send(self, data, *args, **kw):
        self.sent.append(bytes(data))
        self.sent_kw.append(kw)
        return len(data)

    def sendall(self, data, *args, **kw):
        self.send(data)

    def close(self):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def fileno(self):
        return -1


def segments(s, data, cuts=None):
    """cut data into recv results"""
    kind = s.choice(["some", "bytes", "one", "fixed", "many"])
    if not data:
        return []
    if kind == "one":
        return [data]
    if kind == "bytes" and len(data) <= 400:
        return [data[i:i + 1] for i in range(len(data))]
    if kind == "fixed":
        n = s.int(1, 64)
        return [data[i:i + n] for i in range(0, len(data), n)]
    k = s.int(1, 5 if kind == "some" else 40)
    at = sorted({s.uint(1, max(1, len(data) - 1)) for _ in range(k)} | set(cuts or ()))
    at = [a for a in at if 0 < a < len(data)]
    return [data[i:j] for i, j in zip([0] + at, at + [len(data)])]


def make_stream(kind, data, segs=None, bufsize=4096):
    import io

    if kind == "bytesio":
        return io.BytesIO(data)
    if kind == "serial":
        return ByteStream(data)
    if kind == "buffered":
        return io.BufferedReader(io.BytesIO(data), buffer_size=7)
    if kind == "socket":
        return FakeSocket(segs if segs is not None else [data])
    raise AssertionError(kind)


STREAMS = ["bytesio", "serial", "buffered", "socket"]


def snapshot():
    """the published tables as they are now"""
    import pynmeagps.nmeahelpers as he
    import pynmeagps.nmeatypes_core as c
    import pynmeagps.nmeatypes_get as g
    import pynmeagps.nmeatypes_get_prop as gp
    import pynmeagps.nmeatypes_poll as po
    import pynmeagps.nmeatypes_poll_prop as pp
    import pynmeagps.nmeatypes_set as se
    import pynmeagps.nmeatypes_set_prop as sp
    import pynmeagps.nmeatypes_decodes as de

    return {f"{m.__name__}.{n}": repr(v) for m in (c, g, gp, po, pp, se, sp, de, he) for n, v in vars(m).items()
            if isinstance(v, (dict, list, tuple, set)) and n.isupper() and n[0] != "_"}
