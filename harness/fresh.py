"""fresh.py: answers requests, each in a new process in which the library has done nothing yet (used by C25),
which runs in another time zone, with another hash seed and without assert statements.

A request is a list of operations in library values; the answer the list of what each of them gave, in that order."""

import io
import os
import pickle
import struct
import subprocess
import sys

MEM_LIMIT = 2 << 30


def observe(msg):
    if msg is None:
        return None
    return (msg.serialize(), str(msg), repr(msg), msg.identity, msg.talker, msg.msgID, msg.msgmode, msg.payload,
            msg.checksum, [(k, type(v).__name__, repr(v)) for k, v in vars(msg).items() if k[0] != "_"])


def perform(op):
    """-> observation, or the name of the exception"""
    from pynmeagps import NMEAMessage, NMEAReader

    try:
        if op[0] == "parse":
            return observe(NMEAReader.parse(op[1], msgmode=op[2], validate=op[3], userdefined=op[4]))
        if op[0] == "build":
            return observe(NMEAMessage(op[1], op[2], op[3], **op[4]))
        if op[0] == "read":
            return [(raw, observe(msg)) for raw, msg in NMEAReader(
                io.BytesIO(op[1]), msgmode=op[2], validate=op[3], userdefined=op[4], quitonerror=0)]
        raise RuntimeError(op[0])
    except Exception as err:  # whatever it is, it is the result
        return type(err).__name__


def perform_all(ops):
    return [perform(op) for op in ops]


def _exact(f, n):
    data = b""
    while len(data) < n:
        more = f.read(n - len(data))
        if not more:
            raise EOFError
        data += more
    return data


def serve():
    """server side: one forked process per request"""
    import logging
    import resource

    import pynmeagps  # noqa: F401

    logging.disable(logging.CRITICAL)
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # whatever is printed must not get into the answers
    while True:
        try:
            data = _exact(inp, struct.unpack("<Q", _exact(inp, 8))[0])
        except EOFError:
            return
        pid = os.fork()
        if not pid:
            code = 1
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
                resource.setrlimit(resource.RLIMIT_CPU, (40, 40))
                ans = pickle.dumps(perform_all(pickle.loads(data)))
                out.write(struct.pack("<Q", len(ans)) + ans)
                out.flush()
                code = 0
            finally:
                os._exit(code)
        if os.waitpid(pid, 0)[1]:
            out.write(struct.pack("<Q", 0))
            out.flush()


_server = {}


def ask(ops):
    """client side: what these operations give in a process of their own (None: that process died)"""
    pid = os.getpid()
    if pid not in _server:
        _server.clear()  # one inherited from the parent process is not ours
        import pynmeagps

        src = os.path.dirname(os.path.dirname(os.path.abspath(pynmeagps.__file__)))
        # nothing of this must matter
        env = dict(os.environ, TZ="CCC-5:45", PYTHONHASHSEED="4242", LC_ALL="C", PYTHONUTF8="0")
        _server[pid] = subprocess.Popen([sys.executable, "-B", "-OO", os.path.abspath(__file__), src], env=env,
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    srv = _server[pid]
    data = pickle.dumps(ops)
    srv.stdin.write(struct.pack("<Q", len(data)) + data)
    srv.stdin.flush()
    n = struct.unpack("<Q", _exact(srv.stdout, 8))[0]
    return pickle.loads(_exact(srv.stdout, n)) if n else None


if __name__ == "__main__":
    sys.path.insert(0, sys.argv[1])
    serve()
