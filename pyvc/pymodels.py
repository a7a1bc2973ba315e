"""Models of library classes, written in Python and executed by pyvc (and,
in replays, natively)."""


class LoggerStub:
    """stands for a logging.Logger: counts records of warning level and above"""

    def __init__(self):
        self.count = 0

    def error(self, msg, *args, **kwargs):
        self.count = self.count + 1

    def warning(self, msg, *args, **kwargs):
        self.count = self.count + 1

    def critical(self, msg, *args, **kwargs):
        self.count = self.count + 1

    def exception(self, msg, *args, **kwargs):
        self.count = self.count + 1

    def info(self, msg, *args, **kwargs):
        pass

    def debug(self, msg, *args, **kwargs):
        pass


class ByteStream:
    """io.BytesIO as far as read(n) and readline() are concerned; `rest` is
    what has not been read yet"""

    def __init__(self, data):
        self.rest = data

    def read(self, num=-1):
        if num < 0:
            res = self.rest
            self.rest = b""
            return res
        res = self.rest[:num]
        self.rest = self.rest[num:]
        return res

    def readline(self):
        head, sep, tail = self.rest.partition(b"\n")
        self.rest = tail
        return head + sep


class Handler:
    """an error handler that counts"""

    def __init__(self):
        self.count = 0

    def handle(self, err):
        self.count = self.count + 1


def arrival(sock, bufsize):
    """what the next recv finds: -1 timeout, -2 error, else how many bytes have
    arrived (0: closed).  Any number in proofs"""
    if not sock.cuts:
        return 0
    n = sock.cuts.pop(0)
    return min(n, bufsize)


def cut_bytes(data, num):
    """(first num bytes, the others); any cut in proofs"""
    return data[:num], data[num:]


class SocketStub:
    """a socket whose peer sends `rest` and then closes: each recv delivers some
    piece of it, nothing, or fails"""

    def __init__(self, data, cuts):
        self.rest = data
        self.cuts = list(cuts)
        self.failed = False
        self.taken = b""         # what the contract has read so far
        self.sent = None
        self.sentkw = None

    def recv(self, bufsize):
        num = arrival(self, bufsize)
        if num == -1:
            self.failed = True
            raise TimeoutError("timed out")
        if num < -1:
            self.failed = True
            raise OSError("failed")
        res, rest = cut_bytes(self.rest, num)
        self.rest = rest
        self.failed = len(res) == 0
        return res

    def send(self, data, **kwargs):
        self.sent = data
        self.sentkw = kwargs
        return len(data)


def install(en):
    import z3
    from pyvc.core import INT, STR, SBytes, SInt, simp, to_z

    def _arrival(en, args, kw):
        return SInt(en.fresh("arrival", INT))

    def _cut(en, args, kw):
        z = en.normal(simp(to_z(args[0], "bytes")))
        h, t = en.fresh("piece", STR), en.fresh("rest", STR)
        if z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z.num_args() == 0:
            en.split(z, h, t, None)
        else:
            en.assume(z == z3.Concat(h, t))
        return SBytes(h), SBytes(t)
    en.models.fn[arrival] = _arrival
    en.models.fn[cut_bytes] = _cut
