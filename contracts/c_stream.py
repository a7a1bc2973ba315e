"""NMEAReader.read() over any stream."""

import io
import logging
import random
import re
import socket

from contracts import gens, opaque, spec
from contracts.opaque import same_message
from pyvc import recur
from pyvc.core import to_z
from pyvc.harness import AssumeFailed, AnyVal, Bytes, Const, Int, assume, contract, ensure
from pyvc.pymodels import ByteStream, Handler
from pyvc.recur import lengths, locals_bytes, reach, tail
from pynmeagps import NMEAMessage, NMEAReader
from pynmeagps.exceptions import NMEAMessageError, NMEAParseError, NMEAStreamError, NMEATypeError

USERDEF = {"ZZZ": {"aa": "CH", "bb": "IN"}}

# first letters of talker ids
LETTERS = b"ABCDEFGHILMNPRSTUVWYZ"
HEADS = [bytes([c]) for c in LETTERS]


# ---------------------------------------------------------- specification
def outcome(raw, mode, validate, user):
    """0 parsed (to a message or None), else number of the error"""
    try:
        NMEAReader.parse(raw, msgmode=mode, validate=validate, userdefined=user)
    except NMEAParseError:
        return 1
    except NMEATypeError:
        return 2
    except NMEAMessageError:
        return 3
    return 0


EOF, SENTENCE, RAISED = 0, 1, 2
PARSE_ERR, TYPE_ERR, MESSAGE_ERR, STREAM_ERR = 1, 2, 3, 4
ERRS = {NMEAParseError: 1, NMEATypeError: 2, NMEAMessageError: 3, NMEAStreamError: 4}


@tail(("bytes", "int", "int", "int", "int", "val", "int", "bool", "bool"), ("int", "bytes", "int", "bytes", "int", "int"),
      cuts=2)
def reading(rest, handled, logged, mode, validate, user, quit, nmeaonly, handler):
    """next result of reading `rest`: (kind, sentence, error, rest, handled, logged)"""
    if len(rest) == 0:
        return True, (EOF, b"", 0, rest, handled, logged)
    if rest[:1] != b"$":        # not a sentence: skipped
        return False, (rest[1:], handled, logged, mode, validate, user, quit, nmeaonly, handler)
    if len(rest) == 1:
        return True, (EOF, b"", 0, b"", handled, logged)
    if rest[1:2] == b"$":
        if not nmeaonly:        # stray $
            return False, (rest[1:], handled, logged, mode, validate, user, quit, nmeaonly, handler)
    tail = rest[2:]
    if rest[1:2] not in HEADS:
        if not nmeaonly:
            return False, (tail, handled, logged, mode, validate, user, quit, nmeaonly, handler)
        raw, err = b"", PARSE_ERR
    else:
        if len(tail) == 0:
            return True, (EOF, b"", 0, tail, handled, logged)
        line, newline, tail = tail.partition(b"\n")
        if newline == b"":      # truncated
            raw, err = b"", STREAM_ERR
        else:
            raw = rest[:2] + line + newline
            err = outcome(raw, mode, validate, user)
            if err == 0:
                return True, (SENTENCE, raw, 0, tail, handled, logged)
    if quit == 2:
        return True, (RAISED, b"", err, tail, handled, logged)
    if quit == 1:
        if handler:
            return False, (tail, handled + 1, logged, mode, validate, user, quit, nmeaonly, handler)
        return False, (tail, handled, logged + 1, mode, validate, user, quit, nmeaonly, handler)
    return False, (tail, handled, logged, mode, validate, user, quit, nmeaonly, handler)


# ------------------------------------------------------------- real reader
class Counting(logging.Handler):
    def __init__(self):
        super().__init__()
        self.count = 0

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.count += 1


COUNTING = Counting()


def logged_now():
    """records logged so far by the library at warning level or above"""
    root = logging.getLogger()
    if COUNTING not in root.handlers:
        root.addHandler(COUNTING)
    logging.disable(logging.NOTSET)
    return COUNTING.count


def _logged_now(en, args, kw):
    return en.ghost["logger"].f["count"]


def real_read(reader, how):
    try:
        if how == "read":
            raw, msg = reader.read()
        else:
            try:
                raw, msg = reader.__next__()
            except StopIteration:
                return EOF, b"", 0, None
    except NMEAParseError:
        return RAISED, b"", PARSE_ERR, None
    except NMEATypeError:
        return RAISED, b"", TYPE_ERR, None
    except NMEAMessageError:
        return RAISED, b"", MESSAGE_ERR, None
    except NMEAStreamError:
        return RAISED, b"", STREAM_ERR, None
    if raw is None and msg is None:
        return EOF, b"", 0, None
    return SENTENCE, raw, 0, msg


def parse_opaque(en, args, kw):
    """NMEAReader.parse used by contract: a function of its arguments; a message,
    None or a documented error (C02, C13)"""
    from pyvc.core import INT, ObjSort, Raised, SExc, SOpaque
    from pyvc.interp import SObj
    import z3
    a = opaque.bind(NMEAReader.parse, args, kw)
    terms = []
    for n in ("message", "msgmode", "validate", "userdefined"):
        terms += opaque.arg_terms(en, a[n])
    opaque.status_fn(en, "parse", terms, (NMEAParseError, NMEATypeError))
    if en.branch(z3.Function("parse_none", *[t.sort() for t in terms], z3.BoolSort())(*terms)):
        return None
    obj = SObj(NMEAMessage)
    obj.f["_id"] = SOpaque(z3.Function("parse", *[t.sort() for t in terms], ObjSort)(*terms))
    return obj


def setup(en, vals):
    from pyvc.interp import SObj
    from pyvc.pymodels import LoggerStub
    opaque.setup(en, vals)
    lg = SObj(LoggerStub)
    lg.f["count"] = 0
    en.ghost["logger"] = lg
    en.models.fn[logged_now] = _logged_now
    en.ghost["vals"] = vals


def hints(en, key, fr, seq):
    """loops that read the stream: the result of reading what is held plus the
    rest of the stream is the result the contract asked for before the call"""
    if key[1].startswith("contracts."):
        return lambda fr: []
    objs = reach(fr)
    st = [o for o in objs if o.cls is ByteStream]
    if len(st) != 1:
        return None
    st = st[0]
    hd = [o for o in objs if o.cls is Handler]
    v = en.ghost["vals"]
    cfg = [v["msgmode"], v["validate"], v["user"], v["quit"], v["nmeaonly"], v["handler"]]

    def state(prefix):
        from pyvc.core import SBytes, simp
        import z3
        rest = simp(z3.Concat(prefix, to_z(st.f["rest"], "bytes")))
        return [SBytes(rest), hd[0].f["count"] if hd else 0, en.ghost["logger"].f["count"]] + cfg

    def cands(fr):
        return [(lab, state(p)) for lab, p in locals_bytes(fr)]
    want = en.ghost["last", "reading"]

    def f(fr):
        import z3
        out = lengths(en, fr)
        for lab, s in cands(fr):
            now = reading.apply_terms(reading.terms(s))
            g = z3.And(*[a == b for a, b in zip(now, want)])
            out.append((f"reading({lab or 'nothing'} + rest) is as specified for the call", g,
                        lambda s=s: reading.unfold(en, s)))
        return out
    return f


def g_stream(rng):
    while True:
        yield dict(data=gens.stream(rng), msgmode=rng.choice([0, 0, 0, 0, 1, 2]), validate=rng.choice([0, 1, 1, 1, 3, 2]),
                   user=USERDEF if rng.random() < 0.2 else None, quit=rng.choice([0, 1, 1, 2]), nmeaonly=rng.random() < 0.25,
                   handler=rng.random() < 0.5, how=rng.choice(["read", "next"]), n=rng.choice([1, 3, 40]))


@contract("C17", "C18", inputs={"data": Bytes(), "msgmode": Int(0, 2), "validate": Int(0), "user": AnyVal(),
                                "quit": Const(0, 1, 2), "nmeaonly": Const(False, True), "handler": Const(False, True),
                                "how": Const("read", "next"), "n": Int(0)},
          gen=g_stream, setup=setup, hints=hints,
          opaque={"pynmeagps.nmeareader.NMEAReader.parse": parse_opaque})
def stream_results(data, msgmode, validate, user, quit, nmeaonly, handler, how, n):
    """every read() of a stream, whatever came before, gives what the specification of reading says"""
    stream, h = ByteStream(data), Handler()
    reader = NMEAReader(stream, msgmode=msgmode, validate=validate, nmeaonly=nmeaonly, quitonerror=quit,
                        errorhandler=h.handle if handler else None, userdefined=user)
    i = 0
    while i < n:
        i = i + 1
        kind, raw, err, rest, handled, logged = reading(stream.rest, h.count, logged_now(), msgmode, validate, user,
                                                        quit, nmeaonly, handler)
        rkind, rraw, rerr, rmsg = real_read(reader, how)
        ensure("a sentence, an error or the end exactly as specified", rkind == kind)
        ensure("raw bytes of the sentence", rraw == raw)
        ensure("error", rerr == err)
        ensure("the rest of the stream is left", stream.rest == rest)
        ensure("reports to the error handler", h.count == handled)
        ensure("reports to the log", logged_now() == logged)
        if kind == SENTENCE:
            ensure("parsed as by parse()", same_message(rmsg, NMEAReader.parse(raw, msgmode=msgmode, validate=validate,
                                                                               userdefined=user)))
        if kind == EOF:
            return None


# --------------------------------------------- streams of known composition
PLAIN = bytes(c for c in range(256) if c not in b"$")


def filler(rng):
    """bytes between sentences that are no part of one: no '$' but directly before other filler or a sentence"""
    out = b""
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        r = rng.random()
        if r < 0.3:
            out += b"$" * rng.randint(1, 3)
        elif r < 0.5:
            out += b"$" + bytes([rng.choice([c for c in PLAIN if bytes([c]) not in HEADS])])
        elif r < 0.7:
            out += rng.choice([b"\r\n", b"\n", b"!AIVDM,1,1,,A,1*00\r\n", b"\xb5\x62\x05\x01\x02\x00\x06\x01\x0f\x38", b"\xd3\x00\x13\x3e", b"GPGGA,1,2*00\r\n"])
        else:
            out += bytes(rng.choice(PLAIN) for _ in range(rng.randint(1, 12)))
    # nothing that reads as the start of a sentence
    return re.sub(rb"\$+([" + LETTERS + rb"])", rb".\1", out)


def bad_line(rng):
    """a line that starts like a sentence"""
    r = rng.random()
    s = gens.sentence(rng, 0)
    if r < 0.4:
        return gens.recheck(s, rng).replace(b"$", b"$", 1)
    if r < 0.7:
        return b"$GPGGA," + bytes(rng.choice(b"0123abz.,*-") for _ in range(rng.randint(0, 20))) + b"\r\n"
    if r < 0.8:
        return b"$GN" + bytes(rng.choice([c for c in PLAIN if c != 10]) for _ in range(rng.randint(0, 9))) + b"\n"
    return b"$GPZZ" + rng.choice([b"X", b"Y", b"Z"]) + b",1,2*" + rng.choice([b"00", b"5F", b"6A"]) + b"\r\n"


def g_known(rng):
    while True:
        items = []
        mode = rng.choice([0, 0, 0, 1, 2])
        for _ in range(rng.choice([1, 2, 3, 6, 30])):
            if rng.random() < 0.5:
                items.append((0, filler(rng)))
            items.append((1, gens.sentence(rng, mode)) if rng.random() < 0.8 else (2, bad_line(rng)))
        if rng.random() < 0.03:
            items += [rng.choice([(0, filler(rng)), (1, gens.sentence(rng, mode)), (2, bad_line(rng))])] * rng.choice([20, 70, 140, 300, 1100])
            items.append((1, gens.sentence(rng, mode)))
        cut = b"" if rng.random() < 0.6 else gens.sentence(rng, mode)[:-rng.randint(1, 40)]
        yield dict(items=items, cut=cut, mode=mode, validate=rng.choice([0, 1, 1, 1, 3]), quit=rng.choice([0, 1, 1, 2]),
                   handler=rng.random() < 0.5, how=rng.choice(["for", "read", "next"]),
                   source=rng.choice(["bytesio", "buffered", "socket", "chunked"]), bits=rng.getrandbits(64))


class Sock(socket.socket):
    """a socket that delivers given segments"""

    def __init__(self, data, rng):
        super().__init__()
        self.data, self.rng = data, rng

    def recv(self, n, flags=0):
        k = self.rng.choice([1, 2, 3, 7, 50, 500])
        k = min(k, n)
        res, self.data = self.data[:k], self.data[k:]
        return res


def source(data, kind, rng):
    if kind == "bytesio":
        return io.BytesIO(data), 0
    if kind == "buffered":
        return io.BufferedReader(io.BytesIO(data), rng.choice([1, 16, 8192])), 0
    if kind == "chunked":
        out, i = b"", 0
        while i < len(data):
            k = rng.choice([1, 5, 16, 60, 300])
            b = data[i:i + k]
            out += b"%x\r\n" % len(b) + b + b"\r\n"
            i += k
        return Sock(out + b"0\r\n\r\n", rng), 1
    return Sock(data, rng), 0


@contract("C17", "C18", "C19", "C20", gen=g_known, native_only=True)
def known_stream(items, cut, mode, validate, quit, handler, how, source, bits):
    """a stream put together from sentences, bad lines and other bytes: results, errors and reports in order"""
    rng = random.Random(bits)
    data = b"".join(b for _, b in items) + cut
    events, dirty = [], False
    for kind, b in items:
        if kind == 0:
            continue
        if source in ("socket", "chunked") and b[-2:] != b"\r\n":
            raise AssumeFailed()            # a socket's lines end with CRLF
        err = outcome(b, mode, validate, None)
        if kind == 1:
            ensure("a valid sentence is parsed", err != 1 or validate & 2)
        if err == 0:
            events.append(("s", b))
        elif quit:
            events.append(("e", err))
    got = []
    stream, enc = globals()["source"](data, source, rng)
    reader = NMEAReader(stream, msgmode=mode, validate=validate, quitonerror=quit, encoding=enc,
                        errorhandler=(lambda e: got.append(("e", ERRS.get(type(e))))) if handler else None)
    log0 = logged_now()
    if quit == 2:
        while True:
            try:
                raw, msg = reader.read() if how == "read" else next(reader)
            except StopIteration:
                break
            except (NMEAParseError, NMEATypeError, NMEAMessageError, NMEAStreamError) as e:
                got.append(("e", ERRS[type(e)]))
                continue
            if raw is None and msg is None:
                break
            got.append(("s", raw))
    elif how == "for":
        for raw, msg in reader:
            got.append(("s", raw))
            ensure("parsed as by parse()", same_message(msg, NMEAReader.parse(raw, msgmode=mode, validate=validate)))
    else:
        while True:
            raw, msg = reader.read()
            if raw is None and msg is None:
                break
            got.append(("s", raw))
            ensure("parsed as by parse()", same_message(msg, NMEAReader.parse(raw, msgmode=mode, validate=validate)))
    if isinstance(stream, Sock):
        stream.close()
    logs = logged_now() - log0
    if cut:                                 # truncated data may be reported, as an error
        tail_err = [("e", STREAM_ERR)] if quit == 2 or (quit == 1 and handler) else []
        if got == events + tail_err or (quit == 1 and not handler):
            got = got[:len(got) - len(tail_err)] if got == events + tail_err else got
            logs = min(logs, len([e for e in events if e[0] == "e"])) if quit == 1 and not handler else logs
    errors = [e for e in events if e[0] == "e"]
    if quit == 1 and not handler:
        ensure("one log record for each error", logs == len(errors))
        events = [e for e in events if e[0] != "e"]
    else:
        ensure("nothing is logged", logs == 0)
    ensure("sentences, and errors, in order", got == events)
