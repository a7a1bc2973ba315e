"""SocketWrapper: transparent delivery of the received bytes."""

import socket
import zlib

import z3

from contracts import gens
from pyvc.core import SBytes, SInt, simp, to_z
from pyvc.harness import Bytes, Int, IntList, assume, contract, ensure
from pyvc.pymodels import SocketStub
from pyvc.recur import fields_bytes, locals_bytes, reach, tail
from pynmeagps import NMEAReader
from pynmeagps.socketwrapper import SocketWrapper


def g_socket(rng):
    while True:
        data = gens.stream(rng) if rng.random() < 0.6 else bytes(rng.choice(b"\r\n\r\nab") for _ in range(rng.randint(0, 30)))
        if rng.random() < 0.03:    # much data
            data = (data + b"x" * rng.randint(0, 40) + rng.choice([b"", b"\r\n"])) * rng.choice([20, 100, 300])
        style = rng.random()
        cuts = []
        left = len(data)
        while left > 0 or rng.random() < 0.5:
            r = rng.random()
            if r < 0.12:
                cuts.append(rng.choice([-1, -2, 0]))
                continue
            n = 1 if style < 0.3 else rng.randint(1, 5) if style < 0.6 else rng.randint(1, 60) if style < 0.9 else rng.randint(1, 9000)
            cuts.append(n)
            left -= n
        yield {"data": data, "cuts": cuts, "bufsize": rng.choice([1, 2, 7, 4096]),
               "ops": [rng.choice([-1, -1, 0, 1, 1, 2, 3, 7, 20]) if rng.random() < 0.98 else rng.choice([100, 1500, 5000])
                       for _ in range(rng.choice([1, 3, 10, 60, 300]))]}


@tail(("bytes", "bytes"), ("bytes", "bytes"), cuts=1, at=1)
def nextline(line, rest):
    """(line up to CRLF or the end, what follows)"""
    if len(rest) == 0:
        return True, (line, rest)
    if line.endswith(b"\r") and rest[:1] == b"\n":
        return True, (line + rest[:1], rest[1:])
    return False, (line + rest[:1], rest[1:])


def hints(en, key, fr, seq):
    """loops that receive: what the code holds, what is buffered and what is still to come make up what they did at loop
    entry, and the rest of the line is that of the line asked for"""
    def ints(fr):
        return [(f"{n} >= 0", z3.BoolVal(v >= 0) if isinstance(v, int) else v.z >= 0)
                for n, v in sorted(fr.env.items()) if isinstance(v, SInt) or type(v) is int]
    if key[1].startswith("contracts."):
        return ints
    objs = reach(fr)
    if len([o for o in objs if o.cls is SocketStub]) != 1:
        return None

    def state(fr):
        st = [o for o in reach(fr) if o.cls is SocketStub][0]
        sw = [o for o in reach(fr) if o.cls is SocketWrapper][0]
        return st, sw

    def cands(fr):
        st, sw = state(fr)
        return [(f"{la or 'nothing'} + {lb or 'nothing'} + rest", simp(z3.Concat(a, b, to_z(st.f["rest"], "bytes"))))
                for la, a in locals_bytes(fr, 1) for lb, b in fields_bytes(sw, 1)]
    entry = dict(cands(fr))
    want = en.ghost.get(("last", "nextline"))

    def f(fr):
        out = [(f"{lab} is what it was", g == entry[lab]) for lab, g in cands(fr) if lab in entry]
        st, sw = state(fr)
        for la, a in locals_bytes(fr, 1):
            out.append((f"{la or 'nothing'} does not end with CRLF", z3.Not(z3.SuffixOf(z3.StringVal("\r\n"), a))))
        if want is not None:
            for la, a in locals_bytes(fr, 1):
                for lb, b in fields_bytes(sw, 1):
                    s = [SBytes(simp(a)), SBytes(simp(z3.Concat(b, to_z(st.f["rest"], "bytes"))))]
                    now = nextline.apply_terms(nextline.terms(s))
                    out.append((f"the line is {la or 'nothing'} and the next of {lb or 'nothing'} + rest",
                                z3.And(*[x == y for x, y in zip(now, want)]), lambda s=s: nextline.unfold(en, s)))
        return out + ints(fr)
    return f


@contract("C19", inputs={"data": Bytes(), "cuts": IntList(), "bufsize": Int(1), "ops": IntList()}, gen=g_socket, hints=hints)
def transparent(data, cuts, bufsize, ops):
    """every read and readline, whatever came before, takes its bytes from the front of what is buffered and to come"""
    sock = SocketStub(data, cuts)
    sw = SocketWrapper(sock, bufsize=bufsize)
    ensure("nothing is lost on opening", bytes(sw.buffer) + sock.rest == data)
    i = 0
    while i < len(ops):
        op = ops[i]
        i = i + 1
        pending = bytes(sw.buffer) + sock.rest
        sock.failed = False
        if op >= 0:
            res = sw.read(op)
            ensure("read: the next bytes, and no others, are taken", res + bytes(sw.buffer) + sock.rest == pending)
            if len(res) != op:
                ensure("read: short only at end of data or timeout, with nothing taken",
                       len(res) == 0 and sock.failed and len(sw.buffer) < op)
        else:
            line, rest = nextline(b"", pending)
            res = sw.readline()
            left = bytes(sw.buffer) + sock.rest
            if res[-2:] == b"\r\n":
                ensure("readline: the next line is taken", res == line and left == rest)
            else:
                ensure("readline: short only at end of data or timeout", sock.failed and len(sw.buffer) == 0)
                ensure("readline: the next bytes, and no others, are taken", res + left == pending)
                line2, rest2 = nextline(res, left)
                ensure("readline: nothing is taken beyond the line", line2 == line and rest2 == rest)
        ensure("bytes waiting", sw.in_waiting() == len(sw.buffer))


def g_write(rng):
    while True:
        yield {"data": bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 30))), "flags": rng.choice([0, 1, 64])}


@contract("C19", inputs={"data": Bytes(), "flags": Int()}, gen=g_write)
def written(data, flags):
    """data written reaches the socket unchanged"""
    sock = SocketStub(b"", [])
    sw = SocketWrapper(sock)
    n = sw.write(data, flags=flags)
    ensure("data sent", sock.sent == data)
    ensure("keyword arguments passed on", sock.sentkw["flags"] == flags)
    ensure("result of send returned", n == len(data))
