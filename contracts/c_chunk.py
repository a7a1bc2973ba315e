"""SocketWrapper.dechunk: chunked transfer encoding."""

import zlib

import z3

from contracts import gens
from pyvc.core import STR, SBytes, SInt, simp, to_z
from pyvc.harness import Bytes, Const, Int, IntList, assume, contract, ensure
from pyvc.pymodels import ByteStream, SocketStub
from pyvc.recur import fields_bytes, isbytes, locals_bytes, reach, tail, unfold
from pynmeagps.socketwrapper import SocketWrapper

CHUNKED, GZIP, COMPRESS, DEFLATE = 1, 2, 4, 8
WBITS = {GZIP: zlib.MAX_WBITS | 16, COMPRESS: zlib.MAX_WBITS, DEFLATE: -zlib.MAX_WBITS}


def body_of(chunk, encoding):
    """the data a chunk body denotes (data that cannot be decompressed stays as it is)"""
    try:
        if encoding & GZIP:
            chunk = zlib.decompress(chunk, wbits=zlib.MAX_WBITS | 16)
        if encoding & COMPRESS:
            chunk = zlib.decompress(chunk, wbits=zlib.MAX_WBITS)
        if encoding & DEFLATE:
            chunk = zlib.decompress(chunk, wbits=-zlib.MAX_WBITS)
    except zlib.error:
        pass
    return chunk


@tail(("bytes", "bytes", "int"), ("bool", "bytes"), inline=True)
def unchunk(rest, out, encoding):
    """(well formed as far as it goes, decoded data)"""
    if rest == b"" or rest == b"\n" or rest == b"\r\n":      # end, or remains of the last chunk
        return True, (True, out)
    line, newline, after = rest.partition(b"\n")
    if newline == b"":
        return True, (True, out)
    line = line + newline
    if line[-2:] != b"\r\n":
        return True, (False, out)
    try:
        size = int(line.partition(b";")[0].strip(), 16)
    except ValueError:
        return True, (False, out)
    if size < 0:
        return True, (False, out)
    if size == 0:
        return True, (after == b"" or after == b"\r" or after == b"\r\n", out)
    if len(after) < size:
        return True, (True, out)
    body = after[:size]
    after = after[size:]
    if len(after) < 2:
        return True, (True, out)
    if after[:2] != b"\r\n":
        return True, (False, out)
    return False, (after[2:], out + body_of(body, encoding), encoding)


def setup(en, vals):
    en.lines = True
    en.ghost["vals"] = vals


def hints(en, key, fr, seq):
    """loop over chunks: what has been decoded and what is left decode to what the segment does"""
    if key[1].startswith("contracts."):
        return lambda fr: []
    if len([o for o in reach(fr) if o.cls is ByteStream]) != 1:
        return None
    v = en.ghost["vals"]
    want = en.ghost["last", "unchunk"]

    def f(fr):
        out = []
        st = [o for o in reach(fr) if o.cls is ByteStream][0]
        rest = SBytes(simp(z3.Concat(to_z(st.f["rest"], "bytes"), to_z(v["later"], "bytes"))))
        for n, a in sorted(fr.env.items()):
            if isbytes(a):
                out.append((f"{n} is empty", to_z(a, "bytes") == z3.StringVal("")))
        for la, a in locals_bytes(fr, 1, skip=("segment",)):
            s = [rest, SBytes(simp(z3.Concat(to_z(v["earlier"], "bytes"), a))), v["encoding"]]
            now = unchunk.apply_terms(unchunk.terms(s))
            out.append((f"the rest decodes after {la or 'nothing'} to what the segment does",
                        z3.And(*[x == y for x, y in zip(now, want)]), lambda s=s: unchunk.unfold(en, s)))
        return out
    return f


def chunk(rng, body, encoding):
    z = body
    if encoding & DEFLATE:
        c = zlib.compressobj(wbits=WBITS[DEFLATE])
        z = c.compress(z) + c.flush()
    if encoding & COMPRESS:
        z = zlib.compress(z)
    if encoding & GZIP:
        c = zlib.compressobj(wbits=WBITS[GZIP])
        z = c.compress(z) + c.flush()
    if rng.random() < 0.06:
        z = body        # cannot be decompressed
    if not z:
        return b""
    size = rng.choice(["%x", "%X", "0%x", "%x ", "%x;ext", "%x;a=\"b\"", "00%X", "%x"]) % len(z)
    return size.encode() + b"\r\n" + z + b"\r\n"


def bodies(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 6]) if rng.random() < 0.97 else rng.choice([40, 150])):
        r = rng.random()
        if r < 0.01:
            out.append(rng.choice([b"x", b"\r\n", b"0\r\n\r\n"]) * rng.choice([128, 255, 256, 257, 2048, 4095, 4096, 4097, 20000]))
        elif r < 0.4:
            out.append(gens.sentence(rng))
        elif r < 0.7:
            out.append(bytes(rng.choice(b"\r\n05a;$\n\r") for _ in range(rng.randint(1, 20))))
        else:
            out.append(bytes(rng.randint(0, 255) for _ in range(rng.choice([1, 2, 9, 10, 15, 16, 17, 31, 200]))))
    return out


def chunked(rng, encoding, bs):
    data = b"".join(chunk(rng, b, encoding) for b in bs)
    if rng.random() < 0.5:
        data += b"0\r\n" + rng.choice([b"\r\n", b"\r\n", b""])
    return data


def g_dechunk(rng):
    while True:
        enc = rng.choice([1, 1, 1, 3, 5, 9, 11, 0, 2])
        data = chunked(rng, enc, bodies(rng))
        if rng.random() < 0.2 and data:
            data = data[:rng.randint(0, len(data))]
        cut = rng.randint(0, len(data))
        yield {"segment": data[:cut], "later": data[cut:], "earlier": rng.choice([b"", b"abc"]), "encoding": enc}


@contract("C20", inputs={"segment": Bytes(), "later": Bytes(), "earlier": Bytes(), "encoding": Const(1, 3, 5, 7, 9, 11, 13, 15)}, gen=g_dechunk,
          hints=hints, setup=setup)
def dechunked(segment, later, earlier, encoding):
    """one segment of a well formed stream, whatever came earlier and comes later"""
    ok, out = unchunk(segment + later, earlier, encoding)
    assume(ok)
    sw = SocketWrapper(SocketStub(b"", []), encoding=encoding)
    chunks, partial = sw.dechunk(segment)
    ok2, out2 = unchunk(partial + later, earlier + chunks, encoding)
    unfold(unchunk, partial + later, earlier + chunks, encoding)
    ensure("what is kept of the segment decodes, with what comes later, to the rest of the data", out2 == out)
    ensure("and is well formed with it", ok2)
    ok3, out3 = unchunk(partial, earlier + chunks, encoding)
    unfold(unchunk, partial, earlier + chunks, encoding)
    ensure("nothing that is complete is kept back", out3 == earlier + chunks)


# ------------------------------------------------------ histories of reads
def held(en):
    """(taken so far + what a caller holds + what a field holds): what may have been decoded before"""
    st = [o for f in en.frames for o in reach(f) if o.cls is SocketStub][0]
    sw = [o for f in en.frames for o in reach(f) if o.cls is SocketWrapper][0]
    taken = to_z(st.f["taken"], "bytes")
    out = {}
    for f in en.frames:
        if f.qual.startswith("contracts."):
            continue
        for la, a in locals_bytes(f, 1):
            for lb, b in fields_bytes(sw, 1):
                e = simp(z3.Concat(taken, a, b))
                out[e.get_id()] = e
    return list(out.values()), st


def dechunk_contract(en, args, kw):
    """dechunked, above, for what is still to come and everything that may have come before"""
    segment = to_z(args[1] if len(args) > 1 else kw["segment"], "bytes")
    enc = en.ghost["vals"]["encoding"]
    chunks, partial = SBytes(en.fresh("chunks", STR)), SBytes(en.fresh("partial", STR))
    es, st = held(en)
    later = to_z(st.f["rest"], "bytes")
    run = lambda r, o: unchunk.apply_terms(unchunk.terms([SBytes(simp(r)), SBytes(simp(o)), enc]))
    for e in es:
        ok, out = run(z3.Concat(segment, later), e)
        ok2, out2 = run(z3.Concat(partial.z, later), z3.Concat(e, chunks.z))
        ok3, out3 = run(partial.z, z3.Concat(e, chunks.z))
        en.assume(z3.Implies(ok, z3.And(ok2, out2 == out, out3 == simp(z3.Concat(e, chunks.z)))))
    return chunks, partial


def hints2(en, key, fr, seq):
    """loops that receive: what was taken, what the code holds and what is buffered, followed by the rest of the stream
    (undecoded), decode to what the whole stream does"""
    inner = not key[1].startswith("contracts.")
    if inner and len([o for o in reach(fr) if o.cls is SocketStub]) != 1:
        return None
    v = en.ghost["vals"]
    want = en.ghost["last", "unchunk"]

    def f(fr):
        st = [o for o in reach(fr) if o.cls is SocketStub][0]
        sw = [o for o in reach(fr) if o.cls is SocketWrapper][0]
        rest, taken = to_z(st.f["rest"], "bytes"), to_z(st.f["taken"], "bytes")
        out = [(f"{n} >= 0", z3.BoolVal(x >= 0) if isinstance(x, int) else x.z >= 0)
               for n, x in sorted(fr.env.items()) if isinstance(x, SInt) or type(x) is int]
        hold = {"": z3.StringVal("")}
        for g in en.frames:
            if not g.qual.startswith("contracts."):
                hold.update(locals_bytes(g, 1))
        for la, a in sorted(hold.items()):
            for lp, p in fields_bytes(sw, 1):
                for lb, b in fields_bytes(sw, 1):
                    if not lp or lp == lb:
                        continue
                    o = simp(z3.Concat(taken, a, b))
                    run = lambda r: unchunk.apply_terms(unchunk.terms([SBytes(simp(r)), SBytes(o), v["encoding"]]))
                    if simp(p).eq(z3.StringVal("")):
                        en.assume(run(p)[1] == o)       # by definition
                    out.append((f"{lp} + rest decodes after taken + {la or 'nothing'} + {lb or 'nothing'} as the stream does",
                                z3.And(*[x == y for x, y in zip(run(z3.Concat(p, rest)), want)])))
                    out.append((f"{lp} is no complete chunk after {la or 'nothing'} + {lb or 'nothing'}", run(p)[1] == o))
        return out
    return f


def g_history(rng):
    while True:
        enc = rng.choice([1, 1, 1, 3, 5, 9, 11])
        data = chunked(rng, enc, bodies(rng))
        if rng.random() < 0.2 and data:
            data = data[:rng.randint(0, len(data))]
        cuts, left, style = [], len(data), rng.random()
        while left > 0:
            if rng.random() < 0.1:
                cuts.append(rng.choice([-1, -2, 0]))
                continue
            n = 1 if style < 0.3 else rng.randint(1, 5) if style < 0.6 else rng.randint(1, 60) if style < 0.9 else rng.randint(1, 9000)
            cuts.append(n)
            left -= n
        yield {"data": data, "cuts": cuts, "bufsize": rng.choice([1, 3, 4096]), "encoding": enc,
               "ops": [rng.choice([-1, -1, 0, 1, 1, 2, 3, 7, 20]) for _ in range(rng.choice([1, 3, 10, 60]))] + [5000] * len(cuts)}


@contract("C20", inputs={"data": Bytes(), "cuts": IntList(), "bufsize": Int(1), "encoding": Int(1, 15),
                         "ops": IntList()}, gen=g_history, hints=hints2, setup=setup,
          opaque={"pynmeagps.socketwrapper.SocketWrapper.dechunk": dechunk_contract})
def chunked_reads(data, cuts, bufsize, encoding, ops):
    """any reads of a chunked stream, however it is cut into segments, give its decoded data in order"""
    assume(encoding & CHUNKED)
    ok, want = unchunk(data, b"", encoding)
    assume(ok)
    unfold(unchunk, b"", b"", encoding)
    sock = SocketStub(data, cuts)
    sw = SocketWrapper(sock, encoding=encoding, bufsize=bufsize)
    i = 0
    while i < len(ops):
        op = ops[i]
        i = i + 1
        if op >= 0:
            res = sw.read(op)
        else:
            res = sw.readline()
        sock.taken = sock.taken + res
    if len(sock.rest) == 0:
        ensure("what was read and is buffered is the decoded data", sock.taken + bytes(sw.buffer) == want)
