"""Input generators for the native runs (never used by the proofs)."""

import ast
import glob
import os
import random
import string

import pynmeagps
import pynmeagps.nmeatypes_core as nmt
import pynmeagps.nmeatypes_get as nmg
import pynmeagps.nmeatypes_get_prop as nmgp
import pynmeagps.nmeatypes_poll as nmp
import pynmeagps.nmeatypes_poll_prop as nmpp
import pynmeagps.nmeatypes_set as nms
import pynmeagps.nmeatypes_set_prop as nmsp

SRC = os.path.dirname(pynmeagps.__file__)


def literals():
    """string and number literals in the source (search dictionary)"""
    strs, nums = set(), set()
    for f in glob.glob(SRC + "/*.py"):
        b = os.path.basename(f)
        if b.startswith("nmeatypes_") and b != "nmeatypes_core.py":
            continue
        with open(f, encoding="utf-8") as h:
            tree = ast.parse(h.read())
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(
                    n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 24:
                    strs.add(v)
                elif isinstance(v, bytes) and v:
                    strs.add(v.decode("latin-1"))
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    nums.add(v)
    return sorted(strs), sorted(nums)


STRS, NUMS = literals()

TABLES = {
    0: [(k, v) for t in (nmg.NMEA_PAYLOADS_GET, nmgp.NMEA_PAYLOADS_GET_PROP) for k, v in t.items()],
    1: [(k, v) for t in (nms.NMEA_PAYLOADS_SET, nmsp.NMEA_PAYLOADS_SET_PROP) for k, v in t.items()],
    2: [(k, v) for t in (nmp.NMEA_PAYLOADS_POLL, nmpp.NMEA_PAYLOADS_POLL_PROP) for k, v in t.items()],
}

TALKERS = ["GN", "GP", "GL", "GA", "GB", "GQ", "AI", "II", "WI"]


def xor_ck(content):
    c = 0
    for ch in content:
        c ^= ord(ch)
    return "%02X" % c


def field(att, rng):
    """a valid text of attribute type att"""
    r = rng.random()
    if att in ("CH", "ST", "QS"):
        if r < 0.15:
            return ""
        if r < 0.3:
            return rng.choice(["A", "V", "OK", "ERROR", "N", "W", "R", "M", "0", "1", "ALERT", "5.2"])
        return "".join(rng.choice(string.ascii_letters + string.digits + " .-_/[]") for _ in range(rng.randint(1, 9)))
    if att == "LAD":
        return rng.choice(["N", "S", "N", "S", "", "n", "s", "E"])
    if att == "LND":
        return rng.choice(["E", "W", "E", "W", "", "e", "w", "N"])
    if att == "HX":
        return "".join(rng.choice("0123456789ABCDEF") for _ in range(rng.randint(1, 8))) if r > .1 else ""
    if att == "DE":
        if r < 0.1:
            return ""
        return rng.choice([str(rng.randint(-999, 999)), f"{rng.uniform(-1000, 1000):.{rng.randint(0, 6)}f}", "0", "0.0", "-0.5"])
    if att == "IN":
        return "" if r < 0.08 else str(rng.choice([0, 1, 2, 3, rng.randint(0, 99), rng.randint(-50, 2000), rng.randint(0, 10**6)]))
    if att == "LA":
        if r < 0.08:
            return ""
        return f"{rng.randint(0, 90):02d}{rng.uniform(0, 59.9999):0{rng.choice([8, 10, 7])}.{rng.choice([5, 7, 4])}f}"
    if att == "LN":
        if r < 0.08:
            return ""
        return f"{rng.randint(0, 180):03d}{rng.uniform(0, 59.9999):0{rng.choice([8, 10, 7])}.{rng.choice([5, 7, 4])}f}"
    if att == "TM":
        if r < 0.08:
            return ""
        t = f"{rng.randint(0, 23):02d}{rng.randint(0, 59):02d}{rng.randint(0, 59):02d}"
        return t + rng.choice(["", ".00", ".123", ".5", ".99"])
    if att in ("DT", "DTL", "DM"):
        if r < 0.08:
            return ""
        d, m, y = rng.randint(1, 28), rng.randint(1, 12), rng.randint(1970, 2060)
        if att == "DM":
            return f"{m:02d}{d:02d}{y % 100:02d}"
        if att == "DTL":
            return f"{d:02d}{m:02d}{y:04d}"
        return f"{d:02d}{m:02d}{y % 100:02d}"
    return "0"


def payload_for(pdict, rng, trunc=0.1, reps=None):
    """payload fields following a definition"""
    out = []
    vals = {}

    def go(d):
        for k, a in d.items():
            if isinstance(a, tuple):
                num, sub = a
                if isinstance(num, int):
                    n = num
                elif num == "None":
                    n = rng.choice([0, 1, 2, 3, 4, 12]) if reps is None else reps
                else:
                    n = vals.get(num, 0)
                for _ in range(n):
                    go(sub)
            else:
                f = field(a, rng)
                if k in counters:
                    f = str(rng.choice([0, 1, 2, 3, 4, 5]) if reps is None else reps)
                    vals[k] = int(f)
                out.append(f)
    counters = set()

    def coll(d):
        for k, a in d.items():
            if isinstance(a, tuple):
                if isinstance(a[0], str) and a[0] != "None":
                    counters.add(a[0])
                coll(a[1])
    coll(pdict)
    go(pdict)
    if rng.random() < trunc and out:
        out = out[:rng.randint(0, len(out))]
    elif rng.random() < 0.05:
        out = out + ["extra"]
    return out


def split_key(key, rng=None):
    """(talker, msgID, first payload fields) of a definition key"""
    if key in nmt.NMEA_MSGIDS:
        return None, key, []
    if key in nmt.NMEA_MSGIDS_PROP and not any(key.startswith(p) for p in nmt.NMEA_PREFIX_PROP):
        return "P", key, []
    for p in sorted(nmt.NMEA_PREFIX_PROP, key=len, reverse=True):
        if key.startswith(p) and len(key) > len(p):
            return "P", p, [key[len(p):]]
    if key in nmt.NMEA_MSGIDS_PROP:
        return "P", key, []
    for sfx in range(1, 12):
        base = key[:-sfx]
        if base in nmt.NMEA_MSGIDS_PROP:
            return "P", base, []
    return "P", key, []


def message_parts(rng, mode=0, key=None, trunc=0.1, reps=None):
    """(talker, msgid, payload, key)"""
    if key is None:
        key, pdict = rng.choice(TABLES[mode])
    else:
        pdict = dict(TABLES[mode])[key]
    t, m, first = split_key(key)
    if t is None:
        t = rng.choice(TALKERS)
    p = payload_for(pdict, rng, trunc, reps)
    if first:
        # variant suffixes (QTMCFGUART_BAUD ..) are not part of the msgId field
        mid = first[0].split("_")[0]
        if p:
            p[0] = mid
        else:
            p = [mid]
    return t, m, p, key


def sentence(rng, mode=0, key=None, trunc=0.1):
    t, m, p, _ = message_parts(rng, mode, key, trunc)
    content = ",".join([t + m] + p)
    return f"${content}*{xor_ck(content)}\r\n".encode()


NASTY = list("$*,\r\n!P ") + ["", "**", "$$", ",,", "\r\n", "\u00b0", "P", "GN", "*0", "A", "0", "\x00", "\x7f"]


def noise_text(rng, n=12):
    out = ""
    for _ in range(rng.randint(0, n)):
        r = rng.random()
        if r < 0.4:
            out += rng.choice(NASTY)
        elif r < 0.55:
            out += rng.choice(STRS)
        else:
            out += rng.choice(string.printable)
    return out


def mutate_bytes(b, rng):
    b = bytearray(b)
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        i = rng.randint(0, max(len(b) - 1, 0))
        if r < 0.35 and b:
            b[i] = rng.choice([rng.randint(0, 255), ord(rng.choice("$*,\r\nP09AZaz"))])
        elif r < 0.55 and b:
            del b[i]
        elif r < 0.75:
            b.insert(i, rng.choice([rng.randint(0, 255), ord(rng.choice("$*,\r\n"))]))
        elif r < 0.85:
            b = b[:i]
        else:
            b += rng.choice([b"\r\n", b"$", b"*", b"\n", b"\x00"])
    return bytes(b)


def any_message(rng):
    r = rng.random()
    if r < 0.45:
        return sentence(rng, rng.choice([0, 0, 0, 1, 2]))
    if r < 0.8:
        return mutate_bytes(sentence(rng, rng.choice([0, 0, 1, 2])), rng)
    if r < 0.9:
        return noise_text(rng).encode("utf-8", "replace")
    return bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 20)))


def junk(rng):
    """bytes found between sentences"""
    r = rng.random()
    if r < 0.2:
        return b"$" * rng.randint(1, 3)
    if r < 0.35:
        return rng.choice([b"\r\n", b"\n", b"\r", b" ", b"\xb5\x62\x05\x01\x02\x00\x06\x01\x0f\x38", b"\xd3\x00\x13$\x3e",
                           b"$X", b"$Q", b"$1", b"!AIVDM,1*00\r\n", b"$j", b"$x\r\n", b"$\n", b"$\r\n"])
    if r < 0.6:
        return bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 12)))
    if r < 0.8:
        return noise_text(rng).encode("utf-8", "replace")
    return bytes(rng.choice(b"$GPN*,\r\n0A") for _ in range(rng.randint(1, 9)))


def stream(rng):
    """a byte stream of sentences, bad sentences, junk; maybe cut short"""
    out = b""
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.5:
            out += sentence(rng, rng.choice([0, 0, 0, 0, 1, 2]))
        elif r < 0.6:
            out += mutate_bytes(sentence(rng, 0), rng)
        elif r < 0.65:
            out += user_sentence(rng)
        elif r < 0.7:
            out += sentence(rng, 0)[:-2] + b"\n"
        else:
            out += junk(rng)
    if rng.random() < 0.03:    # a long run of the same thing
        one = rng.choice([sentence(rng, 0), recheck(sentence(rng, 0), rng), mutate_bytes(sentence(rng, 0), rng), junk(rng), b"$", b"x", b"\r\n",
                          b"$GPGGA,*00\r\n", b"$G\n"])
        out += one * rng.choice([20, 70, 140, 300, 1100]) + sentence(rng, 0)
    if out and rng.random() < 0.25:
        out = out[:rng.randint(0, len(out))]
    return out


def user_sentence(rng):
    """sentence of (or near) the user defined definitions used in the contracts"""
    m = rng.choice(["ZZZ", "GGX", "ZZY"])
    content = f"{rng.choice(TALKERS)}{m},{rng.choice(['a', '', '5120.5'])},{rng.choice(['1', 'N', 'x', ''])}"
    return f"${content}*{xor_ck(content)}\r\n".encode()


def recheck(b, rng):
    """the same sentence with another checksum field"""
    i = b.rfind(b"*")
    if i < 0:
        return b
    ck = b[i + 1:i + 3].decode("latin-1")
    return b[:i + 1] + rng.choice([ck.lower(), ck[:1], "%02X" % rng.randint(0, 255), ck + "0", "", "0" + ck, " " + ck,
                                   "*" + ck, "xx"]).encode("latin-1") + b"\r\n"


def mutate_text(t, rng):
    for _ in range(rng.randint(1, 2)):
        i = rng.randint(0, len(t))
        r = rng.random()
        if r < 0.4:
            t = t[:i] + rng.choice("0123456789.-+ NSEWe") + t[i:]
        elif r < 0.7:
            t = t[:i] + t[i + 1:]
        else:
            t = t[:i] + rng.choice("0123456789.-+ NSEWx") + t[i + 1:]
    return t
