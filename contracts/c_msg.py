"""Messages: decoding, creation, identification (runs on concrete inputs against spec_msg)."""

import datetime as dt
import string

from contracts import gens, spec, spec_msg
from pyvc.harness import assume, attrs_of, contract, ensure, same_value
from pynmeagps import NMEAMessage, NMEAReader
from pynmeagps.exceptions import NMEAMessageError, NMEAParseError, NMEAStreamError, NMEATypeError
import pynmeagps.nmeatypes_core as nmt

DOCUMENTED = (NMEAMessageError, NMEAParseError, NMEAStreamError, NMEATypeError)


# ------------------------------------------------------------------- generators
ATTS = ["CH", "ST", "QS", "LAD", "LND", "HX", "DE", "IN", "LA", "LN", "TM", "DT", "DTL", "DM"]


def user_definition(rng):
    """a random well formed definition"""
    used = set()

    def name():
        while True:
            n = rng.choice(["lat", "lon", "NS", "EW", "a", "b", "num", "sv", "time", "val", "x1", "cno"]) + rng.choice(["", "", "x", "2", "z"])
            if n not in used:
                used.add(n)
                return n

    def att(n):
        if n == "lat" and rng.random() < 0.8:
            return rng.choice(["LA", "DE", "IN"])
        if n == "lon" and rng.random() < 0.8:
            return rng.choice(["LN", "DE", "IN"])
        if n == "NS":
            return "LAD"
        if n == "EW":
            return "LND"
        return rng.choice(ATTS)

    def plain(k):
        d = {}
        for _ in range(k):
            n = name()
            d[n] = att(n)
        return d

    def group(depth, last):
        ints = [n for n, a in flat.items() if a == "IN"]
        r = rng.random()
        if last and depth == 0 and r < 0.5:
            return ("None", plain(rng.randint(1, 3)))
        cnt = rng.choice(ints) if ints and r < 0.7 else rng.randint(0, 4) if r < 0.95 else 11
        d = plain(rng.randint(1, 3))
        if depth < 2 and rng.random() < 0.3:
            d[name()] = group(depth + 1, False)
            if rng.random() < 0.5:
                d.update(plain(1))
        return (cnt, d)
    flat = plain(rng.randint(0, 5))
    d = dict(flat)
    if rng.random() < 0.6:
        d[name()] = group(0, False)
        d.update(plain(rng.randint(0, 2)))
    if rng.random() < 0.5:
        d[name()] = group(0, True)
    return d


def small_counts(d, fields):
    """fields with the count attributes kept small (a huge count takes for ever)"""
    out = []
    for f in fields:
        if len(f) > 3:
            try:
                if int(f) > 300 and has_counter(d):
                    f = "2"
            except ValueError:
                pass
        out.append(f)
    return out


def has_counter(d):
    return any(isinstance(a, tuple) and (isinstance(a[0], str) and a[0] != "None" or has_counter(a[1])) for a in d.values())


def corrupt(rng, p):
    p = list(p)
    for _ in range(rng.choice([1, 1, 1, 2])):
        r = rng.random()
        i = rng.randint(0, max(len(p) - 1, 0))
        if r < 0.5 and p:
            p[i] = rng.choice(["", " ", "x", "0", "1", "7", "12", "-3", "1.5", "S", "W", "N", "E", "OK", "ERROR", "inf", "nan", "1e3", "٣", "0x1",
                               "+2", "1_0", "[1", "2]", "s", "w", "5130.0000", "00512.5", "'", '"', "\\", "é", "a'b\"c"])
        elif r < 0.65 and p:
            del p[i]
        elif r < 0.8:
            p.insert(i, rng.choice(["", "1", "S", "A", "9"]))
        elif r < 0.9:
            p = p[:i]
        else:
            p = p + [rng.choice(["", "1", "x"])] * rng.randint(1, 6)
    return p


VARIANTS = ["QTMCFGUART", "QTMCFGMSGRATE", "QTMCFGPPS", "QTMCFGSAT", "QTMCFGGEOFENCE", "QTMSN", "STMDRSENMSG", "QTMCFGODO", "QTMVERNO"]
VAR_FIRST = ["OK", "ERROR", "1", "0", "W", "R", "A", "7", "10", "30", "", "L89", "OKAY", "ok"]
PROPIDS = [k for k in nmt.NMEA_MSGIDS_PROP]
STDIDS = [k for k in nmt.NMEA_MSGIDS]


def variant_parts(rng):
    m = rng.choice(VARIANTS)
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 13, 14])
    p = [rng.choice(["1", "0", "2", "5.5", "RMC", "", "A", "115200"]) for _ in range(n)]
    if p:
        p[0] = rng.choice(VAR_FIRST)
    return "P", m, p


def msgcase(rng, m):
    r = rng.random()
    if r < 0.4:
        return m.lower()
    if r < 0.7:
        return "".join(rng.choice([c.lower(), c]) for c in m)
    return m + rng.choice(["", "X", "1", "x"])


def any_parts(rng):
    """talker, msgID, mode, payload, userdefined"""
    user = None
    mode = rng.choice([0, 0, 0, 0, 1, 1, 2])
    r = rng.random()
    if r < 0.5:
        t, m, p, _ = gens.message_parts(rng, mode, None, rng.choice([0, 0, 0.3]))
    elif r < 0.75:
        user = {}
        for _ in range(rng.choice([1, 1, 2])):
            user[rng.choice(["ZZZ", "GGX", "XYZ1", "GGA", "FOO2", "Zzy", "mymsg"])] = user_definition(rng)
        m = rng.choice(list(user))
        t = rng.choice(gens.TALKERS + ["P", "P", "XX"])
        p = small_counts(user[m], gens.payload_for(user[m], rng, 0.2))
    elif r < 0.9:
        t, m, p = variant_parts(rng)
        if rng.random() < 0.3:
            m = rng.choice(PROPIDS)
    else:
        t, m, p, _ = gens.message_parts(rng, mode)
        q = rng.random()
        if q < 0.4:
            m = msgcase(rng, m)
        elif q < 0.5:
            m = rng.choice(["", "X", "ZZZ", "ABCDEF", "P", "UBX", "ASHR", "FEC", "TNL", "SSN", "GPPADV"])
        elif q < 0.6:
            t = rng.choice(["", "P", "XX", "G", "gn"])
        elif q < 0.7:
            user = {m: user_definition(rng)}
        elif q < 0.8:
            m = rng.choice(STDIDS + PROPIDS)
        elif p:
            p[0] = rng.choice([msgcase(rng, p[0]), "", "0", "1", "A", "10", "GGK"])
    if rng.random() < 0.3:
        p = corrupt(rng, p)
        if user:
            p = small_counts(user.get(m, {}), p)
    if rng.random() < 0.02:
        p = []
    if rng.random() < 0.1:
        mode = rng.choice([0, 1, 2])
    p = [f if len(f) < 4 or not f.isdigit() or int(f) < 5000 or rng.random() < 0.5 else f[:3] for f in p]
    return t, m, mode, p, user


def safe(t, m, mode, p, user):
    """no huge repeat count (would run for ever)"""
    try:
        _, d = spec_msg.definition(m, mode, p, {}, user)
    except spec_msg.Refused:
        return True
    if d is None or not has_counter(d):
        return True
    for f in p:
        try:
            if int(f) > 400:
                return False
        except ValueError:
            pass
    return True


def g_parts(rng):
    while True:
        t, m, mode, p, user = any_parts(rng)
        if safe(t, m, mode, p, user):
            yield {"talker": t, "msgid": m, "mode": mode, "payload": p, "userdefined": user, "validate": rng.choice([0, 1, 1, 1, 2, 3])}


def build(talker, msgid, mode, payload, userdefined, validate):
    """real message or name of the error class"""
    try:
        return NMEAMessage(talker, msgid, mode, payload=list(payload), userdefined=userdefined, validate=validate), None
    except DOCUMENTED as e:
        return None, type(e).__name__


def expected(talker, msgid, mode, payload, userdefined, validate):
    """(key, attributes, known), error"""
    try:
        return spec_msg.parsed(talker, msgid, mode, payload, userdefined, validate), None
    except spec_msg.Refused as e:
        return None, e.name


def unsigned(d):
    return {k: abs(v) if k in ("lat", "lon") and isinstance(v, (int, float)) else v for k, v in d.items()}


def grouped(d):
    return any(isinstance(a, tuple) for a in d.values())


def show(got, want):
    """first difference of two attribute maps"""
    for k in list(want) + list(got):
        if k not in got or k not in want or not same_value(got[k], want[k]):
            return f"{k}: got {got.get(k, '<unset>')!r}, defined {want.get(k, '<unset>')!r}"
    return ""


def same_attrs(got, want):
    return set(got) == set(want) and all(same_value(got[k], want[k]) for k in want)


def both(talker, msgid, mode, payload, userdefined, validate, groups):
    """the real and the specified attributes (of messages with / without groups); None if refused"""
    want, werr = expected(talker, msgid, mode, payload, userdefined, validate)
    assume(werr is None)
    _, d = spec_msg.definition(msgid, mode, payload, {}, userdefined)
    assume(groups is None or groups == (d is not None and grouped(d)))
    msg, err = build(talker, msgid, mode, payload, userdefined, validate)
    ensure("decodes without error", err is None, err)
    return attrs_of(msg), want[1], msg


@contract("C06", native_only=True, gen=g_parts)
def fields_by_position(talker, msgid, mode, payload, userdefined, validate):
    got, want, _ = both(talker, msgid, mode, payload, userdefined, validate, False)
    ensure("attributes at the positions of the definition", same_attrs(unsigned(got), unsigned(want)), show(unsigned(got), unsigned(want)))


@contract("C06", native_only=True, gen=g_parts)
def bad_fields_refused(talker, msgid, mode, payload, userdefined, validate):
    want, werr = expected(talker, msgid, mode, payload, userdefined, validate)
    msg, err = build(talker, msgid, mode, payload, userdefined, validate)
    assume(werr == "NMEATypeError")
    ensure("a field its type does not admit is a type error", err == "NMEATypeError", f"{err} {msg}")


def g_groups(rng):
    keys = [(m, k) for m in gens.TABLES for k, d in gens.TABLES[m] if grouped(d)]
    while True:
        if rng.random() < 0.5:
            mode, key = rng.choice(keys)
            t, m, p, _ = gens.message_parts(rng, mode, key, rng.choice([0, 0, 0.5]), rng.choice([None, None, 0, 1, 2, 9, 10, 11, 12, 99, 100, 101]))
            user = None
        else:
            user = {"ZZZ": user_definition(rng)}
            t, m, mode = "GN", "ZZZ", 0
            p = gens.payload_for(user["ZZZ"], rng, 0.2, rng.choice([None, None, None, 0, 1, 9, 10, 12]))
        if rng.random() < 0.25:
            p = corrupt(rng, p)
        if len(p) < 2000 and safe(t, m, mode, p, user):
            yield {"talker": t, "msgid": m, "mode": mode, "payload": p, "userdefined": user, "validate": 1}


@contract("C07", native_only=True, gen=g_groups)
def groups_expand(talker, msgid, mode, payload, userdefined, validate):
    got, want, _ = both(talker, msgid, mode, payload, userdefined, validate, True)
    ensure("indexed attributes of the group repeats", same_attrs(unsigned(got), unsigned(want)), show(unsigned(got), unsigned(want)))


def g_signs(rng):
    keys = [(m, k) for m in gens.TABLES for k, d in gens.TABLES[m] if "NS" in d or "EW" in d or "LAD" in d.values() or "LND" in d.values()]
    while True:
        if rng.random() < 0.7:
            mode, key = rng.choice(keys)
            t, m, p, _ = gens.message_parts(rng, mode, key, rng.choice([0, 0, 0.3]))
            user = None
        else:
            user = {"ZZZ": user_definition(rng)}
            t, m, mode = "GN", "ZZZ", 0
            p = gens.payload_for(user["ZZZ"], rng, 0.1)
        if rng.random() < 0.25:
            p = corrupt(rng, p)
        if safe(t, m, mode, p, user):
            yield {"talker": t, "msgid": m, "mode": mode, "payload": p, "userdefined": user, "validate": 1}


@contract("C08", native_only=True, gen=g_signs)
def hemisphere_signs(talker, msgid, mode, payload, userdefined, validate):
    got, want, _ = both(talker, msgid, mode, payload, userdefined, validate, None)
    for n in ("lat", "lon"):
        ensure("sign of the position is the hemisphere's", same_value(got.get(n), want.get(n)), show(got, want))


# ------------------------------------------------------------------- serialization
def g_sentences(rng):
    while True:
        t, m, mode, p, user = any_parts(rng)
        if not safe(t, m, mode, p, user):
            continue
        hdr = t + m
        if hdr.startswith("P") != (t == "P") or (t != "P" and len(t) != 2) or not hdr:
            continue
        if rng.random() < 0.1:
            p = p + [gens.noise_text(rng, 4).replace("*", "").replace(",", "")]
        content = ",".join([hdr] + p)
        ck = gens.xor_ck(content)
        validate = rng.choice([0, 0, 1, 1, 2])
        if rng.random() < 0.2:
            ck = ck.lower()
        elif not validate & 1 and rng.random() < 0.4:
            ck = rng.choice(["00", "FF", "", "*", "*1", "1", "abc", ck + "A", "$1"])
        yield {"content": content, "ck": ck, "mode": mode, "validate": validate, "userdefined": user, "talker": t, "msgid": m, "payload": p,
               "asbytes": rng.random() < 0.7}


@contract("C04", native_only=True, gen=g_sentences)
def lossless(content, ck, mode, validate, userdefined, talker, msgid, payload, asbytes):
    assume(content[-1:] not in ("\r", "\n", "$") or ck != "")
    assume(content[:1] not in ("$", "\r", "\n"))
    assume(ck[-1:] not in ("$", "\r", "\n"))
    assume("*" not in content)
    sent = "$" + content + "*" + ck + "\r\n"
    try:
        raw = sent.encode("utf-8")
    except UnicodeEncodeError:
        assume(False)
    try:
        msg = NMEAReader.parse(raw if asbytes else sent, msgmode=mode, validate=validate, userdefined=userdefined)
    except DOCUMENTED:
        msg = None
    assume(msg is not None)
    ensure("serializes to the same bytes", msg.serialize() == raw, f"{raw!r} -> {msg.serialize()!r}")
    ensure("parts of the sentence", (msg.talker, msg.msgID, list(msg.payload), msg.checksum, msg.msgmode) == (talker, msgid, payload, ck, mode),
           f"{sent!r}: {msg.talker!r} {msg.msgID!r} {msg.payload!r} {msg.checksum!r} {msg.msgmode}")


@contract("C05", native_only=True, gen=g_parts)
def created_from_payload(talker, msgid, mode, payload, userdefined, validate):
    msg, err = build(talker, msgid, mode, payload, userdefined, validate)
    assume(msg is not None)
    content = spec.content_of(talker, msgid, payload)
    want = ("$" + content + "*" + spec.checksum(content) + "\r\n").encode("utf-8")
    ensure("serializes to a sentence with its checksum", msg.serialize() == want, f"{msg.serialize()!r} {want!r}")
    ensure("checksum exposed", msg.checksum == spec.checksum(content))
    for ck in ("", "0", "ZZ", "5a"):
        m2 = NMEAMessage(talker, msgid, mode, payload=list(payload), userdefined=userdefined, validate=validate, checksum=ck)
        ensure("a checksum supplied is kept", m2.serialize() == ("$" + content + "*" + ck + "\r\n").encode("utf-8"), repr(m2.serialize()))


# ------------------------------------------------------------------- keywords
def kw_value(att, rng):
    """a value for an attribute of a created message"""
    r = rng.random()
    if att in ("CH", "ST", "QS", "HX", "LAD", "LND"):
        return gens.field(att, rng) if r < 0.9 else rng.choice([1, 2.5, None])
    if att == "DE":
        return rng.choice([0, 1, -2.5, 3.25, 1e10, -0.0, rng.uniform(-100, 100)]) if r < 0.9 else rng.choice(["1.5", ""])
    if att == "IN":
        return rng.choice([0, 1, 2, 3, -4, 250, rng.randint(0, 30)]) if r < 0.9 else rng.choice(["3", "", 2.5])
    if att in ("LA", "LN"):
        lim = 90 if att == "LA" else 180
        return rng.choice([0, 0.0, -0.0, 1, -1, lim, -lim, rng.uniform(-lim, lim), rng.uniform(-1, 1), rng.uniform(-lim, lim)]) if r < 0.9 else rng.choice(
            ["", None, "x"])
    if att == "TM":
        t = dt.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 999999, rng.randint(0, 999999)]))
        return t if r < 0.7 else rng.choice(["12:34:56.78", "123456", "", None])
    d = dt.date(rng.randint(1970, 2067), rng.randint(1, 12), rng.randint(1, 28))
    return d if r < 0.7 else rng.choice(["20240131", "2024-01-31", "", None])


def kw_for(d, rng, drop=0.3):
    kw = {}
    counts = set()

    def coll(d):
        for a in d.values():
            if isinstance(a, tuple):
                counts.add(a[0])
                coll(a[1])
    coll(d)

    def go(d, index):
        for n, a in d.items():
            if isinstance(a, tuple):
                c, sub = a
                k = c if isinstance(c, int) else rng.choice([0, 1, 2, 3, 11]) if c == "None" else kw.get(c, 0)
                if not isinstance(k, int):
                    k = 1
                for i in range(min(k, 12)):
                    go(sub, index + (i + 1,))
            elif rng.random() >= drop or n in counts:
                v = kw_value(a, rng)
                if n in counts and rng.random() < 0.9:
                    v = rng.choice([0, 1, 2, 3, 10])
                kw[spec_msg.suffixed(n, index)] = v
    go(d, ())
    if rng.random() < 0.3:
        kw[rng.choice(["zz", "foo", "svid_02", "lon1", "maskhigh", "msgver", "porttype"])] = rng.choice([0, 1, "a"])
    return kw


EXTRA_KW = ["portid", "baudrate", "databit", "msgver", "porttype", "maskhigh", "lon1", "enable", "geofencemode", "msgtype"]


def g_kw(rng):
    while True:
        mode = rng.choice([0, 0, 0, 1, 1, 2])
        user = None
        r = rng.random()
        if r < 0.55:
            key, d = rng.choice(gens.TABLES[mode])
            t, m, first = gens.split_key(key)
            t = t or rng.choice(gens.TALKERS)
        elif r < 0.8:
            user = {"ZZZ": user_definition(rng)}
            t, m, d, first = "GN", "ZZZ", user["ZZZ"], None
        else:
            m = rng.choice(VARIANTS)
            t, first = "P", None
            d = rng.choice([d for k, d in gens.TABLES[mode] if k.startswith(m)] or [{}])
        kw = kw_for(d, rng, rng.choice([0, 0.2, 0.5, 0.9]))
        if rng.random() < 0.3 and r >= 0.8:
            for _ in range(rng.randint(1, 4)):
                kw[rng.choice(EXTRA_KW)] = rng.choice([0, 1, 2, "10", "30"])
        if first and rng.random() < 0.95:
            kw["msgId"] = first[0].split("_")[0]
        if rng.random() < 0.04:
            m = rng.choice(["ZZY", "gga", "XXX", "UBX", "TNL"])
        kw.pop("payload", None)
        for n, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool) and v > 300 and has_counter(d):
                kw[n] = 2
        try:
            if spec_msg.suffix_count(kw) > 400:     # an open group that long runs for ever
                continue
        except ValueError:
            pass
        yield {"talker": t, "msgid": m, "mode": mode, "kw": kw, "userdefined": user, "hp": rng.random() < 0.4}


def create(talker, msgid, mode, kw, userdefined, hp):
    try:
        return NMEAMessage(talker, msgid, mode, hpnmeamode=hp, userdefined=userdefined, **kw), None
    except DOCUMENTED as e:
        return None, type(e).__name__


def plan(msgid, mode, kw, userdefined):
    """specified message; None if the arguments are refused"""
    try:
        return spec_msg.created(msgid, mode, kw, userdefined)
    except (spec_msg.Refused, ValueError, LookupError):
        return None


def check_created(talker, msgid, mode, kw, userdefined, hp, only=None):
    want = plan(msgid, mode, kw, userdefined)
    assume(want is not None)
    assume(only is None or only(want))
    before = dt.datetime.now(dt.timezone.utc)
    msg, err = create(talker, msgid, mode, kw, userdefined, hp)
    after = dt.datetime.now(dt.timezone.utc)
    try:
        texts = [None if v is spec_msg.NOW else NMEAMessage.val2str(v, a, hp) for _, a, v in want[1]]
    except NMEATypeError:
        texts = None
    if texts is None:
        ensure("a value that cannot be written is refused", err == "NMEATypeError", err)
        return None
    ensure("created", err is None, err)
    got = attrs_of(msg)
    ensure("attributes of the definition, no others", list(got) == list(dict.fromkeys(n for n, _, _ in want[1])), f"{list(got)}")
    ensure("as many fields", len(msg.payload) == len(texts), f"{msg.payload}")
    for (n, a, v), text, field in zip(want[1], texts, msg.payload):
        if v is spec_msg.NOW:
            v = got[n]
            if a == "TM":
                ok = isinstance(v, dt.time) and (before.time() <= v <= after.time() or before.date() != after.date())
            else:
                ok = type(v) is dt.date and before.date() <= v <= after.date()
            ensure("nominal date and time are the current ones", ok, f"{n}: {v!r}")
            text = NMEAMessage.val2str(v, a, hp)
        ensure("value given or nominal", same_value(got[n], v), f"{n}: {got[n]!r} {v!r}")
        ensure("field text of the value", field == text, f"{n}: {field!r} {text!r}")
    return msg


@contract("C27", native_only=True, gen=g_kw)
def created_from_keywords(talker, msgid, mode, kw, userdefined, hp):
    check_created(talker, msgid, mode, kw, userdefined, hp)


@contract("C08", native_only=True, gen=g_kw)
def hemisphere_of_keywords(talker, msgid, mode, kw, userdefined, hp):
    assume(isinstance(kw.get("lat"), (int, float)) or isinstance(kw.get("lon"), (int, float)))
    want = plan(msgid, mode, kw, userdefined)
    assume(want is not None)
    msg, err = create(talker, msgid, mode, kw, userdefined, hp)
    assume(err is None and len(msg.payload) == len(want[1]))
    for (n, a, v), field in zip(want[1], msg.payload):
        if a in ("LAD", "LND"):
            ensure("hemisphere letter of the sign", field == str(v) and getattr(msg, n) == v, f"{n}: {field!r} {v!r}")
        if n in ("lat", "lon") and v is not spec_msg.NOW:
            ensure("magnitude", field == NMEAMessage.val2str(v, a, hp), f"{n}: {field!r} {v!r}")


@contract("C05", native_only=True, gen=g_kw)
def created_serialize(talker, msgid, mode, kw, userdefined, hp):
    msg, err = create(talker, msgid, mode, kw, userdefined, hp)
    assume(msg is not None)
    content = spec.content_of(talker, msgid, msg.payload)
    try:
        want = ("$" + content + "*" + spec.checksum(content) + "\r\n").encode("utf-8")
    except UnicodeEncodeError:
        assume(False)
    ensure("serializes to a sentence with its checksum", msg.serialize() == want, f"{msg.serialize()!r} {want!r}")


# ------------------------------------------------------------------- definitions
def names(d):
    return set(d)


@contract("C14", native_only=True, gen=g_parts)
def definition_chosen(talker, msgid, mode, payload, userdefined, validate):
    assume(msgid not in VARIANTS)
    want, werr = expected(talker, msgid, mode, payload, userdefined, validate)
    msg, err = build(talker, msgid, mode, payload, userdefined, validate)
    if werr == "NMEAMessageError" or err == "NMEAMessageError":
        ensure("refused exactly when unknown and validation is on", werr == err, f"{err} expected {werr}")
    assume(werr is None and err is None)
    ensure("attributes of the definition of its id", names(attrs_of(msg)) == names(want[1]), f"{show(attrs_of(msg), want[1])} {want[0]}")
    ensure("identity", msg.identity == spec_msg.identity(talker, msgid, want[1]), msg.identity)
    ensure("header", (msg.talker, msg.msgID, msg.msgmode) == (talker, msgid, mode))


def g_variants(rng):
    while True:
        if rng.random() < 0.6:
            t, m, p = variant_parts(rng)
            if rng.random() < 0.5 and p:
                p[0] = rng.choice(["OK", "ERROR", "1", "L89"])
        else:
            mode = rng.choice([0, 1, 2])
            key = rng.choice([k for k, _ in gens.TABLES[mode] if k.startswith(("QTM", "STMDRSENMSG"))])
            t, m, p, _ = gens.message_parts(rng, mode, key)
            if m not in nmt.NMEA_MSGIDS_PROP:
                continue
        extra = {}
        if rng.random() < 0.15:
            extra = {rng.choice(EXTRA_KW): rng.choice([0, 1, "10"]) for _ in range(rng.randint(1, 3))}
        yield {"talker": t, "msgid": m, "mode": rng.choice([0, 1, 2]), "payload": p, "extra": extra}


@contract("C15", native_only=True, gen=g_variants)
def variant_chosen(talker, msgid, mode, payload, extra):
    """keywords besides the payload are ignored"""
    want, werr = expected(talker, msgid, mode, payload, None, 1)
    assume(werr is None)
    msg, err = create(talker, msgid, mode, {"payload": list(payload), **extra}, None, False)
    ensure("decodes without error", err is None, err)
    got = attrs_of(msg)
    ensure("attributes of the layout", names(got) == names(want[1]), f"{show(got, want[1])} {want[0]}")


def g_kwvariants(rng):
    for c in g_kw(rng):
        if c["msgid"] in VARIANTS:
            yield c


@contract("C15", native_only=True, gen=g_kwvariants)
def variant_of_keywords(talker, msgid, mode, kw, userdefined, hp):
    want = plan(msgid, mode, kw, userdefined)
    assume(want is not None and want[2])
    msg, err = create(talker, msgid, mode, kw, userdefined, hp)
    assume(err != "NMEATypeError")
    ensure("created", err is None, err)
    ensure("attributes of the layout", list(attrs_of(msg)) == list(dict.fromkeys(n for n, _, _ in want[1])), want[0])


# ------------------------------------------------------------------- errors
def g_any(rng):
    while True:
        if rng.random() < 0.4:
            b = gens.any_message(rng)
        else:
            t, m, mode, p, user = any_parts(rng)
            if not safe(t, m, mode, p, None):
                continue
            c = ",".join([t + m] + p)
            if rng.random() < 0.1:
                b = c
            else:
                b = f"${c}*{gens.xor_ck(c)}\r\n"
            if rng.random() < 0.6:
                b = b.encode("utf-8", "replace")
                if rng.random() < 0.2:
                    b = gens.mutate_bytes(b, rng)
        if any(len(x) > 3 for x in __import__("re").findall(r"\d+", b if isinstance(b, str) else b.decode("latin-1"))) and any(
                x in (b if isinstance(b, str) else b.decode("latin-1")) for x in ("ALC", "UBX", "ASHR")):
            continue
        yield {"message": b, "mode": rng.choice([0, 0, 1, 2, 2, 3]), "validate": rng.choice([0, 0, 1, 2, 3])}


@contract("C13", native_only=True, gen=g_any)
def parse_contained(message, mode, validate):
    try:
        msg = NMEAReader.parse(message, msgmode=mode, validate=validate)
    except DOCUMENTED as e:
        if mode in (0, 1, 2):
            ensure("parse errors only", isinstance(e, (NMEAParseError, NMEATypeError)) , repr(e))
        return
    ensure("a message or None", msg is None or isinstance(msg, NMEAMessage))
    if msg is not None and validate & 2:
        ensure("unknown messages are refused when asked", msg.talker in nmt.NMEA_TALKERS and spec_msg.source(msg.msgID, None) is not None, str(msg))


@contract("C13", native_only=True, gen=g_parts)
def construction_contained(talker, msgid, mode, payload, userdefined, validate):
    want, werr = expected(talker, msgid, mode, payload, userdefined, validate)
    msg, err = build(talker, msgid, mode, payload, userdefined, validate)
    if msg is not None:
        ensure("not refused", werr is None, werr)
        str(msg)
        repr(msg)
        msg.identity
    else:
        ensure("refused with this error", err == werr, f"{err} {werr}")


def g_odd_kw(rng):
    for c in g_kw(rng):
        odd = [10 ** 400, -10 ** 400, float("inf"), float("-inf"), float("nan"), None, b"", b"12", [], [1], {}, (1, 2), True, 2.5, "x", "1,2", 1j,
               dt.time(1, 2, 3), dt.date(2024, 2, 29), dt.datetime(2024, 2, 29), -1, "\u00e9"]
        for n in list(c["kw"]):
            if rng.random() < 0.3:
                v = rng.choice(odd)
                if n in ("lat", "lon") and not c["userdefined"] or not (isinstance(v, int) and abs(v) > 1000):
                    c["kw"][n] = v
        if rng.random() < 0.1:
            c["mode"] = rng.choice([3, -1])
        yield c


@contract("C13", native_only=True, gen=g_odd_kw)
def creation_contained(talker, msgid, mode, kw, userdefined, hp):
    """whatever the values: a message or a documented error (anything else escapes create)"""
    msg, err = create(talker, msgid, mode, kw, userdefined, hp)
    if mode not in (0, 1, 2):
        ensure("bad mode refused", err == "NMEAMessageError", err)


# ------------------------------------------------------------------- repr
def g_repr(rng):
    for c in g_parts(rng):
        c.pop("userdefined")
        c.pop("validate")
        if not set("'\\") & set(c["talker"] + c["msgid"]):
            yield c


@contract("C12", native_only=True, gen=g_repr)
def repr_rebuilds(talker, msgid, mode, payload):
    msg, err = build(talker, msgid, mode, payload, None, 1)
    assume(msg is not None)
    again = eval(repr(msg), {"NMEAMessage": NMEAMessage})
    ensure("a message", type(again) is type(msg))
    ensure("same header", (again.talker, again.msgID, again.msgmode, again.identity) == (msg.talker, msg.msgID, msg.msgmode, msg.identity), repr(msg))
    ensure("same payload", again.payload == msg.payload, repr(msg))
    ensure("same attributes", same_attrs(attrs_of(again), attrs_of(msg)), show(attrs_of(again), attrs_of(msg)))
    ensure("same bytes", again.serialize() == msg.serialize())


# ------------------------------------------------------------------- immutability
def g_attempts(rng):
    for c in g_parts(rng):
        tries = []
        for _ in range(rng.randint(1, 4)):
            n = rng.choice(["lat", "NS", "_payload", "_immutable", "payload", "talker", "foo", "_foo", "__dict__", "__class__", "identity", "_checksum",
                            "msgID", "_mode", "serialize", "", "a b", "field_01", "<first>", "<last>"])
            tries.append((rng.choice(["set", "set", "del"]), n, rng.choice([None, 0, "x", False, True, [], 1.5, "<same>"])))
        c["tries"] = tries
        yield c


def state(msg):
    return ({k: (list(v) if isinstance(v, list) else v) for k, v in msg.__dict__.items()}, msg.serialize(), str(msg), repr(msg))


@contract("C16", native_only=True, gen=g_attempts)
def immutable(talker, msgid, mode, payload, userdefined, validate, tries):
    msg, err = build(talker, msgid, mode, payload, userdefined, validate)
    assume(msg is not None)
    before = state(msg)
    pub = list(attrs_of(msg)) or ["foo"]
    for what, name, val in tries:
        name = pub[0] if name == "<first>" else pub[-1] if name == "<last>" else name
        val = getattr(msg, name, None) if val == "<same>" else val
        try:
            if what == "set":
                setattr(msg, name, val)
            else:
                delattr(msg, name)
            ok = False
        except NMEAMessageError:
            ok = True
        ensure("each attempt raises the message error", ok, f"{what} {name}")
        ensure("nothing changed", same_value(repr(state(msg)), repr(before)), f"{what} {name}")


@contract("C16", native_only=True, gen=g_kw)
def immutable_created(talker, msgid, mode, kw, userdefined, hp):
    msg, err = create(talker, msgid, mode, kw, userdefined, hp)
    assume(msg is not None)
    before = repr(state(msg))
    for name in ("lat", "_payload", "_immutable", "anything", *list(kw)[:2]):
        for what in ("set", "del"):
            try:
                if what == "set":
                    setattr(msg, name, 0)
                else:
                    delattr(msg, name)
                ok = False
            except NMEAMessageError:
                ok = True
            ensure("each attempt raises the message error", ok, f"{what} {name}")
    ensure("nothing changed", repr(state(msg)) == before)


# ------------------------------------------------------------------- side effects
def snapshot():
    """tables and module state (a value that changes when they do)"""
    import sys
    out = []
    for name in sorted(sys.modules):
        if name == "pynmeagps" or name.startswith("pynmeagps."):
            for k, v in sorted(vars(sys.modules[name]).items()):
                if not k.startswith("__") and isinstance(v, (dict, list, tuple, set, str, int, float, bytes, type(None))):
                    out.append((name, k, repr(v)))
    for cls in (NMEAMessage, NMEAReader):
        out.append((cls.__name__, sorted((k, repr(v)) for k, v in vars(cls).items())))
    return hash(repr(out))


def quick_snapshot():
    """sizes of the tables (cheap part of snapshot)"""
    return tuple(len(t) for x in (spec_msg.STANDARD, spec_msg.PROPRIETARY) for t in x.values()) + (
        len(nmt.NMEA_MSGIDS), len(nmt.NMEA_MSGIDS_PROP), len(nmt.NMEA_TALKERS), len(nmt.NMEA_PREFIX_PROP))


def g_history(rng):
    parts, kws = g_parts(rng), g_kw(rng)
    while True:
        steps = []
        user = rng.choice([None, {"ZZZ": user_definition(rng), "GGX": {"lat": "LA", "NS": "LAD"}}])
        for _ in range(rng.choice([2, 3, 6, 30])):
            if rng.random() < 0.6:
                c = next(parts)
                if user:
                    c["userdefined"] = user
                    if not safe(c["talker"], c["msgid"], c["mode"], c["payload"], user):
                        continue
            else:
                c = next(kws)
                if user and c["msgid"] == "ZZZ":
                    continue
            steps.append(c)
        yield {"steps": steps}


def outcome(c):
    """what a step yields, as comparable data"""
    if "kw" in c:
        msg, err = create(**c)
        if msg is None:
            return err
        return (msg.identity, [k for k in attrs_of(msg)], len(msg.payload))
    msg, err = build(**c)
    return err if msg is None else (str(msg), msg.serialize(), msg.identity, repr(msg))


@contract("C28", native_only=True, gen=g_history)
def no_side_effects(steps):
    full0 = snapshot()
    first = []
    for c in steps:
        payload = c.get("payload")
        before = repr(c)
        q = quick_snapshot()
        first.append(outcome(c))
        if payload is not None:
            own = list(payload)
            try:
                m = NMEAMessage(c["talker"], c["msgid"], c["mode"], payload=own, userdefined=c["userdefined"], validate=c["validate"])
                m.serialize(), str(m), m.identity
                b = bytearray(m.serialize())
                try:
                    NMEAReader.parse(b, msgmode=c["mode"], userdefined=c["userdefined"], validate=c["validate"])
                except DOCUMENTED:
                    pass
                ensure("sentence unchanged", bytes(b) == m.serialize())
            except DOCUMENTED:
                pass
            ensure("payload list unchanged", own == payload, f"{own} {payload}")
        ensure("arguments unchanged", repr(c) == before, before)
        ensure("tables unchanged", quick_snapshot() == q)
    for c, r in reversed(list(zip(steps, first))):
        ensure("same result whatever was handled before", outcome(c) == r, f"{c}")
    ensure("tables and module state unchanged", snapshot() == full0)
