"""Acceptance of sentences by NMEAReader.parse."""

from contracts import gens, opaque, spec
from contracts.frame import frame_ok, frame_start, setup_frame
from contracts.opaque import same_message
from pyvc.harness import AnyVal, Bytes, Const, Int, Str, assume, contract, ensure
from pynmeagps import NMEAMessage, NMEAReader
from pynmeagps.exceptions import NMEAMessageError, NMEAParseError, NMEATypeError

USERDEF = {"ZZZ": {"aa": "CH", "bb": "IN"}, "GGX": {"lat": "LA", "NS": "LAD"}}


def parse_spec(text, msgmode, validate, userdefined):
    """(message, error class) the statement asks for"""
    if msgmode not in (0, 1, 2):
        return None, NMEAParseError
    want = spec.parts(text)
    bad = (None, NMEAParseError) if validate & 2 else (None, None)
    if want is None:
        return bad
    content, talker, msgid, payload, ck = want
    if validate & 1:
        if ck.upper() != spec.checksum(content):
            return None, NMEAParseError
    try:
        msg = NMEAMessage(talker, msgid, msgmode, payload=payload, checksum=ck, validate=validate,
                          userdefined=userdefined)
    except NMEAMessageError:
        return bad
    except NMEATypeError:
        return None, NMEATypeError
    return msg, None


def parse_real(message, msgmode, validate, userdefined):
    try:
        return NMEAReader.parse(message, msgmode=msgmode, validate=validate, userdefined=userdefined), None
    except NMEAParseError:
        return None, NMEAParseError
    except NMEATypeError:
        return None, NMEATypeError


def g_gate(rng):
    while True:
        b = gens.any_message(rng) if rng.random() < 0.8 else gens.user_sentence(rng)
        if rng.random() < 0.3:      # only the checksum field damaged
            b = gens.recheck(b, rng)
        try:
            t = b.decode()
        except UnicodeDecodeError:
            continue
        yield {"text": t, "msgmode": rng.choice([0, 0, 0, 1, 2, 3, -1]), "validate": rng.choice([0, 1, 1, 1, 2, 3, 4, 5]),
               "userdefined": rng.choice([None, None, USERDEF, {}]), "asbytes": rng.random() < 0.8}


@contract("C02", inputs={"text": Str(), "msgmode": Int(), "validate": Int(0), "userdefined": Const(None, USERDEF, {}),
                         "asbytes": Const(True, False)},
          gen=g_gate, opaque=opaque.CTOR, setup=opaque.setup)
def acceptance(text, msgmode, validate, userdefined, asbytes):
    """parse() of any text: outcome as the checksum rule says"""
    want, werr = parse_spec(text, msgmode, validate, userdefined)
    got, gerr = parse_real(text.encode("utf-8") if asbytes else text, msgmode, validate, userdefined)
    ensure("refused with the documented error exactly when it must be", gerr == werr)
    ensure("accepted sentences give the message of their parts", same_message(got, want))


def g_ck(rng):
    while True:
        t, m, p, _ = gens.message_parts(rng, 0)
        content = ",".join([t + m] + p)
        ok = gens.xor_ck(content)
        ck = rng.choice([ok, ok.lower(), ok[0] + ok[1].lower(), ok + "0", "0" + ok, ok[:1], "", "*" + ok, ok + "*" + ok,
                         "%02X" % rng.randint(0, 255), ok + " "])
        yield {"content": content, "ck": ck, "validate": rng.choice([0, 1, 1, 2, 3, 7]), "msgmode": rng.choice([0, 0, 1, 2])}


@contract("C02", inputs={"content": Str(), "ck": Str(), "validate": Int(0), "msgmode": Int(0, 2)}, gen=g_ck,
          opaque=opaque.CTOR, setup=opaque.setup)
def wrong_checksum_never_accepted(content, ck, validate, msgmode):
    """a well formed sentence with a wrong checksum is refused, with or without other flags"""
    assume("*" not in content)
    assume(len(content) > 0)
    assume(content[0] not in ("$", "\r", "\n"))
    assume(len(ck) > 0)
    assume(ck[-1] not in ("$", "\r", "\n"))
    got, err = parse_real(("$" + content + "*" + ck + "\r\n").encode("utf-8"), msgmode, validate, None)
    if validate & 1:
        if ck.upper() != spec.checksum(content):
            ensure("wrong checksum: NMEAParseError", err == NMEAParseError)
            ensure("wrong checksum: no message", got is None)
    if not validate & 1:
        # the checksum plays no part: same outcome as with any other checksum
        if not validate & 2:
            ensure("checksum not validated: never a parse error", err != NMEAParseError)


def setup_contained(en, vals):
    opaque.setup(en, vals)
    setup_frame(en)


@contract("C13", "C28", inputs={"data": Bytes(), "text": Str(), "asbytes": Const(True, False), "msgmode": Int(), "validate": Int(0),
                                "userdefined": Const(None, USERDEF)}, opaque=opaque.CTOR, setup=setup_contained)
def parse_anything(data, text, asbytes, msgmode, validate, userdefined):
    """parse() of any bytes or text: a message, None or a documented error; nothing else is written"""
    frame_start()
    try:
        msg = NMEAReader.parse(data if asbytes else text, msgmode=msgmode, validate=validate, userdefined=userdefined)
    except (NMEAParseError, NMEATypeError):
        msg = None
    ensure("nothing but the new message is written", frame_ok())
    ensure("a message or None", msg is None or isinstance(msg, NMEAMessage))
