"""Sentence text: checksum, splitting, acceptance, round trip."""

from contracts import gens, spec
from pyvc.harness import (AnyVal, Bool, Bytes, Const, Int, Str, StrList, assume, close, contract, ensure,
                          same_list)
from pynmeagps.exceptions import NMEAMessageError
from pynmeagps.nmeahelpers import calc_checksum, generate_checksum, get_parts


def g_content(rng):
    while True:
        r = rng.random()
        if r < 0.5:
            yield {"content": gens.sentence(rng).decode()[1:-5]}
        else:
            yield {"content": gens.noise_text(rng, 30)}


@contract("C01", inputs={"content": Str()}, gen=g_content)
def checksum_is_xor(content):
    ensure("calc_checksum is the XOR of all characters as two upper case hex digits",
           calc_checksum(content) == spec.checksum(content))


def g_tmp(rng):
    while True:
        t, m, p, _ = gens.message_parts(rng, rng.choice([0, 1, 2]))
        if rng.random() < 0.3:
            p = [gens.noise_text(rng, 4) for _ in range(rng.randint(0, 5))]
        yield {"talker": t, "msgid": m, "payload": p}


@contract("C01", inputs={"talker": Str(), "msgid": Str(), "payload": StrList()}, gen=g_tmp)
def generated_checksum_covers_sentence(talker, msgid, payload):
    ensure("generate_checksum is the checksum of the joined sentence",
           generate_checksum(talker, msgid, payload) == spec.checksum(spec.content_of(talker, msgid, payload)))


def g_text(rng):
    while True:
        r = rng.random()
        if r < 0.5:
            b = gens.any_message(rng)
            try:
                yield {"text": b.decode()}
            except UnicodeDecodeError:
                pass
        else:
            yield {"text": gens.noise_text(rng)}


@contract("C03", inputs={"text": Str()}, gen=g_text)
def parts_of_text(text):
    """str input, any text"""
    want = spec.parts(text)
    try:
        got = get_parts(text)
    except NMEAMessageError:
        ensure("only malformed text is refused", want is None)
        return
    ensure("malformed text (no *) is refused", want is not None)
    ensure("content", got[0] == want[0])
    ensure("talker", got[1] == want[1])
    ensure("msgid", got[2] == want[2])
    ensure("payload", same_list(got[3], want[3]))
    ensure("checksum field", got[4] == want[4])


@contract("C03", inputs={"text": Str()}, gen=g_text)
def bytes_as_text(text):
    """bytes input is its UTF-8 text"""
    try:
        a = get_parts(text)
    except NMEAMessageError:
        a = None
    try:
        b = get_parts(text.encode("utf-8"))
    except NMEAMessageError:
        b = None
    ensure("bytes and text agree on acceptance", (a is None) == (b is None))
    if a is not None:
        ensure("content", a[0] == b[0])
        ensure("talker and msgid", a[1] == b[1] and a[2] == b[2])
        ensure("payload", same_list(a[3], b[3]))
        ensure("checksum field", a[4] == b[4])


def g_wf(rng):
    while True:
        t, m, p, _ = gens.message_parts(rng, rng.choice([0, 1, 2]))
        content = ",".join([t + m] + p)
        yield {"content": content, "ck": rng.choice([gens.xor_ck(content), gens.xor_ck(content).lower(), "7F", "0a"])}


@contract("C03", inputs={"content": Str(), "ck": Str()}, gen=g_wf)
def parts_of_wellformed(content, ck):
    assume("*" not in content)
    assume(len(content) > 0)
    assume(content[0] not in ("$", "\r", "\n"))
    assume(len(ck) == 2)
    assume(ck[1] not in ("$", "\r", "\n"))
    got = get_parts(("$" + content + "*" + ck + "\r\n").encode("utf-8"))
    ensure("content is the text between $ and *", got[0] == content)
    ensure("checksum is the text after *", got[4] == ck)
    ensure("talker and msgid make up the first field", got[1] + got[2] == content.split(",")[0])
    ensure("talker is P for proprietary sentences, else two characters",
           got[1] == ("P" if content.startswith("P") else content.split(",")[0][:2]))
    ensure("payload fields joined with commas give back the content",
           spec.content_of(got[1], got[2], got[3]) == content)


def g_any(rng):
    while True:
        yield {"message": gens.any_message(rng)}


@contract("C03", inputs={"message": AnyVal()}, gen=g_any)
def parts_errors(message):
    """any object: parts or NMEAMessageError"""
    try:
        got = get_parts(message)
    except NMEAMessageError:
        return
    ensure("five parts", len(got) == 5)
