"""Which definition a message gets: proof of _get_dict and the variant functions.

The tables are opaque maps from keys to definitions (any contents)."""

from contracts import spec_msg
from contracts.c_decode import SOURCE, TABLES, sym_userdef
from contracts.frame import frame_ok, frame_start, setup_frame
from pyvc.core import SBool, SDef, lift, simp
from pyvc.harness import Const, Custom, Int, KwMap, Str, StrList, assume, contract, ensure
from pyvc.interp import SObj
from pynmeagps import NMEAMessage
from pynmeagps.exceptions import NMEAMessageError

def sym_msg(en, name):
    """a message whose header is set"""
    o = SObj(NMEAMessage)
    o.f.update(_immutable=False)
    o.dyn = None
    return o


def setup(en, vals):
    setup_frame(en)
    for n, t in TABLES.items():
        en.tables[id(t)] = n
    for n, ts in (("std", spec_msg.STANDARD), ("prop", spec_msg.PROPRIETARY)):
        for m, t in ts.items():
            en.tables[id(t)] = f"{n}{m}"
    en.models.fn[same_definition] = _same


def same_definition(a, b):
    return a == b


def _same(en, args, kw):
    a, b = args
    if a is None or b is None:
        return a is b
    if isinstance(a, SDef) and isinstance(b, SDef):
        return lift(SBool(simp(a.z == b.z)))
    return a is b


def looked_up(msg, payload, kw, streaming):
    try:
        if streaming:
            return msg._get_dict(payload=payload), None
        return msg._get_dict(**kw), None
    except NMEAMessageError:
        return None, "NMEAMessageError"
    except (IndexError, TypeError):
        return None, "NMEATypeError"


def specified(msgid, mode, payload, kw, userdefined, validate):
    try:
        return spec_msg.definition(msgid, mode, payload, kw, userdefined, validate)[1], None
    except spec_msg.RefusedMessage:
        return None, "NMEAMessageError"
    except spec_msg.RefusedType:
        return None, "NMEATypeError"


@contract("C14", "C15", "C28", inputs={"msg": Custom(sym_msg), "msgid": Str(), "mode": Const(0, 1, 2), "validate": Int(0), "user": Const(False, True),
                                "userdef": Custom(sym_userdef), "payload": StrList(), "kw": KwMap(), "streaming": Const(True, False)},
          setup=setup, budget=700)
def definition_looked_up(msg, msgid, mode, validate, user, userdef, payload, kw, streaming):
    """_get_dict for any id, mode, flags, fields or keywords, tables and user-defined definitions"""
    assume("payload" not in kw)
    userdefined = userdef if user else None
    msg._msgID, msg._mode, msg._validate, msg._streaming = msgid, mode, validate, streaming
    msg._userdefined = userdef if user else {}
    msg._payload = payload if streaming else []
    msg._defsource = SOURCE[spec_msg.source(msgid, userdefined)]
    frame_start()
    got, err = looked_up(msg, payload, kw, streaming)
    ensure("nothing is written", frame_ok())
    want, werr = specified(msgid, mode, payload if streaming else None, {} if streaming else kw, userdefined, validate)
    ensure("refused exactly as specified", err == werr)
    if err is None and werr is None:
        ensure("definition of the sentence and its variant", same_definition(got, want))
