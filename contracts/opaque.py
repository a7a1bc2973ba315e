"""Contracts used at call sites (the callee's body is not entered there).

NMEAMessage(...) is used as: a function of its arguments that either yields a
message or raises NMEAMessageError / NMEATypeError.  That is what the contracts
in c_msg.py prove of the constructor (property C13)."""

import inspect

import z3

from pyvc.core import (INT, STR, ObjSort, Raised, SBool, SExc, SInt, SOpaque, SStr, Sym, Unsupported, Val, box,
                       kind_of, lift, simp, to_z)
from pyvc.harness import AssumeFailed
from pyvc.interp import PDict, PList, SMap, SObj


def arg_terms(en, v):
    """z3 terms identifying an argument value"""
    if isinstance(v, PList):
        if v.concrete:
            from pyvc.loops import list_arr
            return [list_arr(v.items, "str"), z3.IntVal(0), z3.IntVal(len(v.items))]
        return [v.arr, simp(v.off), simp(v.n)]
    if isinstance(v, (PDict, dict)):
        d = v.d if isinstance(v, PDict) else v
        return [z3.Const(f"dict!{id(d) if d else 0}", ObjSort)]
    if isinstance(v, SMap):
        return [v.arr]
    return [box(v)]


def bind(fn, args, kw):
    """arguments by parameter name, with the real signature"""
    if not isinstance(kw, dict):
        raise Unsupported("opaque call with symbolic keywords")
    sig = inspect.signature(fn)
    try:
        b = sig.bind(*args, **kw)
    except TypeError as e:
        raise Raised(SExc(TypeError, e.args)) from e
    b.apply_defaults()
    return b.arguments


def status_fn(en, name, terms, errors):
    """outcome of an opaque call: 0 value, i+1 errors[i]"""
    st = z3.Function(name + "_status", *[t.sort() for t in terms], INT)(*terms)
    for i, e in enumerate(errors):
        if en.branch(st == i + 1):
            raise Raised(SExc(e, (name,)))
    en.assume(st == 0)


def message_ctor(en, args, kw):
    from pynmeagps import NMEAMessage
    import pynmeagps.exceptions as nme
    a = bind(NMEAMessage.__init__, args, kw)
    obj = a["self"]
    kws = a.get("kwargs", {})
    terms = []
    for n in ("talker", "msgID", "msgmode", "hpnmeamode", "validate", "userdefined", "checksum"):
        terms += arg_terms(en, a[n])
    names = ",".join(sorted(kws))
    for n in sorted(kws):
        terms += arg_terms(en, kws[n])
    status_fn(en, f"NMEAMessage({names})", terms, (nme.NMEAMessageError, nme.NMEATypeError))
    en.set_field(obj, "_id", SOpaque(z3.Function(f"NMEAMessage({names})", *[t.sort() for t in terms], ObjSort)(*terms)))
    return None


def same_message(a, b):
    """the same message (or both None)"""
    if a is None or b is None:
        return a is b
    return (type(a) is type(b) and a.serialize() == b.serialize() and str(a) == str(b) and a.payload == b.payload
            and a.msgmode == b.msgmode and a.identity == b.identity and a.checksum == b.checksum
            and a.talker == b.talker and a.msgID == b.msgID)


def _same_message(en, args, kw):
    a, b = args
    if a is None or b is None:
        return a is b
    if not (isinstance(a, SObj) and isinstance(b, SObj)):
        return False
    if a is b:
        return True
    if "_id" not in a.f or "_id" not in b.f:
        raise Unsupported("same_message of a message that was not built by contract")
    return lift(SBool(simp(a.f["_id"].z == b.f["_id"].z)))


def setup(en, vals):
    en.models.fn[same_message] = _same_message


CTOR = {"pynmeagps.nmeamessage.NMEAMessage.__init__": message_ctor}
