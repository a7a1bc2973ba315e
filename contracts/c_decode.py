"""Proofs of decoding and creation, function by function, for every definition.

A payload definition is an arbitrary mapping of names to types or groups, an
attribute map is a map from names to values.  The specification works on a Bag
(the state of a message under construction).  Recursive calls, and calls from the
constructor, use the contract of _set_attribute: the state transformer `element`
below, proved here of its body for every definition, position, index list,
attribute map and payload (induction on the depth of the definition)."""

import struct

import z3

import pynmeagps.nmeatypes_core as nmt
from contracts import spec, spec_msg
from contracts.frame import frame_ok, frame_start, setup_frame
from contracts.c_misc import size_of
from contracts.spec_msg import VENDORS
from pyvc.core import BOOL, INT, STR, DefSort, ObjSort, Raised, SBool, SDef, SExc, SInt, SStr, SVal, Val, box, lift, simp, to_z
from pyvc.harness import AnyVal, Bool, Const, Custom, Int, KwMap, Str, StrList, assume, attrs_of, contract, ensure, same_list
from pyvc.interp import PDict, PList, SMap, SObj
from pyvc.loops import DYN, list_arr
from pynmeagps import NMEAMessage
from pynmeagps.exceptions import NMEAMessageError, NMEATypeError

REFUSED = (AttributeError, IndexError, OverflowError, struct.error, TypeError, ValueError, NMEATypeError)
LETTERS = ("LAD", "LND")


class Bag:
    """state of a message under construction (for the specification)"""


# ------------------------------------------------------------------ specification
def ident(b):
    if b._talker == "P" and b._msgID in VENDORS and hasattr(b, "msgId"):
        return b._talker + b._msgID + b.msgId
    return b._talker + b._msgID


def full_name(name, index):
    for i in index:
        if i > 0:
            name += f"_{i:02d}"
    return name


def single_parsed(b, pos, att, name, index):
    """one field of a payload"""
    name = full_name(name, index)
    if pos >= len(b._payload):
        return pos              # no such field: the attribute stays unset
    text = b._payload[pos]
    if ident(b) == "PSSNSNC":
        text = text.replace("[", "").replace("]", "")
    v = NMEAMessage.str2val(text, att)
    setattr(b, name, v)
    if att == "LAD" and hasattr(b, "lat"):
        if isinstance(b.lat, (int, float)):
            b.lat = -abs(b.lat) if v == "S" else abs(b.lat)
    if att == "LND" and hasattr(b, "lon"):
        if isinstance(b.lon, (int, float)):
            b.lon = -abs(b.lon) if v == "W" else abs(b.lon)
    return pos + 1


def single_created(b, pos, att, name, index, kw):
    """one attribute of a message made from keywords"""
    name = full_name(name, index)
    if att == "LAD" and hasattr(b, "lat"):
        v = "N"
        if isinstance(b.lat, (int, float)):
            if b.lat < 0:
                v = "S"
    elif att == "LND" and hasattr(b, "lon"):
        v = "E"
        if isinstance(b.lon, (int, float)):
            if b.lon < 0:
                v = "W"
    else:
        nominal = NMEAMessage.nomval(att, b._mode)
        v = kw[name] if name in kw else nominal
    b._payload.append(NMEAMessage.val2str(v, att, b._hpnmeamode))
    setattr(b, name, v)
    return pos + 1


def element(b, pos, d, name, index, kw):
    att = d[name]
    if not isinstance(att, tuple):
        if b._streaming:
            return single_parsed(b, pos, att, name, index), index
        return single_created(b, pos, att, name, index, kw), index
    count, sub = att
    index.append(0)
    if isinstance(count, int):
        n = count
    elif count == "None":
        n = (len(b._payload) - pos) // len(sub) if b._streaming else size_of(kw)
    else:
        n = getattr(b, count)
    for i in range(n):
        index[-1] = i + 1
        for k in sub.keys():
            pos, index = step(b, pos, sub, k, index, kw)
    index.pop()
    return pos, index


def step(b, pos, d, name, index, kw):
    """element by contract"""
    raise NotImplementedError


# ------------------------------------------------------------------ contracts of callees
def list_terms(v, kind):
    if v.concrete:
        return [list_arr(v.items, kind), z3.IntVal(len(v.items))]
    if not (z3.is_int_value(simp(v.off)) and simp(v.off).as_long() == 0):
        return [z3.K(INT, z3.StringVal("slice")), v.n, v.arr, v.off]
    return [v.arr, simp(v.n)]


def kw_terms(kw):
    if isinstance(kw, SMap):
        return [kw.arr]
    return [z3.IntVal(len(kw))]


def transform(en, obj, pos, d, name, index, kw):
    """the state transformer of _set_attribute / element"""
    from pyvc.core import Unsupported
    if not isinstance(d, SDef):
        raise Unsupported("definition is not symbolic")
    stream = en.truth(obj.f["_streaming"])
    pl = obj.f["_payload"]
    terms = [d.z, to_z(name), to_z(pos, "int")] + list_terms(index, "int") + [obj.dyn] + list_terms(pl, "str")
    terms += [to_z(obj.f[n]) for n in ("_talker", "_msgID", "_mode")]
    if not stream:
        terms += [to_z(obj.f["_hpnmeamode"])] + kw_terms(kw)
    nm = "SETP" if stream else "SETC"

    def f(part, sort):
        return z3.Function(f"{nm}_{part}", *[t.sort() for t in terms], sort)(*terms)
    st = f("status", INT)
    for i, e in enumerate((ValueError, NMEATypeError)):
        if en.branch(st == i + 1):
            raise Raised(SExc(e, ("by contract",)))
    en.assume(st == 0)
    en.set_dyn(obj, f("attrs", DYN))
    p = f("pos", INT)
    en.assume(p >= 0)
    if not stream:
        en.mut_list(pl)
        pl.items, pl.kind, pl.arr, pl.off, pl.n = None, "str", f("parr", z3.ArraySort(INT, STR)), z3.IntVal(0), f("pn", INT)
        en.assume(pl.n >= 0)
    return (lift(SInt(p)), index)


def c_set_attribute(en, args, kw):
    obj, pos, d, name, index = args
    return transform(en, obj, pos, d, name, index, kw)


def c_step(en, args, kw):
    return transform(en, *args)


def c_str2val(en, args, kw):
    """str2val: a function of text and type; raises ValueError or NMEATypeError (C09)"""
    text, att = args
    t = [to_z(text), box(att)]
    st = z3.Function("STR2VAL_status", STR, Val, INT)(*t)
    for i, e in enumerate((ValueError, NMEATypeError)):
        if en.branch(st == i + 1):
            raise Raised(SExc(e, ("str2val",)))
    en.assume(st == 0)
    v = z3.Function("STR2VAL", STR, Val, Val)(*t)
    en.assume(z3.Not(z3.Or(Val.is_Absent(v), Val.is_VGrp(v), Val.is_VDef(v))))
    return lift(SVal(v))


def c_val2str(en, args, kw):
    """val2str: a function of value, type and precision; raises NMEATypeError (C10)"""
    val, att = args[:2]
    hp = args[2] if len(args) > 2 else kw.get("hpmode", False)
    t = [box(val), box(att), to_z(hp, "bool")]
    st = z3.Function("VAL2STR_status", Val, Val, BOOL, INT)(*t)
    for i, e in enumerate((ValueError, NMEATypeError)):
        if en.branch(st == i + 1):
            raise Raised(SExc(e, ("val2str",)))
    en.assume(st == 0)
    return lift(SStr(z3.Function("VAL2STR", Val, Val, BOOL, STR)(*t)))


def c_nomval(en, args, kw):
    """nomval: a function of type and mode (and of the clock, the same throughout)"""
    att = args[0]
    mode = args[1] if len(args) > 1 else kw.get("msgmode", 0)
    t = [box(att), to_z(mode, "int")]
    st = z3.Function("NOMVAL_status", Val, INT, INT)(*t)
    if en.branch(st == 1):
        raise Raised(SExc(NMEATypeError, ("nomval",)))
    en.assume(st == 0)
    v = z3.Function("NOMVAL", Val, INT, Val)(*t)
    en.assume(z3.Not(z3.Or(Val.is_Absent(v), Val.is_VGrp(v), Val.is_VDef(v))))
    return lift(SVal(v))


M = "pynmeagps.nmeamessage.NMEAMessage."
CONVERT = {M + "str2val": c_str2val, M + "val2str": c_val2str, M + "nomval": c_nomval}


# ------------------------------------------------------------------ inputs
def sym_str(n):
    return SStr(z3.Const(n, STR))


def state(cls, streaming):
    """a message under construction: anything may have been decoded before"""
    def make(en, name):
        o = SObj(cls)
        n = z3.Const("pn", INT)
        en.assume(n >= 0)
        mode = z3.Const("mode", INT)
        en.assume(z3.And(mode >= 0, mode <= 2))
        o.f.update(_immutable=False, _streaming=streaming, _talker=sym_str("talker"), _msgID=sym_str("msgid"), _mode=SInt(mode),
                   _hpnmeamode=SBool(z3.Const("hp", BOOL)), _checksum=None,
                   _payload=PList(None, "str", z3.Const("payload", z3.ArraySort(INT, STR)), z3.IntVal(0), n))
        o.dyn = z3.Const("attrs", DYN)
        return o
    return Custom(make)


def sym_index(en, name):
    n = z3.Const("depth", INT)
    en.assume(n >= 0)
    return PList(None, "int", z3.Const("index", z3.ArraySort(INT, INT)), z3.IntVal(0), n)


def sym_pos(en, name):
    z = z3.Const("pos", INT)
    en.assume(z >= 0)
    return SInt(z)


def sym_def(en, name):
    return SDef(z3.Const("D", DefSort))


def sym_key(en, name):
    z = z3.Const("name", STR)
    en.assume(z3.Function("DIN", DefSort, STR, BOOL)(z3.Const("D", DefSort), z))
    return SStr(z)


def setup_level(en, vals):
    """the body of _set_attribute is entered once; calls below it are by contract"""
    real = NMEAMessage._set_attribute
    setup_frame(en)
    en.models.fn[step] = c_step
    q = M + "_set_attribute"

    def handler(en, args, kw):
        if en.ghost.get("entered"):
            return c_set_attribute(en, args, kw)
        en.ghost["entered"] = True
        return en.call_body(real, args, kw)
    en.contracts[q] = handler


def run(f, /, *a, **kw):
    """(result, refused)"""
    try:
        return f(*a, **kw), False
    except REFUSED:
        return None, True


SHAPE = {"pos": Custom(sym_pos), "d": Custom(sym_def), "name": Custom(sym_key), "index": Custom(sym_index), "index2": Custom(sym_index)}
PARSED = dict(SHAPE, msg=state(NMEAMessage, True), bag=state(Bag, True))
CREATED = dict(SHAPE, msg=state(NMEAMessage, False), bag=state(Bag, False), kw=KwMap())
COUNT = Const("fixed", "open", "named")


def compare(msg, bag, got, want, bad, wbad):
    ensure("refused exactly when a field, value or count is not admitted", bad == wbad)
    if not bad and not wbad:
        ensure("position after the element", got[0] == want[0])
        ensure("attributes set", attrs_of(msg) == attrs_of(bag))
        ensure("index of the enclosing groups restored", same_list(got[1], want[1]))
        ensure("payload", same_list(msg._payload, bag._payload))


def assume_count(att, count):
    """att is a group with a count of this kind (definitions: C23)"""
    assume(isinstance(att, tuple))
    if count == "fixed":
        assume(isinstance(att[0], int) and not isinstance(att[0], bool))
    else:
        assume(isinstance(att[0], str))
        if count == "open":
            assume(att[0] == "None")
            assume(len(att[1]) > 0)
        else:
            assume(att[0] != "None")


def assume_not_bool(bag, count):
    """the count attribute holds no bool"""
    if hasattr(bag, count):
        assume(not isinstance(getattr(bag, count), bool))


@contract("C06", "C08", "C13", "C28", inputs=PARSED, opaque=CONVERT, setup=setup_level, budget=700)
def attribute_parsed(msg, bag, pos, d, name, index, index2):
    """_set_attribute with a payload: one attribute of any definition, from any state"""
    assume(pos <= len(bag._payload))
    assume(not isinstance(d[name], tuple))
    frame_start()
    got, bad = run(msg._set_attribute, pos, d, name, index, payload=msg._payload)
    ensure("only the message under construction is written", frame_ok(msg, index))
    want, wbad = run(element, bag, pos, d, name, index2, {})
    compare(msg, bag, got, want, bad, wbad)


@contract("C07", "C13", "C28", inputs=dict(PARSED, count=COUNT), opaque=CONVERT, setup=setup_level, budget=700)
def group_parsed(msg, bag, pos, d, name, index, index2, count):
    """_set_attribute with a payload: one group of any definition, from any state"""
    assume(pos <= len(bag._payload))
    assume_count(d[name], count)
    if count == "named":
        assume_not_bool(bag, d[name][0])
    frame_start()
    got, bad = run(msg._set_attribute, pos, d, name, index, payload=msg._payload)
    ensure("only the message under construction is written", frame_ok(msg, index))
    want, wbad = run(element, bag, pos, d, name, index2, {})
    compare(msg, bag, got, want, bad, wbad)


@contract("C27", "C08", "C28", inputs=CREATED, opaque=CONVERT, setup=setup_level, budget=700)
def attribute_created(msg, bag, pos, d, name, index, index2, kw):
    """_set_attribute with keywords: one attribute of any definition, from any state"""
    assume(not isinstance(d[name], tuple))
    frame_start()
    got, bad = run(msg._set_attribute, pos, d, name, index, **kw)
    ensure("only the message under construction is written", frame_ok(msg, index, msg._payload))
    want, wbad = run(element, bag, pos, d, name, index2, kw)
    compare(msg, bag, got, want, bad, wbad)


@contract("C27", "C28", inputs=dict(CREATED, count=COUNT), opaque=CONVERT, setup=setup_level, budget=700)
def group_created(msg, bag, pos, d, name, index, index2, kw, count):
    """_set_attribute with keywords: one group of any definition, from any state"""
    assume_count(d[name], count)
    if count == "named":
        assume_not_bool(bag, d[name][0])
    frame_start()
    got, bad = run(msg._set_attribute, pos, d, name, index, **kw)
    ensure("only the message under construction is written", frame_ok(msg, index, msg._payload))
    want, wbad = run(element, bag, pos, d, name, index2, kw)
    compare(msg, bag, got, want, bad, wbad)


# ------------------------------------------------------------------ the constructor
EXPLICIT = ("self", "talker", "msgID", "msgmode", "hpnmeamode", "validate", "userdefined", "checksum", "payload")
TABLES = {"talkers": nmt.NMEA_TALKERS, "msgids": nmt.NMEA_MSGIDS, "propids": nmt.NMEA_MSGIDS_PROP}
SOURCE = {"standard": nmt.DEF_STND, "proprietary": nmt.DEF_PROP, "user": nmt.DEF_USER, None: nmt.DEF_UNKN}


def dict_term(v):
    if isinstance(v, SMap):
        return v.arr
    from pyvc.core import Unsupported
    d = v.d if isinstance(v, PDict) else v
    if d:
        raise Unsupported("user-defined definitions")
    return z3.K(STR, Val.Absent)


def lookup_terms(en, obj, kw):
    stream = en.truth(obj.f["_streaming"])
    t = [to_z(obj.f["_msgID"]), to_z(obj.f["_mode"], "int"), to_z(obj.f["_validate"], "int"), dict_term(obj.f["_userdefined"])]
    return "GETP" if stream else "GETC", t + (list_terms(obj.f["_payload"], "str") if stream else kw_terms(kw))


def definition_of(en, obj, kw):
    """_get_dict by contract: None, a definition, or an error"""
    nm, t = lookup_terms(en, obj, kw)
    st = z3.Function(nm + "_status", *[x.sort() for x in t], INT)(*t)
    for i, e in enumerate((NMEAMessageError, IndexError, TypeError)):
        if en.branch(st == i + 2):
            raise Raised(SExc(e, ("definition",)))
    if en.branch(st == 1):
        return SDef(z3.Function(nm, *[x.sort() for x in t], DefSort)(*t))
    en.assume(st == 0)
    return None


def lookup(b, kw):
    """the definition of a message, by contract"""
    raise NotImplementedError


def setup_ctor(en, vals):
    setup_frame(en)
    en.models.fn[step] = c_step
    en.models.fn[lookup] = lambda en, args, kw: definition_of(en, *args)
    en.contracts[M + "_set_attribute"] = c_set_attribute
    en.contracts[M + "_get_dict"] = lambda en, args, kw: definition_of(en, args[0], kw)
    for n, t in TABLES.items():
        en.tables[id(t)] = n


def sym_userdef(en, name):
    m = SMap(z3.Const(name, DYN))
    m.valkind = "def"
    return m


def construct(b, talker, msgid, mode, validate, userdefined, checksum, kw):
    """specified construction: the state of the message, NMEAMessageError or NMEATypeError"""
    if mode not in (0, 1, 2):
        raise NMEAMessageError("mode")
    if validate & 2:
        if talker not in nmt.NMEA_TALKERS or spec_msg.source(msgid, userdefined) is None:
            raise NMEAMessageError("unknown")
    b._talker, b._msgID, b._mode, b._validate = talker, msgid, mode, validate
    b._userdefined = {} if userdefined is None else userdefined
    try:
        d = lookup(b, kw)
        if d is None:
            if b._streaming:
                for i, text in enumerate(b._payload):
                    setattr(b, f"field_{i + 1:02d}", text)
        else:
            pos, index = 0, []
            for name in d.keys():
                pos, index = step(b, pos, d, name, index, kw)
    except REFUSED:
        raise NMEATypeError("refused") from None
    b._checksum = spec.checksum(spec.content_of(talker, msgid, b._payload)) if checksum is None else checksum


def outcome(f, /, *a, **kw):
    """(value, class of the documented error)"""
    try:
        return f(*a, **kw), None
    except NMEAMessageError:
        return None, NMEAMessageError
    except NMEATypeError:
        return None, NMEATypeError


def refuses(msg, name, value):
    """neither setting nor deleting the attribute is possible"""
    try:
        setattr(msg, name, value)
        return False
    except NMEAMessageError:
        pass
    try:
        delattr(msg, name)
        return False
    except NMEAMessageError:
        return True


def check_message(msg, bag, talker, msgid, mode):
    frame_start()
    ensure("attributes as specified", attrs_of(msg) == attrs_of(bag))
    ensure("payload as specified", same_list(msg.payload, bag._payload))
    ensure("talker, message id and mode exposed", msg.talker == talker and msg.msgID == msgid and msg.msgmode == mode)
    ensure("checksum as specified", msg.checksum == bag._checksum)
    ensure("serialized sentence", msg.serialize() == ("$" + spec.content_of(talker, msgid, bag._payload) + "*" + bag._checksum + "\r\n").encode("utf-8"))
    ensure("identity", same_text(msg, bag))
    ensure("reading the message writes nothing", frame_ok())


def same_text(msg, bag):
    try:
        a = msg.identity
    except TypeError:
        a = None
    try:
        b = ident(bag)
    except TypeError:
        b = None
    return a == b


HEADER = {"talker": Str(), "msgid": Str(), "mode": Int(), "validate": Int(0), "hp": Bool(), "ck": Str(), "given": Const(False, True),
          "user": Const(False, True), "userdef": Custom(sym_userdef)}


def blank(streaming):
    def make(en, name):
        o = SObj(Bag)
        n = z3.Const("payload_n", INT)
        o.f.update(_streaming=streaming, _hpnmeamode=SBool(z3.Const("hp", BOOL)),
                   _payload=PList(None, "str", z3.Const("payload", z3.ArraySort(INT, STR)), z3.IntVal(0), n) if streaming else PList([]))
        o.dyn = z3.K(STR, Val.Absent)
        return o
    return Custom(make)


@contract("C04", "C05", "C06", "C07", "C13", "C14", inputs=dict(HEADER, payload=StrList(), bag=blank(True)), opaque=CONVERT,
          setup=setup_ctor, dyn=(NMEAMessage,), budget=700)
def message_from_payload(talker, msgid, mode, validate, hp, ck, given, user, userdef, payload, bag):
    """the constructor with a payload, for any header, flags, definitions and fields"""
    userdefined = userdef if user else None
    checksum = ck if given else None
    frame_start()
    msg, err = outcome(NMEAMessage, talker, msgid, mode, hpnmeamode=hp, validate=validate, userdefined=userdefined, checksum=checksum,
                       payload=payload)
    ensure("only the new message is written", frame_ok())
    _, werr = outcome(construct, bag, talker, msgid, mode, validate, userdefined, checksum, {})
    ensure("refused exactly as specified", err == werr)
    if msg is not None and werr is None:
        check_message(msg, bag, talker, msgid, mode)
        ensure("where its id is known", msg._defsource == SOURCE[spec_msg.source(msgid, userdefined)])


@contract("C05", "C27", "C13", "C14", inputs=dict(HEADER, kw=KwMap(), bag=blank(False)), opaque=CONVERT, setup=setup_ctor,
          dyn=(NMEAMessage,), budget=700)
def message_from_keywords(talker, msgid, mode, validate, hp, ck, given, user, userdef, kw, bag):
    """the constructor with keywords, for any header, flags, definitions and values"""
    for n in EXPLICIT:
        assume(n not in kw)
    userdefined = userdef if user else None
    checksum = ck if given else None
    frame_start()
    msg, err = outcome(NMEAMessage, talker, msgid, mode, hp, validate, userdefined, checksum, **kw)
    ensure("only the new message is written", frame_ok())
    _, werr = outcome(construct, bag, talker, msgid, mode, validate, userdefined, checksum, kw)
    ensure("refused exactly as specified", err == werr)
    if msg is not None and werr is None:
        check_message(msg, bag, talker, msgid, mode)
        ensure("where its id is known", msg._defsource == SOURCE[spec_msg.source(msgid, userdefined)])


# ------------------------------------------------------------------ repr() and immutability
def equal_list(en, name):
    """another list with the elements of the list payload"""
    return PList(None, "str", z3.Const("payload", z3.ArraySort(INT, STR)), z3.IntVal(0), z3.Const("payload_n", INT))


PLAIN = {"talker": Str(), "msgid": Str(), "mode": Int(0, 2), "payload": StrList()}


@contract("C12", inputs=dict(PLAIN, again=Custom(equal_list), parsed=Const(True, False)), opaque=CONVERT, setup=setup_ctor, dyn=(NMEAMessage,), budget=700)
def repr_text(talker, msgid, mode, payload, again, parsed):
    """repr() is the call that builds the message again, and that call does"""
    ck = spec.checksum(spec.content_of(talker, msgid, payload)) if parsed else None
    msg, err = outcome(NMEAMessage, talker, msgid, mode, checksum=ck, payload=payload)
    copy, err2 = outcome(NMEAMessage, talker, msgid, mode, payload=again)
    ensure("built exactly when the original was", err == err2)
    if msg is not None and copy is not None:
        ensure("text of the constructor call", repr(msg) == "NMEAMessage('" + talker + "','" + msgid + "', " + str(mode) + ", payload=" + repr(payload) + ")")
        ensure("talker, id and mode", copy.talker == msg.talker and copy.msgID == msg.msgID and copy.msgmode == msg.msgmode)
        ensure("payload", same_list(copy.payload, msg.payload))
        ensure("attributes", attrs_of(copy) == attrs_of(msg))
        ensure("serialized sentence", copy.serialize() == msg.serialize())


def built(en, args, kw):
    """_do_attributes by contract: sets public attributes, payload and checksum, or raises a documented error"""
    obj = args[0]
    st = z3.Const("BUILT", INT)
    for i, e in enumerate((NMEAMessageError, NMEATypeError)):
        if en.branch(st == i + 1):
            raise Raised(SExc(e, ("by contract",)))
    en.set_dyn(obj, z3.Const("attrs_built", DYN))
    n = z3.Const("built_n", INT)
    en.assume(n >= 0)
    en.set_field(obj, "_payload", PList(None, "str", z3.Const("built_payload", z3.ArraySort(INT, STR)), z3.IntVal(0), n))
    en.set_field(obj, "_checksum", sym_str("built_ck"))
    return None


@contract("C16", inputs=dict(HEADER, payload=StrList(), kw=KwMap(), parsed=Const(True, False), name=Str(), value=AnyVal(), name2=Str(),
                             value2=AnyVal()),
          opaque={M + "_do_attributes": built}, setup=setup_ctor, dyn=(NMEAMessage,), budget=700)
def message_immutable(talker, msgid, mode, validate, hp, ck, given, user, userdef, payload, kw, parsed, name, value, name2, value2):
    """no attribute of a message, however it was built, can be set or deleted, again and again"""
    for n in EXPLICIT:
        assume(n not in kw)
    checksum = ck if given else None
    userdefined = userdef if user else None
    if parsed:
        msg, err = outcome(NMEAMessage, talker, msgid, mode, hp, validate, userdefined, checksum, payload=payload)
    else:
        msg, err = outcome(NMEAMessage, talker, msgid, mode, hp, validate, userdefined, checksum, **kw)
    if msg is not None:
        before = attrs_of(msg)
        fields = msg.payload
        raw = msg.serialize()
        frame_start()
        for n, v in ((name, value), (name2, value2), ("_payload", value), ("_immutable", False), ("__dict__", value), ("payload", value),
                     ("lat", value), ("__class__", value)):
            ensure("every attempt raises the message error", refuses(msg, n, v))
        ensure("nothing is written", frame_ok())
        ensure("attributes as before", attrs_of(msg) == before)
        ensure("payload as before", same_list(msg.payload, fields))
        ensure("serialized sentence as before", msg.serialize() == raw)


# ------------------------------------------------------------------ frames
@contract("C28", inputs=dict(HEADER, payload=StrList(), kw=KwMap(), parsed=Const(True, False)), opaque=CONVERT, setup=setup_ctor,
          dyn=(NMEAMessage,), budget=700)
def constructor_frame(talker, msgid, mode, validate, hp, ck, given, user, userdef, payload, kw, parsed):
    """the constructor and the readers of a message write nothing but the new message"""
    for n in EXPLICIT:
        assume(n not in kw)
    checksum = ck if given else None
    userdefined = userdef if user else None
    frame_start()
    if parsed:
        msg, err = outcome(NMEAMessage, talker, msgid, mode, hp, validate, userdefined, checksum, payload=payload)
    else:
        msg, err = outcome(NMEAMessage, talker, msgid, mode, hp, validate, userdefined, checksum, **kw)
    ensure("only the new message is written", frame_ok())
    if msg is not None:
        frame_start()
        text = msg.serialize()
        header = (repr(msg), msg.talker, msg.msgID, msg.msgmode, msg.payload, msg.checksum)
        ensure("reading the message writes nothing", frame_ok())
