"""Executable specification of messages, written from the property statements.

Reads only the id and definition tables of /repo; never its code."""

from contracts import spec
import pynmeagps.nmeatypes_core as nmt
import pynmeagps.nmeatypes_get as nmg
import pynmeagps.nmeatypes_get_prop as nmgp
import pynmeagps.nmeatypes_poll as nmp
import pynmeagps.nmeatypes_poll_prop as nmpp
import pynmeagps.nmeatypes_set as nms
import pynmeagps.nmeatypes_set_prop as nmsp

GET, SET, POLL = 0, 1, 2
STANDARD = {GET: nmg.NMEA_PAYLOADS_GET, SET: nms.NMEA_PAYLOADS_SET, POLL: nmp.NMEA_PAYLOADS_POLL}
PROPRIETARY = {GET: nmgp.NMEA_PAYLOADS_GET_PROP, SET: nmsp.NMEA_PAYLOADS_SET_PROP, POLL: nmpp.NMEA_PAYLOADS_POLL_PROP}
VENDORS = ("ASHR", "GPPADV", "FEC", "SSN", "TNL", "UBX")     # the first field names the message

# number of payload fields -> layout
LAYOUT_BY_LENGTH = {
    "QTMCFGUART": {SET: {2: "_CURRBAUD", 3: "_BAUD", 6: "_CURR"}, POLL: {1: "_CURR"}},
    "QTMCFGMSGRATE": {GET: {3: "_NOVER", 5: "_INTFNOVER", 6: "_INTF"}, SET: {3: "_NOVER", 5: "_INTFNOVER", 6: "_INTF"},
                      POLL: {2: "_NOVER", 4: "_INTFNOVER", 5: "_INTF"}},
    "QTMCFGPPS": {SET: {3: "_DIS"}},
    "QTMCFGSAT": {SET: {4: "_LOW"}, GET: {4: "_LOW"}},
    "QTMCFGGEOFENCE": {SET: {13: "_POLY", 3: "_DIS"}, GET: {13: "_POLY"}},
}


def layout_by_keywords(name, mode, k):
    """layout of a created message: the one that has the keywords supplied"""
    if name == "QTMCFGUART":
        if mode == POLL:
            return "" if "portid" in k else "_CURR"
        if mode == SET and "baudrate" in k:
            if "databit" in k:
                return "" if "portid" in k else "_CURR"
            return "_BAUD" if "portid" in k else "_CURRBAUD"
    if name == "QTMCFGMSGRATE":
        if "porttype" in k:
            return "_INTF" if "msgver" in k else "_INTFNOVER"
        return "" if "msgver" in k else "_NOVER"
    if name == "QTMCFGPPS" and mode == SET:
        return "_DIS" if k.get("enable", 1) == 0 else ""
    if name == "QTMCFGSAT" and mode in (GET, SET):
        return "" if "maskhigh" in k else "_LOW"
    if name == "QTMCFGGEOFENCE" and mode in (GET, SET):
        if "lon1" in k:
            return "_POLY"
        if mode == SET and k.get("geofencemode", 1) == 0:
            return "_DIS"
    return ""


class Refused(Exception):
    """construction must end in an error"""


class RefusedMessage(Refused):
    name = "NMEAMessageError"


class RefusedType(Refused):
    name = "NMEATypeError"


def source(msgid, userdefined):
    """where a message id is known"""
    if msgid in nmt.NMEA_MSGIDS:
        return "standard"
    if msgid in nmt.NMEA_MSGIDS_PROP or msgid in VENDORS:
        return "proprietary"
    if userdefined is not None and msgid in userdefined:
        return "user"
    return None


def layout(name, mode, payload, kw):
    """key of the layout of a proprietary message (payload is None for created messages)"""
    if name == "STMDRSENMSG":
        if payload is not None:
            if not payload:
                raise RefusedType()
            return name + "_" + payload[0]
        return name + "_" + str(kw.get("msgtype", ""))
    if payload is None:
        return name + layout_by_keywords(name, mode, kw)
    if name.startswith("QTM") and mode == GET:
        if len(payload) == 1 and payload[0] == "OK":
            return "QTMACK"
        if len(payload) == 2 and payload[0] == "ERROR":
            return "QTMNAK"
    if name == "QTMSN" and mode == GET:
        if not payload:
            raise RefusedType()
        return name + ("_ALT" if payload[0].isnumeric() else "")
    return name + LAYOUT_BY_LENGTH.get(name, {}).get(mode, {}).get(len(payload), "")


def definition(msgid, mode, payload, kw, userdefined, validate=0):
    """(key, definition or None) for a message id"""
    src = source(msgid, userdefined)
    key = msgid
    if msgid in VENDORS:
        if payload is not None:
            if not payload or msgid == "ASHR" and len(payload[0]) < 2:
                raise RefusedType()
            if not (msgid == "ASHR" and payload[0][1].isdigit()):     # PASHR attitude sentence has no name
                key += payload[0]
        elif "msgId" in kw:
            if not isinstance(kw["msgId"], str):
                raise RefusedType()
            key += kw["msgId"]
        else:
            raise RefusedMessage()
    if key not in nmt.NMEA_MSGIDS_PROP and not (userdefined is not None and key in userdefined):
        key = key.upper()
    if src == "proprietary":
        key = layout(key, mode, payload, kw)
        d = PROPRIETARY[mode].get(key)
        if mode == POLL and key in STANDARD[POLL]:
            d = STANDARD[POLL][key]
    elif src == "user":
        d = userdefined.get(key)
    else:
        d = STANDARD[mode].get(key)
    if d is None and validate & 2:
        raise RefusedMessage()
    return key, d


def admitted(talker, msgid, mode, userdefined, validate):
    """refusals that depend on the header alone"""
    if mode not in (0, 1, 2):
        raise RefusedMessage()
    if validate & 2 and (talker not in nmt.NMEA_TALKERS or source(msgid, userdefined) is None):
        raise RefusedMessage()


def suffixed(name, index):
    return name + "".join("_" + str(i).zfill(2) for i in index)


def signed(out, att, letter):
    """hemisphere letter att of a position decoded before"""
    name, minus = ("lat", "S") if att == "LAD" else ("lon", "W")
    v = out.get(name)
    if isinstance(v, (int, float)):
        out[name] = -abs(v) if letter == minus else abs(v)


def decode(pdict, payload, brackets=False):
    """attributes of a payload under a definition"""
    out, pos = {}, 0

    def go(d, index):
        nonlocal pos
        for name, a in d.items():
            if isinstance(a, tuple):
                count, sub = a
                if count == "None":
                    n = (len(payload) - pos) // len(sub)
                elif isinstance(count, int):
                    n = count
                else:
                    n = out.get(count)
                    if not isinstance(n, int):
                        raise RefusedType()
                for i in range(n):
                    go(sub, index + (i + 1,))
            elif pos < len(payload):
                text = payload[pos]
                if brackets:
                    text = text.replace("[", "").replace("]", "")
                try:
                    v = spec.value(a, text)
                except (ValueError, LookupError) as e:
                    raise RefusedType() from e
                out[suffixed(name, index)] = v
                if a in ("LAD", "LND"):
                    signed(out, a, v)
                pos += 1
    go(pdict, ())
    return out


def generic(payload):
    return {"field_" + str(i + 1).zfill(2): f for i, f in enumerate(payload)}


def parsed(talker, msgid, mode, payload, userdefined=None, validate=1):
    """(definition key, attributes, known) of a message with a payload"""
    admitted(talker, msgid, mode, userdefined, validate)
    key, d = definition(msgid, mode, payload, {}, userdefined, validate)
    if d is None:
        return key, generic(payload), False
    return key, decode(d, payload, talker == "P" and msgid == "SSN" and payload[:1] == ["SNC"]), True


def identity(talker, msgid, attrs):
    if talker == "P" and msgid in VENDORS and "msgId" in attrs:
        return talker + msgid + attrs["msgId"]
    return talker + msgid


# ------------------------------------------------------------------ created messages
NOW = object()      # nominal date or time: the current one


def nominal(att, mode):
    """value of an attribute that is not given"""
    if att in ("CH", "ST", "LA", "LN"):
        return ""
    if att in ("TM", "DT", "DTL", "DM"):
        return NOW
    if att == "QS":
        return {POLL: "R", SET: "W"}.get(mode, "OK")
    return {"LAD": "N", "LND": "E", "HX": "0", "DE": 0.0, "IN": 0}[att]


def suffix_count(kw):
    """largest numeric suffix of the keywords"""
    n = 0
    for name in kw:
        if "_" in name:
            n = max(n, int(name.split("_", 1)[1]))
    return n


def created(msgid, mode, kw, userdefined=None):
    """(definition key, [(attribute, type, value)] in payload order, known)"""
    key, d = definition(msgid, mode, None, kw, userdefined)
    if d is None:
        return key, [], False
    out, seen = [], {}

    def go(d, index):
        for name, a in d.items():
            if isinstance(a, tuple):
                count, sub = a
                if count == "None":
                    n = suffix_count(kw)
                elif isinstance(count, int):
                    n = count
                else:
                    n = seen.get(count)
                    if not isinstance(n, int):
                        raise RefusedType()
                for i in range(n):
                    go(sub, index + (i + 1,))
                continue
            full = suffixed(name, index)
            if a in ("LAD", "LND") and ("lat" if a == "LAD" else "lon") in seen:
                pos = seen["lat" if a == "LAD" else "lon"]
                neg = isinstance(pos, (int, float)) and pos < 0
                v = ("S" if neg else "N") if a == "LAD" else ("W" if neg else "E")
            elif full in kw:
                v = kw[full]
            else:
                v = nominal(a, mode)
            seen[full] = v
            out.append((full, a, v))
    go(d, ())
    return key, out, True
