"""Executable specifications, written from the property statements
(independently of /repo's code; they read only its message definition tables)."""

from datetime import datetime, timedelta, timezone

from pyvc.harness import choose


def checksum(content):
    """NMEA 0183: XOR of all characters, two upper case hexadecimal digits"""
    acc = 0
    for ch in content:
        acc = acc ^ ord(ch)
    return f"{acc:02X}"


def content_of(talker, msgid, payload):
    """text between $ and *"""
    return talker + msgid + "".join("," + f for f in payload)


def parts(text):
    """content, talker, msgid, payload, checksum of a sentence; None if malformed"""
    body = text.strip("$\r\n")
    content, star, ck = body.partition("*")
    if star == "":
        return None
    fields = content.split(",")
    hdr = fields[0]
    n = 1 if hdr.startswith("P") else 2
    return content, hdr[:n], hdr[n:], fields[1:], ck


# ------------------------------------------------------------------- values
TEXT_TYPES = ("CH", "ST", "QS", "LAD", "LND", "HX")
DATE_FORMS = {"DT": "%d%m%y", "DTL": "%d%m%Y", "DM": "%m%d%y"}
ATT_TYPES = TEXT_TYPES + ("DE", "IN", "LA", "LN", "TM", "DT", "DTL", "DM")


def date_value(text, att):
    """calendar date denoted by a date field, or the empty string"""
    try:
        return datetime.strptime(text, DATE_FORMS[att]).date()
    except ValueError:
        return ""


def time_value(text):
    """time of day denoted by hhmmss or hhmmss.fraction, or the empty string"""
    try:
        return datetime.strptime(text + ".0" if len(text) == 6 else text, "%H%M%S.%f").time()
    except ValueError:
        return ""


def position_value(text):
    """degrees denoted by (d)ddmm.m..., or the empty string"""
    point = text.find(".")
    if point < 4:
        return ""
    try:
        deg = float(text[0:point - 2])
        minutes = float(text[point - 2:])
    except ValueError:
        return ""
    return round(abs(deg) + minutes / 60, 10)


def value(att, text):
    """typed value of a field; ValueError if a number cannot be converted"""
    if att in TEXT_TYPES:
        return text
    if att == "DE":
        return "" if text == "" else float(text)
    if att == "IN":
        return "" if text == "" else int(text)
    if att in ("LA", "LN"):
        return position_value(text)
    if att == "TM":
        return time_value(text)
    if att in DATE_FORMS:
        return date_value(text, att)
    raise LookupError(att)


def date_text(val, att):
    """field text of a date, or of a text yyyymmdd / yyyy-mm-dd; empty for anything else"""
    if isinstance(val, str):
        d = val.replace("-", "")
        y, m, dd = d[0:4], d[4:6], d[6:8]
        return {"DT": dd + m + y[2:4], "DTL": dd + m + y, "DM": m + dd + y[2:4]}[att]
    try:
        return val.strftime(DATE_FORMS[att])
    except (AttributeError, TypeError, ValueError):
        return ""


def time_text(val):
    """hhmmss.ss of a time of day or a text hh:mm:ss.ss; empty for anything else"""
    if isinstance(val, str):
        return val.replace(":", "")
    try:
        return val.strftime("%H%M%S.%f")[:9]
    except (AttributeError, TypeError, ValueError):
        return ""


# ------------------------------------------------------------------- leap seconds
NTP0 = datetime(1900, 1, 1, tzinfo=timezone.utc)
IERS = [  # https://hpiers.obspm.fr/iers/bul/bulc/ntp/leap-seconds.list : NTP seconds, TAI - UTC
    (2272060800, 10), (2287785600, 11), (2303683200, 12), (2335219200, 13), (2366755200, 14), (2398291200, 15),
    (2429913600, 16), (2461449600, 17), (2492985600, 18), (2524521600, 19), (2571782400, 20), (2603318400, 21),
    (2634854400, 22), (2698012800, 23), (2776982400, 24), (2840140800, 25), (2871676800, 26), (2918937600, 27),
    (2950473600, 28), (2982009600, 29), (3029443200, 30), (3076704000, 31), (3124137600, 32), (3345062400, 33),
    (3439756800, 34), (3550089600, 35), (3644697600, 36), (3692217600, 37)]


def leap(t, gnss):
    """offset of GNSS time from UTC at an (aware) UTC time"""
    tai = 19 + (14 if gnss == "C" else 0)
    for key, val in IERS:
        tai = choose(t >= NTP0 + timedelta(seconds=key), val, tai)
    return tai - (33 if gnss == "C" else 19)
