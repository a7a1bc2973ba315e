"""Conversion between field text and typed values."""

import datetime
import math

from contracts import gens, spec, spec_msg
from pyvc.harness import (AnyVal, Bool, Const, DateOf, Int, Real, Str, TimeOf, assume, contract, digits, ensure,
                          same_value, within)
from pynmeagps import NMEAMessage
from pynmeagps.exceptions import NMEATypeError

# ------------------------------------------------------------- C09: text -> value
ODD = ["", " ", "0", "-0", "+5", "1e5", "inf", "nan", "1_0", "12", "3112", "311299", "010170", "310269", "300224", "290223",
       "29022023", "31122023", "01011", "235959", "235959.99", "240000", "236060", "000000.1234567", "12345", "5120.76",
       "05120.123456", "120.5", "12345", "1e0.5", "-05.1234", "9960.00000", "0000.00001", "00000.0", "-1234.5", "1234.", "5.12.3",
       "12 4.5", "nan4.00", "  12.0", "1234.5e1", "12345.678 "]


def g_field(rng):
    while True:
        att = rng.choice(spec.ATT_TYPES)
        r = rng.random()
        if r < 0.5:
            t = gens.field(att, rng)
        elif r < 0.7:
            t = rng.choice(ODD)
        elif r < 0.85:
            t = gens.mutate_text(gens.field(att, rng), rng)
        else:
            t = gens.noise_text(rng, 4)
        yield {"att": att, "text": t}


@contract("C09", inputs={"att": Const(*spec.ATT_TYPES), "text": Str()}, gen=g_field)
def field_value(att, text):
    """value of a field text, for every attribute type"""
    try:
        want, werr = spec.value(att, text), False
    except ValueError:
        want, werr = None, True
    try:
        got, gerr = NMEAMessage.str2val(text, att), False
    except (ValueError, NMEATypeError):
        got, gerr = None, True
    ensure("refused exactly when the text is not a number", gerr == werr)
    ensure("the value is the one the field denotes", same_value(got, want))


def g_unknown(rng):
    while True:
        yield {"att": rng.choice(["", "XX", "de", "D", "CHX", "U1", gens.noise_text(rng, 2)]), "text": gens.noise_text(rng, 3)}


@contract("C09", "C10", inputs={"att": Str(), "text": Str()}, gen=g_unknown)
def unknown_type(att, text):
    """an unknown attribute type is refused in both directions"""
    assume(att not in spec.ATT_TYPES)
    try:
        NMEAMessage.str2val(text, att)
        read = False
    except NMEATypeError:
        read = True
    try:
        NMEAMessage.val2str(text, att)
        write = False
    except NMEATypeError:
        write = True
    ensure("unknown type refused when reading", read)
    ensure("unknown type refused when writing", write)


@contract("C09", inputs={"day": Int(1, 31), "month": Int(1, 12), "year": Int(1969, 2068), "att": Const("DT", "DTL", "DM")},
          gen=lambda rng: iter(lambda: {"day": rng.randint(1, 28), "month": rng.randint(1, 12),
                                        "year": rng.randint(1969, 2068), "att": rng.choice(["DT", "DTL", "DM"])}, 0))
def date_fields(day, month, year, att):
    """a date field is the date of its day, month and year digits"""
    assume(day <= 28)
    if att == "DT":
        text = f"{day:02d}{month:02d}{year % 100:02d}"
    elif att == "DTL":
        text = f"{day:02d}{month:02d}{year:04d}"
    else:
        text = f"{month:02d}{day:02d}{year % 100:02d}"
    got = NMEAMessage.str2val(text, att)
    ensure("a date", got != "")
    ensure("day, month and year", got.day == day and got.month == month and got.year == year)


@contract("C09", inputs={"h": Int(0, 23), "m": Int(0, 59), "s": Int(0, 59), "us": Int(0, 999999),
                         "form": Const(0, 1, 2, 3)},
          gen=lambda rng: iter(lambda: {"h": rng.randint(0, 23), "m": rng.randint(0, 59), "s": rng.randint(0, 59),
                                        "us": rng.choice([0, 10000, 999999, rng.randint(0, 999999)]),
                                        "form": rng.randint(0, 3)}, 0))
def time_fields(h, m, s, us, form):
    """a time field is the time of its digits, the fraction optional"""
    text = f"{h:02d}{m:02d}{s:02d}"
    if form == 0:
        us = 0
    elif form == 1:
        us = us // 10000 * 10000
        text = text + f".{us // 10000:02d}"
    elif form == 2:
        us = us // 1000 * 1000
        text = text + f".{us // 1000:03d}"
    else:
        text = text + f".{us:06d}"
    got = NMEAMessage.str2val(text, "TM")
    ensure("a time", got != "")
    ensure("hour, minute, second", got.hour == h and got.minute == m and got.second == s)
    ensure("fraction", got.microsecond == us)


# ------------------------------------------------------------- C10: value -> text
def any_value(att, rng):
    r = rng.random()
    if r < 0.55:
        if att in ("LA", "LN"):
            return rng.uniform(-180, 180)
        if att == "DE":
            return rng.choice([0, 1, -5, 0.5, -2.25, round(rng.uniform(-1000, 1000), rng.randint(0, 6)), rng.uniform(-1e9, 1e9)])
        if att == "IN":
            return rng.randint(-10 ** 6, 10 ** 9)
        if att == "TM":
            return rng.choice([datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                                             rng.randint(0, 999999)),
                               "%02d:%02d:%02d.%02d" % (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                                                        rng.randint(0, 99))])
        if att in spec.DATE_FORMS:
            y, m, d = rng.randint(1969, 2068), rng.randint(1, 12), rng.randint(1, 28)
            return rng.choice([datetime.date(y, m, d), "%04d-%02d-%02d" % (y, m, d), "%04d%02d%02d" % (y, m, d)])
        return gens.field(att, rng)
    return rng.choice([None, True, 0, -1, 5, 1.5, "", "x", b"ab", "20240229", "2024-02-29", "12:34:56.78", gens.noise_text(rng, 3),
                       datetime.date(2024, 2, 29), datetime.time(1, 2, 3, 45678), datetime.datetime(2024, 2, 29, 23, 59, 59, 999999),
                       datetime.timedelta(1), [1], (1, 2), {}, 1e300, math.inf, math.nan])


def g_value(rng):
    while True:
        att = rng.choice(spec.ATT_TYPES)
        yield {"att": att, "val": any_value(att, rng)}


@contract("C10", inputs={"att": Const(*[a for a in spec.ATT_TYPES if a not in ("LA", "LN")]), "val": AnyVal()}, gen=g_value)
def field_text(att, val):
    """field text of any value, for every attribute type but positions"""
    assume(att not in ("LA", "LN"))
    got = NMEAMessage.val2str(val, att)
    if att in spec.DATE_FORMS:
        ensure("date text", got == spec.date_text(val, att))
    elif att == "TM":
        ensure("time text", got == spec.time_text(val))
    else:
        ensure("text of the value", got == str(val))


@contract("C10", inputs={"att": Const("LA", "LN"), "val": AnyVal(), "hp": Bool()},
          gen=lambda rng: iter(lambda: {"att": rng.choice(["LA", "LN"]), "hp": rng.random() < .5, "val": rng.choice(
              [None, "", "x", "5120.5", b"", datetime.date(2000, 1, 1), [1], (1,), {}, any_value("CH", rng)])}, 0))
def invalid_position(att, val, hp):
    """what is not a number has no position text"""
    assume(val is None or isinstance(val, (str, bytes, list, tuple, dict, datetime.date, datetime.time)))
    ensure("empty field", NMEAMessage.val2str(val, att, hp) == "")


@contract("C10", inputs={"att": Const("IN"), "val": Int()},
          gen=lambda rng: iter(lambda: {"att": "IN", "val": rng.choice([0, -1, rng.randint(-10 ** 12, 10 ** 12)])}, 0))
def integer_round_trip(att, val):
    ensure("integer reads back", same_value(NMEAMessage.str2val(NMEAMessage.val2str(val, att), att), val))


@contract("C10", inputs={"val": Real()},
          gen=lambda rng: iter(lambda: {"val": rng.choice([0.0, -0.0, rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10 ** rng.randint(-300, 300),
                                                           round(rng.uniform(-100, 100), 3)])}, 0))
def decimal_round_trip(val):
    ensure("decimal reads back", same_value(NMEAMessage.str2val(NMEAMessage.val2str(val, "DE"), "DE"), val))


@contract("C10", inputs={"att": Const(*spec.TEXT_TYPES), "val": Str()},
          gen=lambda rng: iter(lambda: {"att": rng.choice(spec.TEXT_TYPES), "val": gens.noise_text(rng)}, 0))
def text_round_trip(att, val):
    ensure("text reads back unchanged", NMEAMessage.str2val(NMEAMessage.val2str(val, att), att) == val)


@contract("C10", inputs={"att": Const("DT", "DTL", "DM"), "val": DateOf(1000, 9999)},
          gen=lambda rng: iter(lambda: {"att": rng.choice(["DT", "DTL", "DM"]), "val": datetime.date.fromordinal(
              rng.choice([rng.randint(365243, 3652059), rng.randint(718797, 755000)]))}, 0))
def date_round_trip(att, val):
    """dates read back (two digit years: 1969-2068)"""
    if att != "DTL":
        assume(val.year >= 1969 and val.year <= 2068)
    got = NMEAMessage.str2val(NMEAMessage.val2str(val, att), att)
    ensure("a date", got != "")
    ensure("year, month and day read back", got.year == val.year and got.month == val.month and got.day == val.day)


@contract("C10", inputs={"val": TimeOf()},
          gen=lambda rng: iter(lambda: {"val": datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
                                                             rng.choice([0, 999999, 5000, rng.randint(0, 999999)]))}, 0))
def time_round_trip(val):
    """times read back to the hundredth of a second"""
    got = NMEAMessage.str2val(NMEAMessage.val2str(val, "TM"), "TM")
    ensure("a time", got != "")
    ensure("hour, minute and second read back", got.hour == val.hour and got.minute == val.minute and got.second == val.second)
    ensure("hundredths read back", got.microsecond == val.microsecond // 10000 * 10000)


# ------------------------------------------------------------- C11: positions
LIMIT = {"LA": 90, "LN": 180}


def near_carry(rng, lim):
    """positions, many just below or at a whole minute or degree"""
    while True:
        r = rng.random()
        d = rng.randint(0, lim - 1)
        if r < 0.35:
            x = d + (rng.randint(0, 59) + 1 - rng.choice([1e-6, 4e-6, 5e-6, 6e-6, 4e-8, 6e-8, 1e-9, 1e-12])) / 60
        elif r < 0.5:
            x = d + 1 - rng.choice([1e-3, 1e-6, 1e-8, 1e-9, 1e-12])
        elif r < 0.65:
            x = rng.choice([0, 0.0, lim, d, d + 0.5, d + 1 / 60, 1e-9, 0.0166, 9.99, 0.1])
        else:
            x = rng.uniform(0, lim)
        if x <= lim:
            yield x if rng.random() < 0.5 else -x


def g_pos(rng):
    gs = {a: near_carry(rng, LIMIT[a]) for a in LIMIT}
    while True:
        a = rng.choice(["LA", "LN"])
        yield {"x": next(gs[a]), "att": a, "hp": rng.random() < .5}


@contract("C11", inputs={"x": Real(-180, 180), "att": Const("LA", "LN"), "hp": Const(False, True)}, gen=g_pos)
def position_text(x, att, hp):
    """(d)ddmm.mmmmm(mm) with minutes below 60, nearest to the magnitude"""
    assume(x <= LIMIT[att] and x >= -LIMIT[att])
    frac = 7 if hp else 5
    whole = 4 if att == "LA" else 5
    n = digits(NMEAMessage.val2str(x, att, hp), whole, frac)
    ensure("degrees and minutes with the documented number of digits", n is not None)
    unit = 10 ** frac
    deg = n // (100 * unit)
    mins = n % (100 * unit)
    ensure("minutes below 60", mins < 60 * unit)
    ensure("degrees in range", deg <= LIMIT[att])
    ensure("magnitude within half a unit of the last place", within(deg * 60 * unit + mins, abs(x) * 60 * unit, 0.5))


@contract("C11", inputs={"x": Real(-180, 180), "att": Const("LA", "LN"), "hp": Const(False, True)}, gen=g_pos)
def position_round_trip(x, att, hp):
    assume(x <= LIMIT[att] and x >= -LIMIT[att])
    got = NMEAMessage.str2val(NMEAMessage.val2str(x, att, hp), att)
    ensure("a number", got != "")
    ensure("reads back within the precision of the format",
           within(got, abs(x), 0.5 / (60 * 10 ** (7 if hp else 5)) + 0.5e-10))


@contract("C11", inputs={"deg": Int(0, 999), "mins": Int(0, 99), "part": Int(0, 9999999), "frac": Const(1, 2, 3, 4, 5, 6, 7),
                         "wd": Const(2, 3), "att": Const("LA", "LN")},
          gen=lambda rng: iter(lambda: {"deg": rng.randint(0, 180), "mins": rng.randint(0, 59), "part": rng.randint(0, 9999999),
                                        "frac": rng.randint(1, 7), "wd": rng.choice([2, 3]), "att": rng.choice(["LA", "LN"])}, 0))
def position_read(deg, mins, part, frac, wd, att):
    """(d)ddmm.m... is degrees + minutes / 60"""
    assume(deg < 10 ** wd and part < 10 ** frac)
    text = f"{deg:03d}" if wd == 3 else f"{deg:02d}"
    text = text + f"{mins:02d}." + DIGITS[frac](part)
    got = NMEAMessage.str2val(text, att)
    ensure("a number", got != "")
    ensure("degrees plus minutes over sixty, to ten decimals", within(got, deg + (mins + part / 10 ** frac) / 60, 0.5e-10))


DIGITS = {
    1: lambda n: f"{n:01d}",
    2: lambda n: f"{n:02d}",
    3: lambda n: f"{n:03d}",
    4: lambda n: f"{n:04d}",
    5: lambda n: f"{n:05d}",
    6: lambda n: f"{n:06d}",
    7: lambda n: f"{n:07d}",
}


@contract("C11", inputs={"att": Const("LA", "LN"), "text": Str()},
          gen=lambda rng: iter(lambda: {"att": rng.choice(["LA", "LN"]), "text": rng.choice(
              [gens.field("LA", rng), gens.field("LN", rng), rng.choice(ODD), gens.mutate_text(gens.field("LN", rng), rng),
               gens.noise_text(rng, 3)])}, 0))
def position_of_text(att, text):
    """any text: degrees + minutes / 60 or the empty string"""
    ensure("value", same_value(NMEAMessage.str2val(text, att), spec.position_value(text)))


# ------------------------------------------------------------- C27: nominal values
@contract("C27", inputs={"att": Str(), "mode": Int(0, 2)})
def nominal_value(att, mode):
    """nominal value of every attribute type and mode (dates and times: of the clock)"""
    now = datetime.datetime.now(datetime.timezone.utc)
    try:
        got, err = NMEAMessage.nomval(att, mode), False
    except NMEATypeError:
        got, err = None, True
    ensure("unknown types are refused", err == (att not in spec.ATT_TYPES))
    if not err:
        if att == "TM":
            ensure("the current time", got == now.time())
        elif att in spec.DATE_FORMS:
            ensure("the current date", got == now.date())
        else:
            ensure("nominal value", same_value(got, spec_msg.nominal(att, mode)))
