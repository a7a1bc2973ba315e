"""Small helpers and immutability."""

from contracts import gens, spec
from pyvc.harness import Const, Int, KwMap, Real, Str, assume, close, contract, ensure, within
from pynmeagps import NMEAMessage, NMEAReader
from pynmeagps.exceptions import NMEAMessageError
from pynmeagps.nmeahelpers import groupsize, hex2str, knots2spd, msgdesc
from pynmeagps.nmeatypes_core import NMEA_MSGIDS, NMEA_MSGIDS_PROP


# ------------------------------------------------------------------- group size
def g_kwargs(rng):
    while True:
        kw = {}
        for _ in range(rng.randint(0, 6)):
            name = rng.choice(["svid", "elv", "az", "cno", "lat", "NS", "a", "x1"])
            if rng.random() < 0.8:
                name += f"_{rng.randint(0, 120):0{rng.choice([1, 2, 2, 3])}d}"
            kw[name] = rng.choice([0, 1, "", None, "text"])
        yield {"kw": kw}


@contract("C26", native_only=True, gen=g_kwargs)
def group_size(kw):
    want = 0
    for name in kw:
        digits = name.rpartition("_")[2] if "_" in name else ""
        if digits:
            want = max(want, int(digits))
    ensure("largest numeric suffix", groupsize(**kw) == want)


def size_of(kw):
    size = 0
    for name in kw:
        bits = name.split("_", 1)
        if len(bits) > 1:
            size = max(size, int(bits[1]))
    return size


@contract("C26", inputs={"kw": KwMap()}, gen=g_kwargs)
def group_size_any(kw):
    """any keyword arguments; a suffix that is no number is a ValueError"""
    try:
        got = groupsize(**kw)
    except ValueError:
        got = None
    try:
        want = size_of(kw)
    except ValueError:
        want = None
    ensure("largest numeric suffix", got == want)


# ---------------------------------------------------------------------- hex text
HEX = "0123456789ABCDEF"


def hex_text(num, padding):
    out = ""
    while True:
        out = HEX[num % 16] + out
        num = num // 16
        if num == 0:
            break
    while len(out) < padding:
        out = "0" + out
    return out


@contract("C26", native_only=True, gen=lambda rng: iter(lambda: {
    "num": rng.choice([0, 1, 9, 10, 15, 16, 255, 256, 0xabcdef, rng.randint(0, 2 ** rng.randint(1, 70))]),
    "padding": rng.choice([0, 0, 1, 2, 4, 6, 8, 10, 12, rng.randint(0, 99)])}, 0))
def hex_helper(num, padding):
    ensure("upper case hexadecimal, zero padded", hex2str(num, padding) == hex_text(num, padding))
    if padding == 0:
        ensure("no padding by default", hex2str(num) == hex_text(num, 0))


@contract("C26", inputs={"num": Int(0, 2 ** 64), "padding": Const(0, 1, 2, 4, 6, 8, 10, 16)}, gen=None)
def hex_format(num, padding):
    """as Python formats hexadecimal numbers"""
    want = f"{num:X}" if padding == 0 else f"{num:0{padding}X}"
    ensure("upper case hexadecimal, zero padded", hex2str(num, padding) == want)


# ------------------------------------------------------------------------ speeds
KNOT = 1852 / 3600                     # m/s
UNITS = {"MS": KNOT, "FS": KNOT / 0.3048, "MPH": 1852 / 1609.344, "KMPH": 1.852}
SPELL = ("MS", "ms", "Ms", "mS", "FS", "fs", "Fs", "fS", "MPH", "mph", "Mph", "mPh", "KMPH", "kmph", "Kmph", "kMPh")


@contract("C26", inputs={"knots": Real(-100000, 100000), "unit": Const(*SPELL)}, gen=lambda rng: iter(lambda: {
    "knots": rng.choice([0, 1, 1.0, -3.5, rng.uniform(-1000, 1000)]), "unit": rng.choice(SPELL)}, 0))
def speed(knots, unit):
    want = knots * UNITS[unit.upper()]
    ensure("knots times the factor of the unit", within(knots2spd(knots, unit), want, abs(want) * 2e-6))


@contract("C26", inputs={"knots": Real(-100000, 100000)}, gen=lambda rng: iter(lambda: {"knots": rng.uniform(-1000, 1000)}, 0))
def speed_default(knots):
    ensure("metres per second by default", within(knots2spd(knots), knots * KNOT, abs(knots) * 2e-6))


@contract("C26", inputs={"knots": Real(-100000, 100000), "unit": Str()}, gen=lambda rng: iter(lambda: {
    "knots": rng.uniform(-1000, 1000), "unit": rng.choice(["", "KTS", "m/s", "MS ", "KM", "kmh", gens.noise_text(rng, 3), "MPH"])}, 0))
def speed_unknown(knots, unit):
    try:
        knots2spd(knots, unit)
    except KeyError:
        ensure("only unknown units are refused", unit.upper() not in ("MS", "FS", "MPH", "KMPH"))
        return
    ensure("an unknown unit is a KeyError", unit.upper() in ("MS", "FS", "MPH", "KMPH"))


@contract("C26", native_only=True, gen=lambda rng: iter(lambda: {
    "knots": rng.choice([None, {}, object()]), "unit": rng.choice(SPELL)}, 0), native_s=1)
def speed_type(knots, unit):
    try:
        knots2spd(knots, unit)
    except TypeError:
        return
    ensure("no number is a TypeError", False)


# ------------------------------------------------------------------ descriptions
def g_id(rng):
    ids = list(NMEA_MSGIDS) + list(NMEA_MSGIDS_PROP)
    while True:
        i = rng.choice(ids)
        r = rng.random()
        yield {"msgid": i if r < .7 else rng.choice([i.lower(), i + "X", i[:-1], "", gens.noise_text(rng, 3)])}


@contract("C26", inputs={"msgid": Str()}, gen=g_id,
          tables={"NMEA_MSGIDS": NMEA_MSGIDS, "NMEA_MSGIDS_PROP": NMEA_MSGIDS_PROP})
def description(msgid):
    got = msgdesc(msgid)
    if msgid in NMEA_MSGIDS:
        ensure("standard description", got == NMEA_MSGIDS[msgid])
    elif msgid in NMEA_MSGIDS_PROP:
        ensure("proprietary description", got == NMEA_MSGIDS_PROP[msgid])
    else:
        ensure("unknown id", got == f"Unknown msgID {msgid}")
