"""Leap seconds, week numbers and time of week."""

from datetime import datetime, timedelta, timezone

from contracts import spec
from contracts.opaque import bind
from pyvc.core import STime
from pyvc.harness import Bool, Const, Int, Time, assume, contract, ensure
from pynmeagps.nmeahelpers import leapsecond, utc2wnotow, wnotow2utc

UTC = timezone.utc
YEAR = 31557600 * 1000000
LO, HI = -62000000000 * 1000000, 253000000000 * 1000000       # about year 5 to 9987
MS = timedelta(milliseconds=1)
WEEK_MS = 604800000
ZONES = [timezone(timedelta(minutes=m)) for m in (-720, -300, -1, 1, 60, 345, 840)]
SYS = ("G", "E", "C", "J", "I")
EP0 = {"G": datetime(1980, 1, 6, tzinfo=UTC), "J": datetime(1980, 1, 6, tzinfo=UTC), "R": datetime(1980, 1, 6, tzinfo=UTC),
       "E": datetime(1999, 8, 22, tzinfo=UTC), "I": datetime(1999, 8, 22, tzinfo=UTC), "C": datetime(2006, 1, 1, tzinfo=UTC)}
EP_US = {k: int((v - datetime(1970, 1, 1, tzinfo=UTC)).total_seconds()) * 1000000 for k, v in EP0.items()}
ROLL = {"G": 1024, "J": 1024, "R": 1024, "I": 1024, "E": 4096, "C": 8192}
EDGES = [spec.NTP0 + timedelta(seconds=s) for s, _ in spec.IERS]


def _leapsecond(en, args, kw):
    """leapsecond by its contract (proved in this module under C21)"""
    a = bind(leapsecond, args, kw)
    t = a["dat"]
    if isinstance(t, STime) and not t.aware:
        t = STime(t.z, True)
    elif isinstance(t, datetime) and t.tzinfo is None:
        t = t.replace(tzinfo=UTC)
    return en.call_interpreted(spec.leap, [t, a["gnss"]], {})


LEAP = {"pynmeagps.nmeahelpers.leapsecond": _leapsecond}


def any_time(rng, lo=datetime(5, 1, 1, tzinfo=UTC)):
    """aware time, often near an edge"""
    while True:
        r = rng.random()
        if r < 0.4:
            t = rng.choice(EDGES)
        elif r < 0.55:
            t = EP0[rng.choice(SYS)] + timedelta(days=7 * rng.randint(0, 3000))
        elif r < 0.65:
            t = datetime(rng.randint(5, 9980), 1, 1, tzinfo=UTC)
        elif r < 0.7:
            t = EP0[rng.choice(SYS)] + timedelta(days=7 * 1024 * rng.randint(0, 12))
        else:
            t = datetime(1970, 1, 1, tzinfo=UTC) + timedelta(seconds=rng.randint(-10 ** 9, 3 * 10 ** 9))
        r = rng.random()
        if r < 0.5:
            t += timedelta(seconds=rng.randint(-40, 40))
        if r < 0.8:
            t += timedelta(milliseconds=rng.randint(-1100, 1100))
        if r < 0.3:
            t += timedelta(microseconds=rng.choice([1, 499, 500, 501, 999, rng.randint(0, 999)]))
        if t >= lo:
            return t


def g_leap(rng):
    while True:
        yield {"t": any_time(rng), "gnss": rng.choice(SYS)}


@contract("C21", inputs={"t": Time(LO, HI), "gnss": Const(*SYS)}, gen=g_leap)
def leap_offset(t, gnss):
    ensure("offset of the latest table entry less that of the epoch", leapsecond(t, gnss) == spec.leap(t, gnss))


@contract("C21", inputs={"t": Time(LO, HI)}, gen=lambda rng: iter(lambda: {"t": any_time(rng)}, 0))
def leap_offset_default(t):
    ensure("GPS unless told otherwise", leapsecond(t) == spec.leap(t, "G"))


@contract("C21", inputs={"t": Time(LO, HI, False), "gnss": Const(*SYS)},
          gen=lambda rng: iter(lambda: {"t": any_time(rng).replace(tzinfo=None), "gnss": rng.choice(SYS)}, 0))
def leap_offset_naive(t, gnss):
    ensure("naive times are UTC", leapsecond(t, gnss) == spec.leap(t.replace(tzinfo=UTC), gnss))


@contract("C21", opaque=LEAP, inputs={"s": Time(LO, HI), "t": Time(LO, HI), "gnss": Const(*SYS)}, native_s=1,
          gen=lambda rng: iter(lambda: {"s": any_time(rng), "t": any_time(rng), "gnss": rng.choice(SYS)}, 0))
def leap_offset_monotone(s, t, gnss):
    assume(s <= t)
    assume(s >= datetime(1972, 1, 1, tzinfo=UTC))
    ensure("never decreases after 1972", leapsecond(s, gnss) <= leapsecond(t, gnss))


@contract("C21", native_only=True, native_s=1,
          gen=lambda rng: iter(lambda: {"t": any_time(rng), "gnss": rng.choice(SYS), "zone": rng.choice(ZONES)}, 0))
def leap_offset_zones(t, gnss, zone):
    ensure("the instant counts, not the zone", leapsecond(t.astimezone(zone), gnss) == spec.leap(t, gnss))


# --------------------------------------------------------------- week and time of week
def g_utc(rng, aware=True):
    while True:
        g = rng.choice(SYS + ("R",))
        t = any_time(rng, EP0[g])
        yield {"utc": t if aware else t.replace(tzinfo=None), "gnss": g, "mod": rng.random() < .5}


def week_checks(utc, gnss, mod, got):
    wno, tow, ls = got
    ensure("leap second offset returned", ls == (0 if gnss == "R" else spec.leap(utc, gnss)))
    ensure("time of week within the week", 0 <= tow)
    ensure("time of week within the week", tow < WEEK_MS)
    since = utc - EP0[gnss] + timedelta(seconds=ls)
    weeks = since // timedelta(days=7)
    rest = since - timedelta(days=7) * weeks
    ensure("time of week, truncated to milliseconds", timedelta(milliseconds=tow) <= rest)
    ensure("time of week, to the millisecond", rest < timedelta(milliseconds=tow + 1))
    ensure("week number", wno == (weeks % ROLL[gnss] if mod else weeks))


@contract("C22", opaque=LEAP, inputs={"utc": Time(LO, HI), "gnss": Const("G", "E", "C", "J", "I", "R"), "mod": Const(False, True)}, gen=g_utc)
def utc_to_week(utc, gnss, mod):
    assume(utc >= EP0[gnss])
    week_checks(utc, gnss, mod, utc2wnotow(utc, gnss, mod))


@contract("C22", opaque=LEAP, inputs={"utc": Time(LO, HI, False), "gnss": Const("G", "C"), "mod": Const(False, True)}, native_s=1,
          gen=lambda rng: g_utc(rng, False))
def utc_to_week_naive(utc, gnss, mod):
    assume(utc.replace(tzinfo=UTC) >= EP0[gnss])
    week_checks(utc.replace(tzinfo=UTC), gnss, mod, utc2wnotow(utc, gnss, mod))


@contract("C22", opaque=LEAP, inputs={"utc": Time(LO, HI)}, native_s=1, gen=lambda rng: iter(lambda: {"utc": any_time(rng, EP0["G"])}, 0))
def utc_to_week_default(utc):
    assume(utc >= EP0["G"])
    week_checks(utc, "G", True, utc2wnotow(utc))


@contract("C22", native_only=True, native_s=1,
          gen=lambda rng: iter(lambda: {"gnss": rng.choice(SYS), "mod": rng.random() < .5}, 0))
def utc_to_week_now(gnss, mod):
    """no time given: now"""
    t0 = datetime.now(UTC)
    wno, tow, ls = utc2wnotow(gnss=gnss, modwno=mod)
    t1 = datetime.now(UTC)
    ensure("leap second offset now", ls in (spec.leap(t0, gnss), spec.leap(t1, gnss)))
    a = (t0 - EP0[gnss] + timedelta(seconds=ls)) // MS
    b = (t1 - EP0[gnss] + timedelta(seconds=ls)) // MS
    ensure("the current week and time", any((w // WEEK_MS % ROLL[gnss] if mod else w // WEEK_MS, w % WEEK_MS) == (wno, tow)
                                            for w in range(a, b + 1)))


@contract("C22", opaque=LEAP, inputs={"utc": Time(LO, HI), "gnss": Const("G", "E", "C", "J", "I", "R"), "mod": Const(False, True)}, gen=g_utc)
def week_round_trip(utc, gnss, mod):
    assume(utc >= EP0[gnss])
    wno, tow, _ = utc2wnotow(utc, gnss, False)
    if mod:
        assume(wno < ROLL[gnss])
    back = wnotow2utc(wno, tow, gnss=gnss, modwno=mod)
    ensure("the same time, not later", back <= utc)
    ensure("the same time to the millisecond", utc < back + MS)
    ensure("whole milliseconds", (back - EP0[gnss]) % MS == timedelta(0))


def g_week(rng):
    while True:
        g = rng.choice(SYS + ("R",))
        yield {"wno": rng.choice([0, 1, 1023, 1024, 4095, 4096, 8191, 8192, rng.randint(0, 20000)]),
               "tow": rng.choice([0, WEEK_MS - 1, WEEK_MS, rng.randint(0, 2 * WEEK_MS)]), "ls": rng.randint(-5, 40), "gnss": g,
               "mod": rng.random() < .5}


@contract("C22", opaque=LEAP, inputs={"wno": Int(0, 300000), "tow": Int(0, 10 ** 12), "ls": Int(-100, 100),
                         "gnss": Const("G", "E", "C", "J", "I", "R"), "mod": Const(False, True)}, gen=g_week)
def week_to_utc(wno, tow, ls, gnss, mod):
    """explicit leap second offset"""
    weeks = wno % ROLL[gnss] if mod else wno
    want = EP0[gnss] + timedelta(days=7 * weeks, milliseconds=tow % WEEK_MS)
    if gnss != "R":
        want = want - timedelta(seconds=ls)
    ensure("epoch plus weeks plus time of week less leap seconds", wnotow2utc(wno, tow, ls, gnss, modwno=mod) == want)


def g_roll(rng):
    now = datetime.now(UTC)
    while True:
        g = rng.choice(SYS)
        span = timedelta(days=7 * ROLL[g])
        lag = rng.choice([timedelta(seconds=1), timedelta(seconds=rng.randint(1, 40)), timedelta(seconds=rng.randint(1, 10 ** 9)),
                          timedelta(days=7 * rng.randint(1, 9000), seconds=rng.randint(-20, 20)),
                          span - timedelta(seconds=rng.randint(30, 200))])
        u = now - lag
        if lag < span - timedelta(seconds=20) and u >= EP0[g] + timedelta(seconds=1):
            yield {"utc": u, "gnss": g}


@contract("C22", native_only=True, gen=g_roll)
def autoroll_latest(utc, gnss):
    """a time less than one rollover ago comes back from its modular week number"""
    wno, tow, _ = utc2wnotow(utc, gnss, True)
    back = wnotow2utc(wno, tow, gnss=gnss, autoroll=True)
    ensure("the latest date not after now", back == EP0[gnss] + ((utc - EP0[gnss]) // MS) * MS)


@contract("C22", native_only=True, native_s=1, gen=lambda rng: iter(lambda: {
    "gnss": rng.choice(SYS), "ahead": rng.randint(60, 10 ** 8)}, 0))
def autoroll_future(gnss, ahead):
    """a date still to come is put one rollover back, unless it would precede the epoch"""
    now = datetime.now(UTC)
    fut = now + timedelta(seconds=ahead)
    wno, tow, _ = utc2wnotow(fut, gnss, True)
    back = wnotow2utc(wno, tow, gnss=gnss, autoroll=True)
    span = timedelta(days=7 * ROLL[gnss])
    if fut - span >= EP0[gnss] + timedelta(seconds=60):
        assume(spec.leap(fut - span, gnss) == spec.leap(fut - span - timedelta(seconds=30), gnss) ==
               spec.leap(fut - span + timedelta(seconds=30), gnss))
        want = fut - span + timedelta(seconds=spec.leap(fut, gnss) - spec.leap(fut - span, gnss))
    else:
        want = fut
    ensure("latest date not after now", abs(back - want) <= MS)


@contract("C22", opaque=LEAP, inputs={"gnss": Const("G", "E", "C", "J", "I", "R"), "mod": Const(False, True)})
def utc_to_week_clock(gnss, mod):
    """no time given: now (the clock is one constant in the proof)"""
    now = datetime.now(UTC)
    assume(now >= EP0[gnss])
    assume(now <= datetime(9000, 1, 1, tzinfo=UTC))
    week_checks(now, gnss, mod, utc2wnotow(gnss=gnss, modwno=mod))


def outcome(f, /, *a, **kw):
    try:
        return f(*a, **kw)
    except OverflowError:       # beyond the year 9999
        return None


def nth_date(i, wno, tow, ls, gnss):
    t = EP0[gnss] + timedelta(days=(wno + (i * ROLL[gnss])) * 7, milliseconds=tow)
    if gnss == "R":
        return t
    if ls is None:
        return t - timedelta(seconds=spec.leap(t - timedelta(seconds=spec.leap(t, gnss)), gnss))
    return t - timedelta(seconds=ls)


def last_date(wno, tow, ls, gnss, now):
    """the date before the first one (after the original) that is still to come"""
    last = nth_date(0, wno, tow, ls, gnss)
    i = 1
    while True:
        t = nth_date(i, wno, tow, ls, gnss)
        if t > now:
            break
        last = t
        i += 1
    return last


@contract("C22", opaque=LEAP, inputs={"wno": Int(0, 300000), "tow": Int(0, 10 ** 12), "ls": Int(-100, 100), "given": Const(False, True),
                                      "gnss": Const("G", "E", "C", "J", "I", "R"), "mod": Const(False, True)})
def autoroll_any(wno, tow, ls, given, gnss, mod):
    off = ls if given else None
    weeks = wno % ROLL[gnss] if mod else wno
    args = (weeks, tow % WEEK_MS, off, gnss, datetime.now(UTC))
    want = outcome(last_date, *args)
    got = outcome(wnotow2utc, wno, tow, off, gnss, autoroll=True, modwno=mod)
    ensure("the last date before one still to come", got == want)
