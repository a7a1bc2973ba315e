"""Geodesy and display formats of positions."""

import math
import re
from math import acos, atan2, cos, floor, pi, sin, sqrt

from contracts import spec
from pyvc.harness import Const, Int, Real, Str, assume, close, contract, ensure, within
from pynmeagps.nmeahelpers import (area, bearing, deg2dmm, deg2dms, dms2deg, ecef2llh, haversine, latlon2dmm, latlon2dms,
                                   llh2ecef, llh2iso6709, planar)

A, F = 6378137.0, 298.257223563         # WGS84 semi-major axis, inverse flattening
LAT, LON = Real(-90, 90), Real(-180, 180)


def any_angle(rng, lim):
    r = rng.random()
    if r < 0.25:
        return float(rng.choice([0, lim, -lim, lim / 2, -lim / 2, 1e-7, -1e-7, 1e-13, 45, -45]))
    if r < 0.32:
        return rng.choice([-1, 1]) * (rng.choice([0, lim, lim / 2]) - rng.choice([0, 1]) * 10.0 ** -rng.randint(3, 14))
    if r < 0.45:
        return round(rng.uniform(-lim, lim), rng.randint(0, 3))
    return rng.uniform(-lim, lim)


def g_pair(rng):
    while True:
        a, b = any_angle(rng, 90), any_angle(rng, 180)
        r = rng.random()
        if r < 0.15:
            c, d = a, b
        elif r < 0.3:
            c, d = -a, b - 180 if b > 0 else b + 180
        elif r < 0.5:
            c, d = max(-90, min(90, a + rng.uniform(-1e-3, 1e-3))), max(-180, min(180, b + rng.uniform(-1e-3, 1e-3)))
        else:
            c, d = any_angle(rng, 90), any_angle(rng, 180)
        yield {"lat1": a, "lon1": b, "lat2": c, "lon2": d}


def g_pair_r(rng):
    for p in g_pair(rng):
        yield dict(p, radius=rng.choice([6371.0, 6378.137, 1.0, 1737.4, 3396.2]))


PAIR = {"lat1": LAT, "lon1": LON, "lat2": LAT, "lon2": LON}
PAIR_R = dict(PAIR, radius=Real(0, 100000))


def rad(deg):
    return deg * pi / 180


def central_cos(lat1, lon1, lat2, lon2):
    """cosine of the central angle (haversine form: well conditioned for near points)"""
    p1 = rad(lat1)
    p2 = rad(lat2)
    return cos(p2 - p1) - cos(p1) * cos(p2) * (1 - cos(rad(lon2) - rad(lon1)))


@contract("C24", inputs=PAIR_R, gen=g_pair_r)
def great_circle_distance(lat1, lon1, lat2, lon2, radius):
    got = haversine(lat1, lon1, lat2, lon2, radius)
    want = radius * acos(max(-1.0, min(1.0, central_cos(lat1, lon1, lat2, lon2))))
    ensure("radius times central angle", close(got, want, 1e-6 * radius))


@contract("C24", inputs=PAIR, gen=g_pair)
def great_circle_default_radius(lat1, lon1, lat2, lon2):
    got = haversine(lat1, lon1, lat2, lon2)
    want = 6378.137 * acos(max(-1.0, min(1.0, central_cos(lat1, lon1, lat2, lon2))))
    ensure("WGS84 semi-major axis in km", close(got, want, 0.01))


@contract("C24", inputs=PAIR, gen=g_pair)
def great_circle_symmetric(lat1, lon1, lat2, lon2):
    ensure("symmetric", close(haversine(lat1, lon1, lat2, lon2), haversine(lat2, lon2, lat1, lon1), 0.001))


@contract("C24", inputs={"lat": LAT, "lon": LON}, gen=lambda rng: iter(lambda: {
    "lat": any_angle(rng, 90), "lon": any_angle(rng, 180)}, 0))
def great_circle_zero(lat, lon):
    ensure("zero for equal points", close(haversine(lat, lon, lat, lon), 0.0, 0.001))


def vec(lat, lon):
    return (cos(rad(lat)) * cos(rad(lon)), cos(rad(lat)) * sin(rad(lon)), sin(rad(lat)))


@contract("C24", native_only=True, gen=g_pair)
def great_circle_vectors(lat1, lon1, lat2, lon2):
    """against the angle between the two position vectors"""
    u, v = vec(lat1, lon1), vec(lat2, lon2)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    ang = atan2(sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v)))
    got = haversine(lat1, lon1, lat2, lon2)
    ensure("radius times central angle", abs(got - 6378.137 * ang) <= 0.001 + 1e-9 * got)


@contract("C24", inputs=PAIR, gen=g_pair)
def bearing_formula(lat1, lon1, lat2, lon2):
    got = bearing(lat1, lon1, lat2, lon2)
    ensure("at least 0", got >= 0)
    ensure("below 360", got < 360)
    p1 = rad(lat1)
    p2 = rad(lat2)
    dl = rad(lon2) - rad(lon1)
    course = atan2(sin(dl) * cos(p2), cos(p1) * sin(p2) - sin(p1) * cos(p2) * cos(dl)) * 180 / pi
    turn = (got - course) / 360
    ensure("initial course, modulo a full turn", close(turn, floor(turn + 0.5), 1e-9))


@contract("C24", native_only=True, gen=g_pair)
def bearing_vectors(lat1, lon1, lat2, lon2):
    """against east and north components of the direction to the second point"""
    assume(abs(lat1) < 89.9 and haversine(lat1, lon1, lat2, lon2) > 0.01)
    u, v = vec(lat1, lon1), vec(lat2, lon2)
    east = (-sin(rad(lon1)), cos(rad(lon1)), 0)
    north = (-sin(rad(lat1)) * cos(rad(lon1)), -sin(rad(lat1)) * sin(rad(lon1)), cos(rad(lat1)))
    e, n = sum(x * y for x, y in zip(east, v)), sum(x * y for x, y in zip(north, v))
    assume(sqrt(e * e + n * n) > 1e-8)
    d = bearing(lat1, lon1, lat2, lon2) - math.degrees(atan2(e, n))
    ensure("initial great circle course", abs(d - 360 * round(d / 360)) < 1e-4 / min(1, sqrt(e * e + n * n) * 1e4 + 1e-9))
    ensure("unit position", abs(sum(x * x for x in u) - 1) < 1e-9)


@contract("C24", inputs=dict(PAIR, radius=Real(0, 100000000)), gen=g_pair_r)
def planar_formula(lat1, lon1, lat2, lon2, radius):
    got = planar(lat1, lon1, lat2, lon2, radius)
    dx = (rad(lon2) - rad(lon1)) * cos(rad(lat1))
    dy = rad(lat2) - rad(lat1)
    ensure("radius times the planar angle", close(got, radius * sqrt(dx * dx + dy * dy), 1e-9 * radius))


@contract("C24", inputs=PAIR, gen=g_pair)
def planar_default_radius(lat1, lon1, lat2, lon2):
    dx = (rad(lon2) - rad(lon1)) * cos(rad(lat1))
    dy = rad(lat2) - rad(lat1)
    ensure("WGS84 semi-major axis in metres", close(planar(lat1, lon1, lat2, lon2), A * sqrt(dx * dx + dy * dy), 0.01))


@contract("C24", inputs=PAIR_R, gen=g_pair_r)
def area_formula(lat1, lon1, lat2, lon2, radius):
    got = area(lat1, lon1, lat2, lon2, radius)
    want = radius * radius * pi * abs(sin(rad(lat1)) - sin(rad(lat2))) * abs(lon1 - lon2) / 180
    ensure("area between the parallels and meridians", close(got, want, 1e-9 * radius * radius))


@contract("C24", inputs=PAIR, gen=g_pair)
def area_default_radius(lat1, lon1, lat2, lon2):
    want = 6378.137 * 6378.137 * pi * abs(sin(rad(lat1)) - sin(rad(lat2))) * abs(lon1 - lon2) / 180
    ensure("WGS84 semi-major axis in km", close(area(lat1, lon1, lat2, lon2), want, 1))


# ------------------------------------------------------------------------ ECEF
def g_llh(rng):
    while True:
        yield {"lat": any_angle(rng, 90), "lon": any_angle(rng, 180),
               "h": rng.choice([0.0, rng.uniform(-1000, 9000), rng.uniform(-10000, 100000), rng.uniform(-100, 100)])}


@contract("C24", inputs={"lat": LAT, "lon": LON, "h": Real(-100000, 100000000)}, gen=g_llh)
def ecef_formula(lat, lon, h):
    x, y, z = llh2ecef(lat, lon, h)
    p = rad(lat)
    m = rad(lon)
    f = 1 / F
    e2 = f * (2 - f)
    n = A / sqrt(1 - e2 * (sin(p) * sin(p)))
    ensure("x", close(x, (n + h) * cos(p) * cos(m), 1e-4))
    ensure("y", close(y, (n + h) * cos(p) * sin(m), 1e-4))
    ensure("z", close(z, (n * (1 - e2) + h) * sin(p), 1e-4))


@contract("C24", inputs={"lat": LAT, "lon": LON}, gen=lambda rng: iter(lambda: {
    "lat": any_angle(rng, 90), "lon": any_angle(rng, 180)}, 0))
def ecef_surface(lat, lon):
    """lemma on the formula: the surface point satisfies the equation of the ellipsoid"""
    x, y, z = llh2ecef(lat, lon, 0.0)
    f = 1 / F
    e2 = f * (2 - f)
    ensure("equation of the ellipsoid", close(((x * x + y * y) * (1 - e2) + z * z) / (A * A * (1 - e2)), 1.0, 1e-9))


ELLIPSOIDS = [(6378137.0, 298.257223563), (6378137.0, 298.257222101), (6378388.0, 297.0), (6377563.396, 299.3249646)]


@contract("C24", native_only=True, gen=lambda rng: iter(lambda: dict(next(g_llh(rng)), e=rng.choice(ELLIPSOIDS)), 0))
def ecef_on_ellipsoid(lat, lon, h, e):
    """the surface point satisfies the equation of the ellipsoid, height is along its normal, and the inverse returns it"""
    a, f = e
    b = a * (1 - 1 / f)
    x, y, z = llh2ecef(lat, lon, 0.0, a, f)
    ensure("equation of the ellipsoid", abs((x * x + y * y) / (a * a) + z * z / (b * b) - 1) < 1e-9)
    X, Y, Z = llh2ecef(lat, lon, h, a, f)
    n = vec(lat, lon)
    ensure("height along the normal", max(abs(X - x - h * n[0]), abs(Y - y - h * n[1]), abs(Z - z - h * n[2])) < 1e-4)
    la, lo, al = ecef2llh(X, Y, Z, a, f)
    ensure("height to a centimetre", abs(al - h) < 0.01)
    ensure("latitude to a centimetre", abs(rad(la - lat)) * (a + abs(h)) < 0.01)
    dl = lo - lon
    ensure("longitude to a centimetre", abs(rad(dl - 360 * round(dl / 360))) * (a + abs(h)) * cos(rad(lat)) < 0.01)
    if (a, f) == (A, F):
        ensure("WGS84 is the default", ecef2llh(X, Y, Z) == (la, lo, al))
        ensure("WGS84 is the default", llh2ecef(lat, lon, h) == (X, Y, Z))


@contract("C24", inputs={"x": Real(-50000, 50000), "y": Real(-50000, 50000), "z": Real(-50000, 50000)},
          gen=lambda rng: iter(lambda: {"x": rng.uniform(-5e4, 5e4), "y": rng.uniform(-5e4, 5e4), "z": rng.uniform(-5e4, 5e4)}, 0))
def ecef_near_core(x, y, z):
    """no position near the centre of the Earth: the documented nominal value"""
    ensure("nominal value", ecef2llh(x, y, z) == (0.0, 0.0, -1.0e7))


# -------------------------------------------------------------- display formats
LIMIT = {"LA": 90, "LN": 180}
HEMI = {"LA": ("N", "S"), "LN": ("E", "W")}


def near_unit(rng, lim):
    """positions, often just around whole minutes or seconds"""
    r = rng.random()
    if r < 0.5:
        x = rng.randint(0, lim * 3600) / rng.choice([3600, 60, 1])
        x = min(x, lim) + rng.choice([0, 1, -1]) * rng.choice([1e-12, 1e-10, 5e-10, 1e-9, 2e-9, 1e-8])
    elif r < 0.6:
        x = rng.randint(0, lim) + rng.choice([0.0, 0.5, 1 / 60, 59 / 60, 3599.999999 / 3600])
    else:
        x = rng.uniform(0, lim)
    x = max(0.0, min(float(lim), x))
    return x if rng.random() < .5 else -x


def g_disp(rng):
    while True:
        a = rng.choice(["LA", "LN"])
        yield {"x": near_unit(rng, LIMIT[a]), "att": a}


@contract("C25", inputs={"x": Real(-180, 180), "att": Const("LA", "LN")}, gen=g_disp)
def dmm_text(x, att):
    total = round(abs(x) * 60, 7)
    deg = floor(total / 60)
    mins = round(total - 60 * deg, 7)
    ensure("minutes below 60", mins < 60)
    got = deg2dmm(x, att)
    sfx = HEMI[att][1] if x < 0 else HEMI[att][0]
    ensure("degrees, minutes to seven decimals, hemisphere", got == f"{deg}\u00b0{mins}\u2032{sfx}")


@contract("C25", inputs={"x": Real(-180, 180), "att": Const("LA", "LN")}, gen=g_disp)
def dms_text(x, att):
    total = round(abs(x) * 3600, 5)
    whole = floor(total / 60)
    secs = round(total - 60 * whole, 5)
    ensure("seconds below 60", secs < 60)
    deg = whole // 60
    mins = whole % 60
    got = deg2dms(x, att)
    sfx = HEMI[att][1] if x < 0 else HEMI[att][0]
    ensure("degrees, minutes, seconds to five decimals, hemisphere", got == f"{deg}\u00b0{mins}\u2032{secs}\u2033{sfx}")


@contract("C25", native_only=True, gen=g_disp)
def display_denotes(x, att):
    m = re.fullmatch("(\\d+)\u00b0(\\d+(?:\\.\\d+)?(?:e-\\d+)?)\u2032([NSEW])", deg2dmm(x, att))
    ensure("degrees and minutes text", m is not None)
    ensure("minutes below 60", float(m.group(2)) < 60)
    ensure("denotes the position", abs(int(m.group(1)) + float(m.group(2)) / 60 - abs(x)) < 1e-9)
    ensure("hemisphere", m.group(3) == HEMI[att][1 if x < 0 else 0])
    s = deg2dms(x, att)
    m = re.fullmatch("(\\d+)\u00b0(\\d+)\u2032(\\d+(?:\\.\\d+)?(?:e-\\d+)?)\u2033([NSEW])", s)
    ensure("degrees, minutes and seconds text", m is not None)
    ensure("minutes below 60", int(m.group(2)) < 60)
    ensure("seconds below 60", float(m.group(3)) < 60)
    ensure("denotes the position", abs(int(m.group(1)) + int(m.group(2)) / 60 + float(m.group(3)) / 3600 - abs(x)) < 2e-9)
    ensure("hemisphere", m.group(4) == HEMI[att][1 if x < 0 else 0])
    if "e" not in s:
        ensure("reads back", abs(dms2deg(s, 9) - x) < 4e-9)


@contract("C25", inputs={"lat": LAT, "lon": LON}, gen=lambda rng: iter(lambda: {
    "lat": near_unit(rng, 90), "lon": near_unit(rng, 180)}, 0))
def pair_texts(lat, lon):
    a, b = latlon2dmm(lat, lon)
    ensure("latitude first", a == deg2dmm(lat, "LA"))
    ensure("longitude second", b == deg2dmm(lon, "LN"))
    a, b = latlon2dms(lat, lon)
    ensure("latitude first", a == deg2dms(lat, "LA"))
    ensure("longitude second", b == deg2dms(lon, "LN"))


@contract("C25", inputs={"lat": LAT, "lon": LON, "alt": Real(-100000, 100000)}, gen=lambda rng: iter(lambda: {
    "lat": any_angle(rng, 90), "lon": any_angle(rng, 180), "alt": any_angle(rng, 9000)}, 0))
def iso6709(lat, lon, alt):
    want = ""
    for c in (lat, lon, alt):
        want = want + ("-" if c < 0 else "+") + f"{abs(c)}"
    ensure("sign and magnitude of each", llh2iso6709(lat, lon, alt) == want + "CRSWGS_84/")
    ensure("coordinate system as given", llh2iso6709(lat, lon, alt, "EPSG_4326") == want + "CRSEPSG_4326/")


@contract("C25", native_only=True, gen=lambda rng: iter(lambda: {
    "x": rng.choice([None, "1", [], "", {}, object()]), "att": rng.choice(["LA", "LN"])}, 0))
def display_of_nonsense(x, att):
    ensure("empty text", deg2dmm(x, att) == "" and deg2dms(x, att) == "")


# --------------------------------------------------- reading degrees, minutes, seconds
NUM = ["0", "5", "12", "51", "179", "5.", ".5", "0.25", "20.76", "45.6", "59.99999", "007"]
SEP = ["\u00b0", "\u2032", "\u2033", "'", '"', "d", "m", "s", ":", "-", ",", "\u00ba", "N", "S"]
SFX = ["", "N", "S", "E", "W"]


def g_dms(rng):
    while True:
        n = rng.choice([1, 1, 2, 2, 3, 3, 3])
        parts = [(rng.choice(NUM) if rng.random() < .5 else str(round(rng.uniform(0, 60), rng.randint(0, 6))), rng.choice(SEP[:-2]))
                 for _ in range(n)]
        yield {"parts": parts, "sfx": rng.choice(SFX), "rnd": rng.choice([7, 7, 0, 2, 9]), "spaces": rng.random() < .3}


@contract("C25", native_only=True, gen=g_dms)
def dms_reading(parts, sfx, rnd, spaces):
    text = (" " if spaces else "").join(a + b for a, b in parts) + (" " if spaces else "") + sfx
    want = 0.0
    for k, (a, _) in enumerate(parts):
        want += float(a) / 60 ** k
    if sfx in ("S", "W"):
        want = -want
    got = dms2deg(text, rnd)
    ensure("degrees + minutes/60 + seconds/3600, signed and rounded", abs(got - want) <= 0.5000001 * 10 ** -rnd + 1e-12)
    ensure("rounded", got == round(got, rnd))
    if rnd == 7:
        ensure("seven decimals by default", dms2deg(text) == got)


def g_bad_dms(rng):
    while True:
        good = next(g_dms(rng))
        text = "".join(a + b for a, b in good["parts"]) + good["sfx"]
        r = rng.random()
        if r < 0.2:
            text = text[1:]
        elif r < 0.4:
            k = rng.randint(0, len(text))
            text = text[:k] + rng.choice("NX-+.;\u00b00\n") + text[k:]
        elif r < 0.5:
            text = text + "1\u00b0" * 3
        elif r < 0.6:
            text = rng.choice(["", "N", "abc", "51", "51.5", "\u00b0", "-5\u00b0", "5\u00b0NN", "1.2.3\u00b0", ".\u00b0"])
        yield {"text": text}


@contract("C25", native_only=True, gen=g_bad_dms)
def dms_anything(text):
    """any text: a number as above, or ValueError"""
    want = read_dms(text)
    try:
        got = dms2deg(text)
    except ValueError:
        ensure("only text of another form is refused", want is None)
        return
    ensure("text of another form is a ValueError", want is not None)
    ensure("value", abs(got - want) <= 0.51e-7)


def read_dms(text):
    """a hand written scanner: one to three numbers, each followed by one other character, then at most one of NSEW"""
    text = text.replace(" ", "")
    body, total, n = text, 0.0, 0
    negative = "S" in text or "W" in text
    if body.endswith("\n"):
        body = body[:-1]
    k = 0
    while k < len(body) and n < 3:
        j = k
        while j < len(body) and (body[j].isdecimal() or body[j] == "."):
            j += 1
        if j == k or j == len(body):
            break
        try:
            total += float(body[k:j]) / 60 ** n
        except ValueError:
            return None
        n += 1
        k = j + 1
    rest = body[k:]
    if n == 0 or rest not in ("", "N", "S", "E", "W"):
        return None
    return -total if negative else total
