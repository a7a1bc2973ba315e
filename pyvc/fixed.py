"""pyvc: text made of literals and fixed width decimal fields (DECFMT terms),
and dates/times with known components.  Trusted semantics of format specs,
slicing, int()/float() and strftime/strptime on such text."""

import datetime as dt

import z3

from pyvc.core import (BOOL, INT, STR, ObjSort, Raised, SBool, SExc, SInt, SOpaque, SReal, SStr, Unsupported,
                       lift, simp, strval, to_z, zstr)
from pyvc.loops import concat_children

DATE_ACC = [("year", "DY"), ("month", "DMO"), ("day", "DD")]
TIME_ACC = [("hour", "TH"), ("minute", "TMI"), ("second", "TS"), ("microsecond", "TUS")]
ACC = dict(DATE_ACC + TIME_ACC)


def acc(name, z):
    return z3.Function(ACC[name], ObjSort, INT)(z)


def dec_args(z):
    """(N, d, w) of a DECFMT term with literal d, w"""
    if z3.is_app(z) and z.decl().name() == "DECFMT":
        d, w = simp(z.arg(1)), simp(z.arg(2))
        if z3.is_int_value(d) and z3.is_int_value(w):
            return z.arg(0), d.as_long(), w.as_long()
    return None


def has_dec(z):
    return any(dec_args(p) or sub_dec(p) for p in concat_children(z))


def sub_dec(p):
    """(N, d, w, a, l) of substr(DECFMT, a, l)"""
    if z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT):
        t = dec_args(p.arg(0))
        a = simp(p.arg(1))
        l = z3.IntVal(1) if p.decl().kind() == z3.Z3_OP_SEQ_AT else simp(p.arg(2))
        if t and z3.is_int_value(a) and z3.is_int_value(l):
            return (*t, a.as_long(), l.as_long())
    return None


def cells(en, z):
    """list of characters: str (literal) or ('digit', N, power of ten); None if unknown.

    Forks on whether the numbers fit their fields."""
    out = []
    for p in concat_children(z):
        if z3.is_string_value(p):
            out += list(zstr(p))
            continue
        t = dec_args(p)
        s = None
        if t is None:
            s = sub_dec(p)
            if s is None:
                return None
            t = s[:3]
        n, d, w = t
        nd = w if d == 0 else w - 1          # digits
        if nd < max(d, 1) or (d and nd == d):
            return None
        if not en.branch(z3.And(n >= 0, n < 10 ** nd)):
            return None
        cs = [("digit", n, nd - 1 - i, nd) for i in range(nd)]
        if d:
            cs.insert(nd - d, ".")
        if s is not None:
            cs = cs[s[3]:s[3] + s[4]]
        out += cs
    return out


def from_cells(cs):
    """z3 string of a cell list"""
    parts = []
    i = 0
    while i < len(cs):
        c = cs[i]
        if isinstance(c, str):
            j = i
            t = ""
            while j < len(cs) and isinstance(cs[j], str):
                t += cs[j]
                j += 1
            parts.append(strval(t))
            i = j
            continue
        j = i
        while j + 1 < len(cs) and not isinstance(cs[j + 1], str) and cs[j + 1][1].eq(c[1]) and \
                cs[j + 1][2] == cs[j][2] - 1:
            j += 1
        run = cs[i:j + 1]
        parts.append(digits_term(c[1], c[3], run))
        i = j + 1
    if not parts:
        return z3.StringVal("")
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def value_of(run):
    """integer value of consecutive digit cells of one number"""
    n, hi, lo = run[0][1], run[0][2], run[-1][2]
    nd = run[0][3]
    v = n if lo == 0 else n / (10 ** lo)
    if hi != nd - 1:
        v = v % (10 ** (hi - lo + 1))
    return v


def digits_term(n, nd, run):
    """digits of n (nd digits) from power run[0] down to run[-1], as a zero padded field"""
    from pyvc.models import DEC
    return DEC(simp(value_of(run)), z3.IntVal(0), z3.IntVal(len(run)))


def number(cs):
    """(integer value, fraction digits) of a digit text, or None"""
    if not cs:
        return None
    val, frac, seen, any_ = z3.IntVal(0), 0, False, False
    i = 0
    while i < len(cs):
        c = cs[i]
        if c == ".":
            if seen:
                return None
            seen = True
            i += 1
            continue
        if isinstance(c, str):
            if not c.isdigit() or ord(c) > 127:
                return None
            val = val * 10 + int(c)
            l = 1
        else:
            j = i
            while j + 1 < len(cs) and not isinstance(cs[j + 1], str) and cs[j + 1][1].eq(c[1]) and \
                    cs[j + 1][2] == cs[j][2] - 1:
                j += 1
            run = cs[i:j + 1]
            l = len(run)
            val = val * 10 ** l + value_of(run)
        any_ = True
        frac += l if seen else 0
        i += l
    return (simp(val), frac) if any_ else None


# ------------------------------------------------------------ date and time
FIELDS = {"%d": ("day", 2), "%m": ("month", 2), "%Y": ("year", 4), "%y": ("year", 2), "%H": ("hour", 2),
          "%M": ("minute", 2), "%S": ("second", 2), "%f": ("microsecond", 6)}


def directives(fmt):
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == "%" and i + 1 < len(fmt):
            out.append(fmt[i:i + 2])
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return out


def strftime(en, o, fmt):
    """text of date/time object with known components, or None"""
    from pyvc.models import DEC
    ok = {"date": DATE_ACC, "time": TIME_ACC, "datetime": DATE_ACC + TIME_ACC}.get(o.typ)
    if ok is None:
        return None
    names = {n for n, _ in ok}
    parts = []
    for d in directives(fmt):
        if len(d) == 1:
            parts.append(strval(d))
            continue
        if d not in FIELDS:
            return None
        n, w = FIELDS[d]
        if n not in names:      # date has no time: zero; time has a dummy date
            if n in ("hour", "minute", "second", "microsecond"):
                v = z3.IntVal(0)
            else:
                v = {"year": z3.IntVal(1900), "month": z3.IntVal(1), "day": z3.IntVal(1)}[n]
        else:
            v = acc(n, o.z)
        if d == "%y":
            v = v % 100
        if d == "%Y" and not en.branch(v >= 1000):
            return None
        parts.append(DEC(simp(v), z3.IntVal(0), z3.IntVal(w)))
    if not parts:
        return ""
    return lift(SStr(parts[0] if len(parts) == 1 else z3.Concat(*parts)))


def days_in_month(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def valid(year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
    cs = []
    if month is not None:
        cs += [month >= 1, month <= 12]
    if day is not None:
        cs += [day >= 1, day <= (days_in_month(year, month) if year is not None else 31)]
    if hour is not None:
        cs += [hour >= 0, hour <= 23]
    if minute is not None:
        cs += [minute >= 0, minute <= 59]
    if second is not None:
        cs += [second >= 0, second <= 59]
    if microsecond is not None:
        cs += [microsecond >= 0, microsecond <= 999999]
    if year is not None:
        cs += [year >= 1, year <= 9999]
    return z3.And(*cs)


def strptime(en, z, fmt):
    """datetime object for structured text, or None"""
    if not has_dec(z):
        return None
    cs = cells(en, z)
    if cs is None:
        return None
    ds = directives(fmt)
    pos, comp = 0, {}
    for i, d in enumerate(ds):
        if len(d) == 1:
            if pos >= len(cs) or cs[pos] != d:
                return None
            pos += 1
            continue
        if d not in FIELDS:
            return None
        n, w = FIELDS[d]
        if d == "%f":
            w = 0
            while pos + w < len(cs) and w < 6 and (not isinstance(cs[pos + w], str) or cs[pos + w].isdigit()):
                w += 1
            if w == 0:
                return None
        v = number(cs[pos:pos + w])
        if len(cs) < pos + w or v is None or v[1]:
            return None
        x = v[0]
        if d == "%y":
            x = z3.If(x < 69, 2000 + x, 1900 + x)
        if d == "%f":
            x = x * 10 ** (6 - w)
        comp[n] = x
        pos += w
    if pos != len(cs):
        return None
    full = dict(year=z3.IntVal(1900), month=z3.IntVal(1), day=z3.IntVal(1), hour=z3.IntVal(0), minute=z3.IntVal(0),
                second=z3.IntVal(0), microsecond=z3.IntVal(0))
    full.update(comp)
    if not en.branch(valid(**full)):
        raise Unsupported("strptime of fields out of range")
    o = en.fresh("dtobj", ObjSort)
    for n, v in full.items():
        en.assume(acc(n, o) == v)
    return SOpaque(o, "datetime")


def trim_fraction(z, fmt):
    """text ending in a literal fraction of a second: trailing zeros say nothing"""
    import re
    fs = zstr(fmt) if z3.is_string_value(fmt) else ""
    parts = concat_children(z)
    if not fs.endswith(".%f") or len(parts) < 2 or not z3.is_string_value(parts[-1]):
        return z
    t = zstr(parts[-1])
    m = re.search(r"\.([0-9]{1,6})$", t)
    if not m:
        return z
    t = t[:m.start()] + "." + (m.group(1).rstrip("0") or "0")
    return simp(z3.Concat(*parts[:-1], strval(t)))
