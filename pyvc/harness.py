"""Contracts: executable statements about the real functions.

A contract is a Python function.  It calls real functions of /repo and states
postconditions with ensure(label, condition).  The same text is used twice:

* interpreted by pyvc for all inputs (the proof);
* run by CPython on concrete inputs: to replay counterexamples, to look for a
  failing input when an obligation is not discharged, and as a cross-check.
"""

import math
import random
import time
import traceback

import z3

from pyvc import loops, pymodels, recur
from pyvc.core import (INT, REAL, STATS, STR, DefSort, ObjSort, PathEnd, Raised, Restart, SBool, SBytes, SDef, SExc,
                       SInt, SOpaque, SReal, SStr, STime, SDelta, SVal, Sym, Unsupported, Val, check_sat, lift)
from pyvc.interp import Engine, Heap, PList, SMap, SObj, module_ast, _AST
from pyvc.models import USED, Models

CONTRACTS = []


# ------------------------------------------------------- native intrinsics
class AssumeFailed(Exception):
    pass


class EnsureFailed(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


NATIVE_LABELS = {}


def ensure(label, cond, detail=""):
    NATIVE_LABELS[label] = NATIVE_LABELS.get(label, 0) + 1
    if not cond:
        raise EnsureFailed(label, str(detail)[:2000])


def assume(cond):
    if not cond:
        raise AssumeFailed()


def close(a, b, tol=1e-9):
    """equality of reals; natively within a tolerance"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def same_list(a, b):
    return list(a) == list(b)


def same_value(a, b):
    """same type and value (nan equal to itself)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return a == b


def digits(text, whole, frac):
    """integer made of the digits of a text of `whole` digits, a point, `frac` digits; else None"""
    if not isinstance(text, str) or len(text) != whole + 1 + frac or text[whole] != ".":
        return None
    d = text[:whole] + text[whole + 1:]
    return int(d) if all(c in "0123456789" for c in d) else None


def within(a, b, tol):
    """distance of two numbers at most tol (natively with a margin for float rounding)"""
    return abs(a - b) <= tol * 1.002


def choose(cond, a, b):
    """a if cond else b, both evaluated (one term, no case split, in proofs)"""
    return a if cond else b


def attrs_of(msg):
    """public attributes of a message (symbolically: its attribute map)"""
    return {k: v for k, v in msg.__dict__.items() if k[0] != "_"}


def anyval(name):
    """a value of unknown type; natively never called"""
    raise AssumeFailed()


def symbolic():
    """True when interpreted by the verifier"""
    return False


def install(en):
    """intrinsics, interpreted"""
    m = en.models

    def _ensure(en, args, kw):
        c = m.truthz(en, args[1])
        en.oblige(args[0], c)
        return None

    def _assume(en, args, kw):
        c = m.truthz(en, args[0])
        if isinstance(c, bool):
            if not c:
                raise PathEnd("assume")
            return None
        en.assume(c)
        if not en.feasible([]):
            raise PathEnd("assume")
        return None

    def _close(en, args, kw):
        return m.eq(en, args[0], args[1])

    def _same_list(en, args, kw):
        a, b = args
        if isinstance(a, PList) and isinstance(b, PList) and not a.concrete and not b.concrete and a.kind == b.kind:
            i = en.fresh("ix", INT)
            return lift(SBool(z3.And(a.n == b.n, z3.Implies(
                z3.And(i >= 0, i < a.n), z3.Select(a.arr, a.off + i) == z3.Select(b.arr, b.off + i)))))
        return m.eq(en, a, b)

    def _same_value(en, args, kw):
        a, b = args
        if isinstance(a, (PList, tuple)) or isinstance(b, (PList, tuple)):
            return m.eq(en, a, b)
        from pyvc.core import box
        return lift(SBool(z3.simplify(box(a) == box(b))))

    def _digits(en, args, kw):
        from pyvc import fixed
        text, whole, frac = args
        if not isinstance(text, SStr):
            return digits(text, whole, frac)
        cs = fixed.cells(en, text.z)
        if cs is None:
            raise Unsupported("digits of unstructured text")
        if len(cs) != whole + 1 + frac or cs[whole] != ".":
            return None
        cs = cs[:whole] + cs[whole + 1:]
        n = None if any(c == "." for c in cs) else fixed.number(cs)
        return None if n is None else lift(SInt(n[0]))

    def _within(en, args, kw):
        from pyvc.core import real_const, to_z
        a, b, tol = [to_z(x, "real") for x in args]
        return lift(SBool(z3.And(a - b <= tol, b - a <= tol)))

    def _attrs_of(en, args, kw):
        o = args[0]
        if not isinstance(o, SObj) or o.dyn is None:
            raise Unsupported("attrs_of")
        return SMap(o.dyn)

    def _choose(en, args, kw):
        c = m.truthz(en, args[0])
        if isinstance(c, bool):
            return args[1] if c else args[2]
        from pyvc.core import to_z
        return lift(SInt(z3.If(c, to_z(args[1], "int"), to_z(args[2], "int"))))
    for f, h in ((choose, _choose), (ensure, _ensure), (assume, _assume), (close, _close), (same_list, _same_list),
                 (attrs_of, _attrs_of), (same_value, _same_value), (digits, _digits), (within, _within), (symbolic, lambda en, a, k: True)):
        m.fn[f] = h


# ----------------------------------------------------------- input kinds
class Input:
    def sym(self, en, name):
        raise NotImplementedError

    def native(self, v):
        return v


class Str(Input):
    def sym(self, en, name):
        return SStr(z3.Const(name, STR))


class Bytes(Input):
    def sym(self, en, name):
        v = SBytes(z3.Const(name, STR))
        return v


class Int(Input):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def sym(self, en, name):
        z = z3.Const(name, INT)
        if self.lo is not None:
            en.assume(z >= self.lo)
        if self.hi is not None:
            en.assume(z <= self.hi)
        return SInt(z)


class Bool(Input):
    def sym(self, en, name):
        return SBool(z3.Const(name, z3.BoolSort()))


class Real(Input):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def sym(self, en, name):
        z = z3.Const(name, REAL)
        if self.lo is not None:
            en.assume(z >= self.lo)
        if self.hi is not None:
            en.assume(z <= self.hi)
        return SReal(z)


class AnyVal(Input):
    """None, bool, int, float, str, bytes or an opaque object"""

    def sym(self, en, name):
        z = z3.Const(name, Val)
        en.assume(z3.Not(z3.Or(Val.is_Absent(z), Val.is_VGrp(z), Val.is_VDef(z))))
        return SVal(z)


class StrList(Input):
    def sym(self, en, name):
        n = z3.Const(name + "_n", INT)
        en.assume(n >= 0)
        return PList(None, "str", z3.Const(name, z3.ArraySort(INT, STR)), z3.IntVal(0), n)


class IntList(Input):
    def sym(self, en, name):
        n = z3.Const(name + "_n", INT)
        en.assume(n >= 0)
        return PList(None, "int", z3.Const(name, z3.ArraySort(INT, INT)), z3.IntVal(0), n)


class KwMap(Input):
    """keyword arguments: any finite map of names to values, in some order"""

    def sym(self, en, name):
        n = z3.Const(name + "_n", INT)
        en.assume(n >= 0)
        return SMap(z3.Const(name, z3.ArraySort(STR, Val)), n,
                    z3.Const(name + "_key", z3.ArraySort(INT, STR)), name)


class Time(Input):
    """datetime within [lo, hi] (microseconds since 1970)"""

    def __init__(self, lo, hi, aware=True):
        self.lo, self.hi, self.aware = lo, hi, aware

    def sym(self, en, name):
        z = z3.Const(name, INT)
        en.assume(z3.And(z >= self.lo, z <= self.hi))
        return STime(z, self.aware)

    def native(self, v):
        import datetime as dt
        if isinstance(v, tuple) and v and v[0] == "time":
            t = dt.datetime(1970, 1, 1) + dt.timedelta(microseconds=v[1])
            return t.replace(tzinfo=dt.timezone.utc) if v[2] else t
        return v


class DateOf(Input):
    """datetime.date with a year in [lo, hi]"""

    def __init__(self, lo=1, hi=9999):
        self.lo, self.hi = lo, hi

    def sym(self, en, name):
        from pyvc import fixed
        z = z3.Const(name, ObjSort)
        y = fixed.acc("year", z)
        en.assume(z3.And(y >= self.lo, y <= self.hi,
                         fixed.valid(year=y, month=fixed.acc("month", z), day=fixed.acc("day", z))))
        return SOpaque(z, "date")


class TimeOf(Input):
    """datetime.time"""

    def sym(self, en, name):
        from pyvc import fixed
        z = z3.Const(name, ObjSort)
        en.assume(fixed.valid(**{n: fixed.acc(n, z) for n in ("hour", "minute", "second", "microsecond")}))
        return SOpaque(z, "time")


class Const(Input):
    """one contract instance per value"""

    def __init__(self, *values):
        self.values = values


class Custom(Input):
    def __init__(self, f, native=None):
        self.f = f
        self.nat = native

    def sym(self, en, name):
        return self.f(en, name)

    def native(self, v):
        if self.nat is None:
            raise AssumeFailed()
        return self.nat(v)


# -------------------------------------------------------------- contracts
class Contract:
    def __init__(self, pids, fn, inputs, gen, opaque, setup, dyn, tables, hints, budget, ms, bounded, native_s=None, native_only=False):
        self.native_s, self.native_only = native_s, native_only
        self.pids, self.fn, self.inputs, self.gen = pids, fn, inputs, gen
        self.opaque, self.setup, self.dyn, self.tables, self.hints = opaque, setup, dyn, tables, hints
        self.name = fn.__name__
        self.budget, self.ms, self.bounded = budget, ms, bounded


def contract(*pids, inputs=None, gen=None, opaque=None, setup=None, dyn=(), tables=None, hints=None,
             budget=400, ms=20000, bounded=False, native_s=None, native_only=False):
    def deco(fn):
        CONTRACTS.append(Contract(pids, fn, inputs or {}, gen, opaque or {}, setup, dyn, tables or {}, hints,
                                  budget, ms, bounded, native_s, native_only))
        return fn
    return deco


INTERPRETABLE = ("pynmeagps", "contracts", "pyvc.pymodels")


def interpretable(mod):
    return mod.split(".")[0] in ("pynmeagps", "contracts") or mod == "pyvc.pymodels"


def instances(c):
    """expand Const inputs into separate instances"""
    out = [{}]
    for n, i in c.inputs.items():
        if isinstance(i, Const):
            out = [dict(o, **{n: v}) for o in out for v in i.values]
    return out


def prove(c, fixed):
    """returns result dict of one contract instance"""
    t0 = time.time()
    STATS.queries, STATS.solver_s = 0, 0.0
    USED.clear()
    en = Engine(Models(), interpretable)
    en.PROVE_MS = c.ms
    en.deadline = t0 + c.budget
    install(en)
    recur.install(en)
    pymodels.install(en)
    for q, h in c.opaque.items():
        en.contracts[q] = h
    en.dyn_classes = set(c.dyn)
    for name, obj in c.tables.items():
        en.tables[id(obj)] = name
    en.loop_hints = c.hints
    res = {"contract": c.name, "fixed": {k: repr(v) for k, v in fixed.items()}, "unsupported": None}

    def body():
        en.inputs = []
        en.ghost.clear()
        vals = {}
        for n, i in c.inputs.items():
            if isinstance(i, Const):
                vals[n] = fixed[n]
            else:
                vals[n] = i.sym(en, n)
                en.inputs.append((n, vals[n]))
        if c.setup and not c.native_only:
            c.setup(en, vals)
        try:
            en.call_interpreted(c.fn, [], vals)
        except Raised as r:
            en.oblige(f"no exception escapes ({r.exc.cls.__name__})", False)
        return None
    try:
        heap0, cnt0 = Heap.n, en.counter
        for _ in range(40):
            Heap.n, en.counter = heap0, cnt0
            en.inv_stack, en.nofeas = (), False
            en.obls, en.failures, en.paths = {}, [], 0
            en.functions, en.fold_registry = {}, []
            en.journal, en.recorders, en.quiet = None, [], False
            en.calldepth, en.frames = 0, []
            try:
                rr = en.explore(body)
                break
            except Restart:
                en.inv_memo = {}
                continue
        else:
            raise Unsupported("too many restarts")
        if not rr:
            res["unsupported"] = "no feasible path: the precondition is contradictory"
    except Unsupported as e:
        res["unsupported"] = str(e)
    except z3.Z3Exception as e:
        res["unsupported"] = "solver interface: " + str(e)[:300]
    except RecursionError:
        res["unsupported"] = "recursion"
    except Exception as e:      # an engine defect: undecided, never a proof
        res["unsupported"] = "engine: " + repr(e)[:300] + " " + traceback.format_exc()[-600:]
    res["obligations"] = [{"label": k, "paths": v["checked"], "discharged": v["proved"] == v["checked"],
                           "backends": sorted(v["backends"]), "fail": v["fail"]} for k, v in en.obls.items()]
    res["vcs"] = sum(v["checked"] for v in en.obls.values())
    res["vcs_ok"] = sum(v["proved"] for v in en.obls.values())
    res["paths"] = en.paths
    res["functions"] = sorted(q for q in en.functions if q.startswith("pynmeagps"))
    res["contracted"] = sorted(q for q in en.contracted)
    res["used"] = sorted(USED)
    res["invariants"] = {str(k[:3]): sorted(v) for k, v in en.invariants.items()}
    res["solver_s"] = STATS.solver_s
    res["queries"] = STATS.queries
    res["wall_s"] = time.time() - t0
    return res


# ------------------------------------------------------------ native runs
def run_native(c, inputs):
    """None if fine, else (label, detail); raises AssumeFailed"""
    try:
        c.fn(**inputs)
        return None
    except AssumeFailed:
        raise
    except EnsureFailed as e:
        return e.label, e.detail
    except Exception as e:
        return f"no exception escapes ({type(e).__name__})", repr(e)[:500]
