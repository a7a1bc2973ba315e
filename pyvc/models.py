"""pyvc models: Python operators, built-ins and the library functions the code
uses, on symbolic values.  These are the trusted semantics (listed in DESIGN.md
and in every evidence file)."""

import ast
import builtins
import datetime as dt
import io
import zlib
import logging
import math
import operator
import functools
import inspect
import re
import types
from fractions import Fraction

import z3

from pyvc.core import (AXIOM_GENS, BOOL, INT, KIND_CLS, KIND_SORT, REAL, STR, DefSort, ObjSort,
                       PathEnd, Raised, SBool, SBytes, SDef, SDelta, SExc, SInt, SOpaque, SReal, SStr,
                       STime, SVal, Sym, Unsupported, Val, box, bytesval, kind_of, lift, real_const,
                       simp, strval, to_z, wrap)
from pyvc import fixed
from pyvc.interp import (Bound, BoundMethod, IFunc, PDict, PList, SIter, SMap, SObj, SRange)

EPOCH = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
EPOCHN = dt.datetime(1970, 1, 1)
US = dt.timedelta(microseconds=1)

AST_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
           ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
           ast.Pow: operator.pow, ast.BitXor: operator.xor, ast.BitAnd: operator.and_,
           ast.BitOr: operator.or_, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
CMP_OPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
           ast.Gt: operator.gt, ast.GtE: operator.ge}

USED = set()      # trusted models used in this run


def F(name, *sorts):
    return z3.Function(name, *sorts)


XOR = F("XOR", INT, INT, INT)
PYSTR = F("PYSTR", Val, STR)
SPLITA = F("SPLITA", STR, STR, z3.ArraySort(INT, STR))
SPLITN = F("SPLITN", STR, STR, INT)
UTF8D = F("UTF8D", STR, STR)
UTF8OK = F("UTF8OK", STR, BOOL)
UTF8E = F("UTF8E", STR, STR)
DEC = F("DECFMT", INT, INT, INT, STR)      # (N, decimals, width): zero padded fixed point of N/10^d
RHE = F("RHE", REAL, INT)                   # round half even

SIN, COS, SQRT = F("sin", REAL, REAL), F("cos", REAL, REAL), F("sqrt", REAL, REAL)
ASIN, ACOS, ATAN2 = F("asin", REAL, REAL), F("acos", REAL, REAL), F("atan2", REAL, REAL, REAL)
TAN, ATAN = F("tan", REAL, REAL), F("atan", REAL, REAL)


# ---------------------------------------------------------------- axioms
def _ax_rhe(a):
    x = a.arg(0)
    d = z3.ToReal(a) - x
    return [d <= real_const(Fraction(1, 2)), d >= real_const(Fraction(-1, 2)),
            z3.Implies(z3.IsInt(x), z3.ToReal(a) == x),
            z3.Implies(d == real_const(Fraction(1, 2)), a % 2 == 0),
            z3.Implies(d == real_const(Fraction(-1, 2)), a % 2 == 0)]


def _ax_trig(a):
    x = a.arg(0)
    s, c = SIN(x), COS(x)
    neg = z3.simplify(-x, som=True)
    return [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1, COS(neg) == c, SIN(neg) == -s,
            z3.Implies(x == 0, z3.And(c == 1, s == 0))]


def _ax_sqrt(a):
    x = a.arg(0)
    return [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x))]


def _ax_split(a):
    return [a >= 1]


def _ax_utf8d(a):
    b = a.arg(0)
    return [z3.Implies(UTF8OK(b), UTF8E(a) == b)]


PI = real_const(Fraction(math.pi))


def _ax_acos(a):
    # the double pi is below the real pi; acos is given an upper bound just above it
    return [z3.Implies(a.arg(0) == 1, a == 0), a >= 0, a <= PI + real_const(Fraction(1, 10 ** 15))]


def _ax_atan2(a):
    e = real_const(Fraction(1, 10 ** 15))
    return [a >= -PI - e, a <= PI + e]


def _ax_dec(a):
    return []


def _ax_pystr(a):
    v = a.arg(0)
    return [z3.Implies(z3.Or(Val.is_VInt(v), Val.is_VReal(v), Val.is_VBool(v), Val.is_VNone(v)), z3.Length(a) >= 1),
            z3.Implies(Val.is_VStr(v), a == Val.vs(v))]


AXIOM_GENS.update({"PYSTR": _ax_pystr, "RHE": _ax_rhe, "sin": _ax_trig, "cos": _ax_trig, "sqrt": _ax_sqrt,
                   "SPLITN": _ax_split, "UTF8D": _ax_utf8d, "acos": _ax_acos, "atan2": _ax_atan2})


def pow10(n):
    return 10 ** n


class Models:
    def __init__(self):
        self.fn = {}
        self.overrides = {}
        self._install()

    def function(self, f):
        try:
            if f in self.overrides:
                return self.overrides[f]
            return self.fn.get(f)
        except TypeError:
            return None

    # ----------------------------------------------------------- helpers
    def global_value(self, en, v):
        if isinstance(v, list):
            if id(v) not in en.stubs:
                en.stubs[id(v)] = (v, PList([en.from_native(x) for x in v]))
                en.stubs[id(v)][1].frozen = True
            return en.stubs[id(v)][1]
        return v

    def truthz(self, en, v):
        """bool or z3 Bool"""
        if isinstance(v, SBool):
            z = simp(v.z)
            return True if z3.is_true(z) else False if z3.is_false(z) else z
        if isinstance(v, SInt):
            return simp(v.z != 0)
        if isinstance(v, SReal):
            return simp(v.z != 0)
        if isinstance(v, (SStr, SBytes)):
            return simp(z3.Length(v.z) > 0)
        if isinstance(v, PList):
            return bool(v.items) if v.concrete else simp(v.n > 0)
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, SVal):
            z = v.z
            return simp(z3.Or(z3.And(Val.is_VBool(z), Val.vb(z)), z3.And(Val.is_VInt(z), Val.vi(z) != 0),
                              z3.And(Val.is_VReal(z), Val.vr(z) != 0),
                              z3.And(Val.is_VStr(z), Val.vs(z) != ""),
                              z3.And(Val.is_VBytes(z), Val.vy(z) != ""),
                              Val.is_VGrp(z), Val.is_VDef(z), Val.is_VObj(z)))
        if isinstance(v, SDef):
            return simp(F("DNK", DefSort, INT)(v.z) > 0)
        if isinstance(v, SMap):
            if v.nkeys is None:
                raise Unsupported("truth of symbolic map")
            return simp(v.nkeys > 0)
        if isinstance(v, SDelta):
            return simp(v.z != 0)
        if isinstance(v, (SObj, SOpaque, STime, SExc, IFunc, Bound, BoundMethod, types.FunctionType)):
            return True
        if isinstance(v, (SIter, SRange)):
            raise Unsupported("truth of iterator")
        return bool(v)

    def force(self, en, v, ctors, exc=None):
        """unwrap an SVal, forking over its possible constructors"""
        if not isinstance(v, SVal):
            return v
        l = lift(v)
        if not isinstance(l, SVal):
            return l
        z = v.z
        for c in ctors:
            if en.branch(getattr(Val, "is_" + c)(z)):
                return self.unwrap(z, c)
        if exc is not None:
            raise Raised(SExc(exc, ("dynamic type",)))
        return v

    def unwrap(self, z, c):
        if c == "VNone":
            return None
        if c == "VBool":
            return lift(SBool(simp(Val.vb(z))))
        if c == "VInt":
            return lift(SInt(simp(Val.vi(z))))
        if c == "VReal":
            return SReal(simp(Val.vr(z)))
        if c == "VStr":
            return lift(SStr(simp(Val.vs(z))))
        if c == "VBytes":
            return lift(SBytes(simp(Val.vy(z))))
        if c == "VDef":
            return SDef(simp(Val.vd(z)))
        if c == "VObj":
            return SOpaque(simp(Val.vo(z)))
        if c == "VGrp":
            return (lift(SVal(simp(Val.vg_num(z)))), SDef(simp(Val.vg_def(z))))
        raise Unsupported(c)

    def num(self, en, v):
        if isinstance(v, SVal):
            return self.force(en, v, ("VInt", "VReal", "VBool"), TypeError)
        return v

    # ------------------------------------------------------------ strings
    def concat(self, en, parts):
        out, buf = [], ""
        for p in parts:
            if isinstance(p, str):
                buf += p
            else:
                if buf:
                    out.append(strval(buf))
                    buf = ""
                out.append(p.z)
        if buf:
            out.append(strval(buf))
        if not out:
            return ""
        if len(out) == 1:
            return lift(SStr(out[0]))
        return lift(SStr(z3.Concat(*out)))

    def str_(self, en, v):
        if isinstance(v, str):
            return v
        if isinstance(v, SStr):
            return v
        if isinstance(v, SVal):
            if en.branch(Val.is_VStr(v.z)):
                return lift(SStr(simp(Val.vs(v.z))))
            return SStr(PYSTR(v.z))
        if isinstance(v, SInt):
            return SStr(PYSTR(Val.VInt(v.z)))
        if isinstance(v, (SBool, SReal, SBytes, SOpaque)):
            return SStr(PYSTR(box(v)))
        if isinstance(v, float) and en.real_mode:
            return str(v)
        if isinstance(v, PList) and not v.concrete:
            t = self.list_text(v)
            if t is not None:
                return t
        if isinstance(v, (SObj, PList, PDict, SExc, SDef, STime, SDelta, SMap, Sym)):
            return SStr(en.fresh("str", STR))
        if isinstance(v, tuple):
            try:
                return str(en.to_native(v))
            except Unsupported:
                return SStr(en.fresh("str", STR))
        return str(v)

    def list_text(self, v):
        """str() of a list of strings: a function of its elements"""
        if v.concrete or v.kind != "str":
            return None
        off = simp(v.off)
        if not (z3.is_int_value(off) and off.as_long() == 0):
            return None
        return SStr(F("LISTTEXT", z3.ArraySort(INT, STR), INT, STR)(v.arr, simp(v.n)))

    def repr_(self, en, v):
        if isinstance(v, SObj) and v.dyn is not None:
            m = inspect.getattr_static(v.cls, "__repr__", None)
            if isinstance(m, types.FunctionType):
                return en.call(m, [v], {})
        if isinstance(v, PList) and not v.concrete:
            t = self.list_text(v)
            if t is not None:
                return t
        try:
            return repr(en.to_native(v))
        except Unsupported:
            return SStr(en.fresh("repr", STR))

    def format(self, en, v, spec):
        if spec == "" or spec == "s":
            return self.str_(en, v)
        if isinstance(v, SVal):
            v = self.force(en, v, ("VInt", "VReal", "VStr", "VBool"), TypeError)
        if isinstance(v, SBool):
            v = SInt(z3.If(v.z, 1, 0))
        if isinstance(v, SInt):
            if spec == "d":
                return self.str_(en, v)
            m = re.fullmatch(r"0?(\d*)d?", spec)
            USED.add("int formatting as an uninterpreted function of value and canonical format")
            if m and (spec.startswith("0") or m.group(1) == ""):
                w = int(m.group(1) or "0")
                return SStr(DEC(v.z, z3.IntVal(0), z3.IntVal(w)))
            m = re.fullmatch(r"(0?\d*)([xX])", spec)
            if m:
                w = m.group(1).lstrip("0")
                if m.group(1) and not m.group(1).startswith("0"):
                    return SStr(F("FMTINT_" + spec, INT, STR)(v.z))
                r = SStr(F("HEXUP", INT, INT, STR)(v.z, z3.IntVal(int(w or "0"))))
                if m.group(2) == "x":
                    r = SStr(F("HEXLO", INT, INT, STR)(v.z, z3.IntVal(int(w or "0"))))
                return r
            m = re.fullmatch(r"0?(\d*)\.(\d+)f", spec)
            if m:
                v = SReal(z3.ToReal(v.z))
            else:
                return SStr(F("FMTINT_" + spec, INT, STR)(v.z))
        if isinstance(v, SReal) or (isinstance(v, float) and en.real_mode):
            m = re.fullmatch(r"(0?)(\d*)\.(\d+)f", spec)
            x = to_z(v, "real")
            if m:
                USED.add("fixed point float formatting (round half even of the exact value)")
                d = int(m.group(3))
                if m.group(2) and not m.group(1):
                    return SStr(F("FMTREAL_" + spec, REAL, STR)(x))
                if not en.branch(x >= 0):
                    return SStr(F("FMTREALNEG_" + spec, REAL, STR)(x))
                n = RHE(x * pow10(d))
                return SStr(DEC(simp(n), z3.IntVal(d), z3.IntVal(int(m.group(2) or "0"))))
            return SStr(F("FMTREAL_" + spec, REAL, STR)(x))
        if isinstance(v, SStr):
            raise Unsupported("format of symbolic string with spec")
        try:
            return format(en.to_native(v), spec)
        except (ValueError, TypeError) as e:
            raise Raised(SExc(type(e), e.args)) from e

    # ---------------------------------------------------------- operators
    def unop(self, en, op, v):
        v = self.num(en, v)
        if isinstance(op, ast.USub):
            if isinstance(v, SBool):
                v = SInt(z3.If(v.z, 1, 0))
            if isinstance(v, (SInt, SReal, SDelta)):
                return lift(type(v)(simp(-v.z)))
            if isinstance(v, float):
                return -v
        if isinstance(op, ast.UAdd) and isinstance(v, (SInt, SReal)):
            return v
        if isinstance(v, Sym):
            raise Raised(SExc(TypeError, ("unary",)))
        try:
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(op)](v)
        except TypeError as e:
            raise Raised(SExc(TypeError, e.args)) from e

    def binop(self, en, op, a, b):
        t = type(op)
        if isinstance(a, SVal):
            a = self.force(en, a, ("VInt", "VReal", "VStr", "VBool"), TypeError)
        if isinstance(b, SVal):
            b = self.force(en, b, ("VInt", "VReal", "VStr", "VBool"), TypeError)
        fa, fb = isinstance(a, float), isinstance(b, float)
        symbolic = isinstance(a, Sym) or isinstance(b, Sym)
        if not symbolic and en.real_mode and (fa or fb) and isinstance(a, (int, float)) \
                and isinstance(b, (int, float)):
            a = SReal(real_const(a)) if fa else a
            b = SReal(real_const(b)) if isinstance(b, float) else b
            symbolic = True
        if not symbolic:
            if isinstance(a, PList) or isinstance(b, PList):
                return self.list_op(en, op, a, b)
            if isinstance(a, (SObj, PDict, SMap)) or isinstance(b, (SObj, PDict, SMap)):
                raise Unsupported("operator on object")
            try:
                if isinstance(a, tuple) or isinstance(b, tuple):
                    return AST_OPS[t](a, b)
                return en.from_native(AST_OPS[t](a, b))
            except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
                raise Raised(SExc(type(e), e.args)) from e
        # time arithmetic
        if isinstance(a, (STime, SDelta, dt.timedelta, dt.datetime)) or isinstance(b, (STime, SDelta, dt.timedelta, dt.datetime)):
            return self.time_op(en, t, a, b)
        isnum = lambda v: isinstance(v, (int, float, SInt, SReal, SBool))
        if isnum(a) and isnum(b):
            return self.num_op(en, t, a, b)
        iss = lambda v: isinstance(v, (str, SStr))
        isb = lambda v: isinstance(v, (bytes, bytearray, SBytes))
        if t is ast.Add and iss(a) and iss(b):
            return self.concat(en, [a, b])
        if t is ast.Add and isb(a) and isb(b):
            return lift(SBytes(simp(z3.Concat(to_z(bytes(a) if not isinstance(a, Sym) else a),
                                              to_z(bytes(b) if not isinstance(b, Sym) else b)))))
        if t is ast.Mult and (iss(a) or iss(b)):
            raise Unsupported("string repetition")
        if t is ast.Mod and iss(a):
            raise Unsupported("% formatting")
        if isinstance(a, PList) or isinstance(b, PList):
            raise Unsupported("list operator")
        known = (int, float, str, bytes, bytearray, type(None), tuple, PList, PDict, SInt, SReal, SBool, SStr, SBytes, SVal)
        if not (isinstance(a, known) and isinstance(b, known)):
            raise Unsupported(f"operator {t.__name__} on {type(a).__name__}, {type(b).__name__}")
        raise Raised(SExc(TypeError, (f"{t.__name__} {type(a).__name__} {type(b).__name__}",)))

    def num_op(self, en, t, a, b):
        real = isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)) or t is ast.Div
        if t is ast.BitXor:
            x, y = simp(to_z(a, "int")), simp(to_z(b, "int"))
            if z3.is_int_value(x) and x.as_long() == 0:
                return lift(SInt(y))
            if z3.is_int_value(y) and y.as_long() == 0:
                return lift(SInt(x))
            USED.add("XOR on int as an uninterpreted associative-commutative function")
            return SInt(XOR(*sorted((x, y), key=lambda q: q.sexpr())))
        if t is ast.BitAnd:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(x, (float, SReal)) and y >= 0:
                    xz = to_z(x, "int")
                    tot, k = z3.IntVal(0), 0
                    while (1 << k) <= y:
                        if y & (1 << k):
                            tot = tot + ((xz / (1 << k)) % 2) * (1 << k)
                        k += 1
                    return lift(SInt(simp(tot)))
            raise Unsupported("& of two symbolic ints")
        if t in (ast.BitOr, ast.LShift, ast.RShift):
            if t is ast.RShift and isinstance(b, int) and b >= 0:
                return lift(SInt(simp(to_z(a, "int") / (1 << b))))
            if t is ast.LShift and isinstance(b, int) and b >= 0:
                return lift(SInt(simp(to_z(a, "int") * (1 << b))))
            raise Unsupported("bit operator")
        if t is ast.Pow:
            if isinstance(b, int) and 0 <= b <= 4:
                k = "real" if real else "int"
                r = to_z(1, k)
                for _ in range(b):
                    r = r * to_z(a, k)
                return lift(wrap(r, k)) if not isinstance(wrap(r, k), (int, float)) else wrap(r, k)
            raise Unsupported("power")
        if real:
            x, y = to_z(a, "real"), to_z(b, "real")
            if t is ast.Add:
                return SReal(simp(x + y))
            if t is ast.Sub:
                return SReal(simp(x - y))
            if t is ast.Mult:
                return SReal(simp(x * y))
            if en.branch(y == 0):
                raise Raised(SExc(ZeroDivisionError))
            if t is ast.Div:
                return SReal(simp(x / y))
            q = self.floordiv_real(en, x, y)
            if t is ast.FloorDiv:
                return SReal(simp(z3.ToReal(q)))
            if t is ast.Mod:
                return SReal(simp(x - z3.ToReal(q) * y))
            raise Unsupported("real operator")
        x, y = to_z(a, "int"), to_z(b, "int")
        if t is ast.Add:
            return wrap(x + y, "int")
        if t is ast.Sub:
            return wrap(x - y, "int")
        if t is ast.Mult:
            return wrap(x * y, "int")
        if t in (ast.FloorDiv, ast.Mod):
            if en.branch(y == 0):
                raise Raised(SExc(ZeroDivisionError))
            if en.branch(y > 0):
                q, m = x / y, x % y
            else:
                q, m = (-x) / (-y), -((-x) % (-y))
            return wrap(q if t is ast.FloorDiv else m, "int")
        raise Unsupported("int operator")

    def floordiv_real(self, en, x, y):
        return z3.ToInt(simp(x / y))

    def time_op(self, en, t, a, b):
        def up(v):
            if isinstance(v, dt.timedelta):
                return SDelta(z3.IntVal(v // US))
            if isinstance(v, dt.datetime):
                return self.time_const(v)
            return v
        a, b = up(a), up(b)
        if isinstance(a, STime) and isinstance(b, STime):
            if t is ast.Sub:
                if a.aware != b.aware:
                    raise Raised(SExc(TypeError, ("naive/aware",)))
                return SDelta(simp(a.z - b.z))
        elif isinstance(a, STime) and isinstance(b, SDelta):
            if t in (ast.Add, ast.Sub):
                r = simp(a.z + b.z if t is ast.Add else a.z - b.z)
                self.check_time_range(en, r)
                return STime(r, a.aware)
        elif isinstance(a, SDelta) and isinstance(b, STime) and t is ast.Add:
            r = simp(a.z + b.z)
            self.check_time_range(en, r)
            return STime(r, b.aware)
        elif isinstance(a, SDelta) and isinstance(b, SDelta):
            if t is ast.Add:
                return SDelta(simp(a.z + b.z))
            if t is ast.Sub:
                return SDelta(simp(a.z - b.z))
            if t in (ast.FloorDiv, ast.Mod):
                r = self.num_op(en, t, SInt(a.z), SInt(b.z))
                return r if t is ast.FloorDiv else SDelta(to_z(r, "int"))
            if t is ast.Div:
                return self.num_op(en, t, SInt(a.z), SInt(b.z))
        elif isinstance(a, SDelta) and isinstance(b, (int, SInt)):
            if t is ast.Mult:
                return SDelta(simp(a.z * to_z(b, "int")))
            if t is ast.FloorDiv:
                return SDelta(to_z(self.num_op(en, t, SInt(a.z), b), "int"))
        elif isinstance(b, SDelta) and isinstance(a, (int, SInt)) and t is ast.Mult:
            return SDelta(simp(b.z * to_z(a, "int")))
        raise Unsupported(f"datetime operator {t.__name__}")

    def check_time_range(self, en, r):
        lo = (dt.datetime.min - EPOCHN) // US
        hi = (dt.datetime.max - EPOCHN) // US
        if not en.branch(z3.And(r >= lo, r <= hi)):
            raise Raised(SExc(OverflowError, ("date value out of range",)))

    def time_const(self, v):
        if v.tzinfo is None:
            return STime(z3.IntVal((v - EPOCHN) // US), False)
        return STime(z3.IntVal((v - EPOCH) // US), True)

    def list_op(self, en, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, PList) and isinstance(b, PList):
            if a.concrete and b.concrete:
                return PList(a.items + b.items)
            if a.concrete and not a.items:
                return PList(None, b.kind, b.arr, b.off, b.n)
            if b.concrete:
                r = PList(*a.state()[0:1], *a.state()[1:])
                for x in b.items:
                    self.method(en, r, "append", [x], {})
                return r
            return self.build_list(en, [(False, x) for x in a.items] + [(True, b)]) if a.concrete else self._uns()
        if isinstance(op, ast.Mult) and isinstance(a, PList) and a.concrete and isinstance(b, int):
            return PList(a.items * b)
        raise Raised(SExc(TypeError, ("list operator",)))

    def _uns(self):
        raise Unsupported("list operator")

    def build_list(self, en, parts):
        """[x, *seq, ...]; one symbolic sequence allowed, at the end"""
        items = []
        for i, (star, v) in enumerate(parts):
            if not star:
                items.append(v)
                continue
            seq = self.iterate(en, v)
            if isinstance(seq, list):
                items += seq
                continue
            if i != len(parts) - 1:
                raise Unsupported("symbolic list display")
            if isinstance(v, PList) and not items:
                return PList(None, v.kind, v.arr, v.off, v.n)
            m = len(items)
            head = list(items)

            class Cat(SIter):
                pass

            def get(k, seq=seq, head=head, m=m):
                k = simp(k)
                if z3.is_int_value(k):
                    kk = k.as_long()
                    return head[kk] if kk < m else seq.get(simp(k - m))
                raise Unsupported("symbolic index into list display")
            c = Cat(simp(seq.n + m), get, "cat")
            c.head, c.tail = head, seq
            return c
        return PList(items)

    # ---------------------------------------------------------- comparison
    def compare(self, en, op, a, b):
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(en, a, b)
            return self.neg(r) if t is ast.IsNot else r
        if t is ast.In or t is ast.NotIn:
            r = self.contains(en, b, a)
            return self.neg(r) if t is ast.NotIn else r
        if t is ast.Eq or t is ast.NotEq:
            r = self.eq(en, a, b)
            return self.neg(r) if t is ast.NotEq else r
        if isinstance(a, SVal):
            a = self.force(en, a, ("VInt", "VReal", "VStr", "VBool"), TypeError)
        if isinstance(b, SVal):
            b = self.force(en, b, ("VInt", "VReal", "VStr", "VBool"), TypeError)
        if isinstance(a, float) and isinstance(b, (int, float)) or not (isinstance(a, Sym) or isinstance(b, Sym)):
            try:
                return CMP_OPS[t](en.to_native(a), en.to_native(b))
            except TypeError as e:
                raise Raised(SExc(TypeError, e.args)) from e
        if isinstance(a, (STime, SDelta)) or isinstance(b, (STime, SDelta)):
            up = lambda v: self.time_const(v) if isinstance(v, dt.datetime) else \
                SDelta(z3.IntVal(v // US)) if isinstance(v, dt.timedelta) else v
            a, b = up(a), up(b)
            if type(a) is not type(b):
                raise Raised(SExc(TypeError, ("compare",)))
            if isinstance(a, STime) and a.aware != b.aware:
                raise Raised(SExc(TypeError, ("naive/aware",)))
            x, y = a.z, b.z
        else:
            isnum = lambda v: isinstance(v, (int, float, SInt, SReal, SBool))
            if isnum(a) and isnum(b):
                k = "real" if any(isinstance(v, (float, SReal)) for v in (a, b)) else "int"
                x, y = to_z(a, k), to_z(b, k)
            elif isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                x, y = to_z(a), to_z(b)
                if t in (ast.Gt, ast.GtE):
                    x, y, t = y, x, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[t]
                return lift(SBool(simp(x < y if t is ast.Lt else x <= y)))
            else:
                raise Raised(SExc(TypeError, ("compare",)))
        r = {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t]
        return lift(SBool(simp(r)))

    def neg(self, r):
        return (not r) if isinstance(r, bool) else lift(SBool(simp(z3.Not(r.z))))

    def is_(self, en, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, SVal):
                return lift(SBool(simp(Val.is_VNone(o.z))))
            return o is None
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.eq(en, a, b)
        if isinstance(a, SVal) or isinstance(b, SVal):
            return lift(SBool(simp(box(a) == box(b))))
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b) and isinstance(a, (SDef, SOpaque)):
            return lift(SBool(simp(a.z == b.z)))
        return a is b

    def eq(self, en, a, b):
        """Python == as bool or SBool"""
        if isinstance(a, SVal) and isinstance(b, SVal):
            return lift(SBool(simp(a.z == b.z)))
        if isinstance(b, SVal):
            a, b = b, a
        if isinstance(a, SVal):
            z = a.z
            if b is None:
                return lift(SBool(simp(Val.is_VNone(z))))
            if isinstance(b, (str, SStr)):
                return lift(SBool(simp(z == Val.VStr(to_z(b)))))
            if isinstance(b, (bytes, SBytes)):
                return lift(SBool(simp(z == Val.VBytes(to_z(b)))))
            if isinstance(b, (int, float, SInt, SReal, SBool)):
                x = to_z(b, "real")
                return lift(SBool(simp(z3.Or(z3.And(Val.is_VInt(z), z3.ToReal(Val.vi(z)) == x),
                                             z3.And(Val.is_VReal(z), Val.vr(z) == x),
                                             z3.And(Val.is_VBool(z), z3.If(Val.vb(z), z3.RealVal(1), z3.RealVal(0)) == x)))))
            if isinstance(b, (SOpaque, SDef)):
                return lift(SBool(simp(z == box(b))))
            if isinstance(b, tuple):
                return lift(SBool(simp(z == box(b)))) if len(b) == 2 and isinstance(b[1], SDef) else False
            return False
        if isinstance(a, SMap) and isinstance(b, SMap):
            if a.nkeys is not None or b.nkeys is not None:
                raise Unsupported("comparison of keyword maps")
            return lift(SBool(simp(a.arr == b.arr)))
        if isinstance(a, (PList,)) or isinstance(b, (PList,)):
            if not (isinstance(a, PList) and isinstance(b, PList)):
                return False
            return self.list_eq(en, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            zs = []
            for x, y in zip(a, b):
                r = self.eq(en, x, y)
                if r is False:
                    return False
                if r is not True:
                    zs.append(r.z)
            return True if not zs else lift(SBool(simp(z3.And(*zs))))
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a.d.keys() != b.d.keys():
                return False
            return self.eq(en, tuple(a.d[k] for k in a.d), tuple(b.d[k] for k in a.d))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if isinstance(a, (SObj, PDict)) or isinstance(b, (SObj, PDict)):
                return a is b
            return bool(a == b)
        ka, kb = kind_of(a), kind_of(b)
        numk = ("int", "real", "bool")
        if isinstance(a, (STime, SDelta)) or isinstance(b, (STime, SDelta)):
            up = lambda v: self.time_const(v) if isinstance(v, dt.datetime) else \
                SDelta(z3.IntVal(v // US)) if isinstance(v, dt.timedelta) else v
            a, b = up(a), up(b)
            if type(a) is not type(b) or (isinstance(a, STime) and a.aware != b.aware):
                return False
            return lift(SBool(simp(a.z == b.z)))
        if ka in numk and kb in numk:
            if ka == kb == "bool":
                return lift(SBool(simp(to_z(a) == to_z(b))))
            k = "real" if "real" in (ka, kb) else "int"
            if k == "real":
                x = to_z(SInt(to_z(a, "int")), "real") if ka == "bool" else to_z(a, "real")
                y = to_z(SInt(to_z(b, "int")), "real") if kb == "bool" else to_z(b, "real")
            else:
                x, y = to_z(a, k), to_z(b, k)
            return lift(SBool(simp(x == y)))
        if ka != kb:
            return False
        if ka in ("str", "bytes", "def"):
            return lift(SBool(simp(to_z(a) == to_z(b))))
        if ka == "val":
            return lift(SBool(simp(box(a) == box(b))))
        return a is b

    def list_eq(self, en, a, b):
        if a is b:
            return True
        if a.concrete and b.concrete:
            return self.eq(en, tuple(a.items), tuple(b.items))
        if a.concrete or b.concrete:
            c, s = (a, b) if a.concrete else (b, a)
            zs = [s.n == len(c.items)]
            for i, x in enumerate(c.items):
                r = self.eq(en, KIND_CLS[s.kind](z3.Select(s.arr, s.off + i)), x)
                zs.append(z3.BoolVal(r) if isinstance(r, bool) else r.z)
            return lift(SBool(simp(z3.And(*zs))))
        if a.kind != b.kind:
            raise Unsupported("comparison of lists of different kinds")
        # sufficient (identical backing sequence); exact when used as a proof goal
        return lift(SBool(simp(z3.And(a.n == b.n, z3.Or(a.n == 0, z3.And(a.arr == b.arr, a.off == b.off))))))

    def contains(self, en, cont, x):
        if isinstance(cont, (list,)):
            cont = tuple(cont)
        if isinstance(cont, PList):
            if not cont.concrete:
                raise Unsupported("membership in symbolic list")
            cont = tuple(cont.items)
        if isinstance(cont, (tuple, set, frozenset)):
            zs = []
            for y in cont:
                r = self.eq(en, x, y)
                if r is True:
                    return True
                if r is not False:
                    zs.append(r.z)
            return False if not zs else lift(SBool(simp(z3.Or(*zs))))
        if isinstance(cont, (dict, types.MappingProxyType)):
            if id(cont) in en.tables and isinstance(x, (SStr, SVal, str)):
                return self.table_in(en, cont, x)
            if not isinstance(x, Sym):
                try:
                    return x in cont
                except TypeError as e:
                    raise Raised(SExc(TypeError, e.args)) from e
            return self.contains(en, tuple(cont), x)
        if isinstance(cont, PDict):
            return self.contains(en, tuple(cont.d), x) if isinstance(x, Sym) else x in cont.d
        if isinstance(cont, type({}.keys())):
            return self.contains(en, tuple(cont), x)
        if isinstance(cont, SMap):
            z = self.strkey(en, x)
            if z is None:
                return False
            return lift(SBool(simp(z3.Select(cont.arr, z) != Val.Absent)))
        if isinstance(cont, SDef):
            z = self.strkey(en, x)
            return False if z is None else lift(SBool(simp(F("DIN", DefSort, STR, BOOL)(cont.z, z))))
        if isinstance(cont, (str, SStr)):
            x = self.force(en, x, ("VStr",), TypeError)
            if not isinstance(x, (str, SStr)):
                raise Raised(SExc(TypeError, ("in",)))
            if isinstance(cont, str) and isinstance(x, str):
                return x in cont
            return lift(SBool(simp(z3.Contains(to_z(cont), to_z(x)))))
        if isinstance(cont, (bytes, SBytes)):
            if isinstance(x, (bytes, SBytes)):
                if isinstance(cont, bytes) and isinstance(x, bytes):
                    return x in cont
                return lift(SBool(simp(z3.Contains(to_z(cont), to_z(x)))))
            if isinstance(x, (int, SInt)):
                if isinstance(cont, bytes):
                    return self.contains(en, tuple(cont), x)
                return lift(SBool(simp(z3.Contains(cont.z, z3.StrFromCode(to_z(x))))))
        if isinstance(cont, SRange):
            z = to_z(x, "int")
            return lift(SBool(simp(z3.And(z >= cont.lo, z < cont.hi))))
        if isinstance(cont, range) and isinstance(x, SInt) and cont.step == 1:
            return lift(SBool(simp(z3.And(x.z >= cont.start, x.z < cont.stop))))
        if isinstance(cont, (Sym, SObj)):
            raise Unsupported("membership")
        try:
            return x in cont
        except TypeError as e:
            raise Raised(SExc(TypeError, e.args)) from e

    def strkey(self, en, x):
        x = self.force(en, x, ("VStr",), None)
        if isinstance(x, (str, SStr)):
            return to_z(x)
        if isinstance(x, SVal):
            return None
        return None

    # --------------------------------------------------- opaque tables
    def table_in(self, en, d, x):
        name = en.tables[id(d)]
        z = self.strkey(en, x)
        if z is None:
            return False
        return lift(SBool(F("TIN_" + name, STR, BOOL)(z)))

    def table_get(self, en, d, x):
        name = en.tables[id(d)]
        z = self.strkey(en, x)
        if z is None or not en.branch(F("TIN_" + name, STR, BOOL)(z)):
            raise Raised(SExc(KeyError, (x,)))
        return SDef(F("TGET_" + name, STR, DefSort)(z))

    # ----------------------------------------------------------- indexing
    def getitem(self, en, obj, k):
        if isinstance(k, SVal):
            k = self.force(en, k, ("VInt", "VStr"), None)
        if isinstance(obj, SVal):
            obj = self.force(en, obj, ("VStr", "VGrp", "VDef", "VBytes"), TypeError)
        if isinstance(obj, (str, SStr, bytes, SBytes)):
            return self.str_index(en, obj, k)
        if isinstance(obj, PList):
            if isinstance(k, slice):
                return self.list_slice(en, obj, k)
            if isinstance(k, (str, SStr, float)) or k is None:
                raise Raised(SExc(TypeError, ("list indices",)))
            if obj.concrete and isinstance(k, int):
                try:
                    return obj.items[k]
                except IndexError as e:
                    raise Raised(SExc(IndexError, e.args)) from e
            n = z3.IntVal(len(obj.items)) if obj.concrete else obj.n
            kz = to_z(k, "int")
            if isinstance(k, int):
                ok = simp(n > k) if k >= 0 else simp(n >= -k)
                if not en.branch(ok):
                    raise Raised(SExc(IndexError, ("list index",)))
                idx = kz if k >= 0 else n + kz
            else:
                if en.branch(kz >= 0):
                    if not en.branch(kz < n):
                        raise Raised(SExc(IndexError, ("list index",)))
                    idx = kz
                else:
                    if not en.branch(n + kz >= 0):
                        raise Raised(SExc(IndexError, ("list index",)))
                    idx = n + kz
            if obj.concrete:
                for i, x in enumerate(obj.items):
                    if en.branch(simp(idx == i)):
                        return x
                raise PathEnd()
            return self.list_get(en, obj, simp(idx))
        if isinstance(obj, tuple):
            if isinstance(k, slice):
                return obj[k]
            if isinstance(k, SInt):
                for i, x in enumerate(obj):
                    if en.branch(simp(z3.Or(k.z == i, k.z == i - len(obj)))):
                        return x
                raise Raised(SExc(IndexError, ("tuple index",)))
            try:
                return en.from_native(obj[k])
            except (IndexError, TypeError) as e:
                raise Raised(SExc(type(e), e.args)) from e
        if isinstance(obj, PDict):
            obj = obj.d
        if isinstance(obj, (dict, types.MappingProxyType)):
            if id(obj) in en.tables and isinstance(k, (SStr, str)):
                return self.table_get(en, obj, k)
            if isinstance(k, Sym):
                for key in obj:
                    r = self.eq(en, k, key)
                    if r is not False and en.truth(r):
                        return self.dval(en, obj[key])
                raise Raised(SExc(KeyError, (k,)))
            try:
                return self.dval(en, obj[k])
            except (KeyError, TypeError) as e:
                raise Raised(SExc(type(e), e.args)) from e
        if isinstance(obj, SMap):
            z = self.strkey(en, k)
            if z is None:
                raise Raised(SExc(KeyError, (k,)))
            v = simp(z3.Select(obj.arr, z))
            if en.branch(v == Val.Absent):
                raise Raised(SExc(KeyError, (k,)))
            if getattr(obj, "valkind", None) == "def":
                return SDef(simp(Val.vd(v)))
            return lift(SVal(v))
        if isinstance(obj, SDef):
            z = self.strkey(en, k)
            if z is not None and z.decl().name() == "DKEY" and z.arg(0).eq(obj.z):
                return SVal(F("DATT", DefSort, STR, Val)(obj.z, z))     # an enumerated key is in it
            if z is None or not en.branch(F("DIN", DefSort, STR, BOOL)(obj.z, z)):
                raise Raised(SExc(KeyError, (k,)))
            return SVal(F("DATT", DefSort, STR, Val)(obj.z, z))
        if isinstance(obj, SIter) and isinstance(k, (int, SInt)):
            kz = to_z(k, "int")
            if not en.branch(z3.And(kz >= 0, kz < obj.n)):
                raise Unsupported("index into lazy sequence")
            return obj.get(kz)
        if isinstance(obj, (SObj,)):
            raise Unsupported("subscript of object")
        if obj is None or isinstance(obj, (int, float, SInt, SReal, SBool)):
            raise Raised(SExc(TypeError, ("not subscriptable",)))
        if isinstance(k, Sym):
            raise Unsupported("symbolic subscript")
        try:
            return en.from_native(obj[k])
        except Exception as e:
            raise Raised(SExc(type(e), e.args)) from e

    def dval(self, en, v):
        return v if isinstance(v, (dict, list)) is False else (v if isinstance(v, dict) else self.global_value(en, v))

    def list_get(self, en, lst, idx):
        if lst.concrete:
            return lst.items[idx.as_long()]
        if lst.kind == "time":
            return STime(simp(z3.Select(lst.arr, lst.off + idx)), True)
        return lift(KIND_CLS[lst.kind](simp(z3.Select(lst.arr, lst.off + idx))))

    def list_slice(self, en, lst, s):
        if s.step is not None:
            raise Unsupported("list slice step") if not lst.concrete else None
        if lst.concrete and not isinstance(s.start, Sym) and not isinstance(s.stop, Sym):
            return PList(lst.items[s])
        if lst.concrete:
            raise Unsupported("symbolic slice of concrete list")
        lo = self.clamp(en, s.start, lst.n, z3.IntVal(0))
        hi = self.clamp(en, s.stop, lst.n, lst.n)
        n = simp(z3.If(hi > lo, hi - lo, 0))
        return PList(None, lst.kind, lst.arr, simp(lst.off + lo), n)

    def clamp(self, en, v, n, default):
        if v is None:
            return default
        z = to_z(v, "int")
        if isinstance(v, int):
            if v >= 0:
                if v == 0:
                    return z3.IntVal(0)
                return z3.If(n >= v, z3.IntVal(v), n)
            return z3.If(n + v >= 0, n + v, z3.IntVal(0))
        if en.branch(z >= 0):
            return simp(z3.If(z <= n, z, n))
        return simp(z3.If(n + z >= 0, n + z, z3.IntVal(0)))

    def str_index(self, en, s, k):
        isb = isinstance(s, (bytes, SBytes))
        if not isinstance(s, Sym) and not isinstance(k, Sym) and not (
                isinstance(k, slice) and (isinstance(k.start, Sym) or isinstance(k.stop, Sym))):
            try:
                return s[k]
            except (IndexError, TypeError) as e:
                raise Raised(SExc(type(e), e.args)) from e
        z = to_z(s)
        n = z3.Length(z)
        cls = SBytes if isb else SStr
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                raise Unsupported("slice step")
            a, b = k.start, k.stop
            if not isinstance(a, Sym) and not isinstance(b, Sym) and fixed.has_dec(z):
                cs = fixed.cells(en, z)
                if cs is not None:
                    return lift(cls(simp(fixed.from_cells(cs[k]))))
            if isb:
                r = self.bytes_slice(en, z, a, b)
                if r is not None:
                    return lift(SBytes(simp(r)))
            # concrete non negative bounds map directly on str.substr
            if (a is None or (isinstance(a, int) and a >= 0)) and (isinstance(b, int) and b >= 0):
                a = a or 0
                return lift(cls(simp(z3.SubString(z, a, max(b - a, 0)))))
            if (isinstance(a, int) and a >= 0) and b is None:
                return lift(cls(simp(z3.SubString(z, a, n - a))))
            if isinstance(a, int) and a < 0 and b is None:
                return lift(cls(simp(z3.If(n >= -a, z3.SubString(z, n + a, -a), z))))
            lo = self.clamp(en, a, n, z3.IntVal(0))
            hi = self.clamp(en, b, n, n)
            if (isinstance(b, int) and b < 0) and (a is None or a == 0):
                return lift(cls(simp(z3.SubString(z, 0, n + b))))
            return lift(cls(simp(z3.SubString(z, lo, hi - lo))))
        if not isinstance(k, (int, SInt)):
            raise Raised(SExc(TypeError, ("string index",)))
        kz = to_z(k, "int")
        if isinstance(k, int):
            ok = simp(n > k) if k >= 0 else simp(n >= -k)
            idx = kz if k >= 0 else n + kz
        else:
            if en.branch(kz >= 0):
                ok, idx = kz < n, kz
            else:
                ok, idx = n + kz >= 0, n + kz
        if not en.branch(ok):
            raise Raised(SExc(IndexError, ("string index",)))
        if isb:
            return lift(SInt(simp(z3.StrToCode(z3.SubString(z, idx, 1)))))
        return lift(SStr(simp(z3.SubString(z, idx, 1))))

    def head_tail(self, en, z, k):
        """z as (first k bytes, rest); a piece of unknown length is split into two
        named parts, equal to it when joined (see Engine.normal)"""
        from pyvc.core import zstr
        from pyvc.loops import concat_children
        parts = concat_children(en.normal(z))
        h = []
        cat = lambda q: strval("") if not q else q[0] if len(q) == 1 else z3.Concat(*q)
        while k > 0 and parts:
            p = parts.pop(0)
            if z3.is_string_value(p):
                t = zstr(p)
                h.append(strval(t[:k]))
                if len(t) > k:
                    parts.insert(0, strval(t[k:]))
                k -= min(k, len(t))
            elif en.known_length(p) is not None:
                n = en.known_length(p)
                if n > k:
                    if not en.lines:
                        return None
                    hh, tt = en.fresh(f"cut{k}", STR), en.fresh("rest", STR)
                    en.split(p, hh, tt, k)
                    en.has_length(tt, n - k)
                    h.append(hh)
                    parts.insert(0, tt)
                    k = 0
                    continue
                h.append(p)
                k -= n
            elif en.branch(z3.Length(p) >= k):
                hh, tt = en.fresh(f"cut{k}", STR), en.fresh("rest", STR)
                en.split(p, hh, tt, k)
                h.append(hh)
                parts.insert(0, tt)
                k = 0
            elif not parts and not en.lines:
                h.append(p)
                k = 0
            elif en.lines:
                n = self.short(en, p, k)
                if n:
                    h.append(p)
                k -= n
            else:
                return None
        return cat(h), cat(parts)

    def short(self, en, p, k):
        """length of a piece known to have less than k characters"""
        for j in range(k):
            if j == k - 1 or en.branch(z3.Length(p) == j):
                break
        if j == 0:
            en.is_empty(p)
        else:
            en.has_length(p, j)
        return j

    def cut_at(self, en, z, n):
        """z as (first n bytes, rest), n symbolic and not negative"""
        n = simp(n)
        if not en.branch(n >= 0):
            return None
        if not en.branch(n <= z3.Length(z)):
            return z, strval("")
        from pyvc.loops import concat_children
        cat = lambda q: strval("") if not q else q[0] if len(q) == 1 else z3.Concat(*q)
        for p in en.pc:
            c = en.cutat.get(p.get_id())
            if c is not None and c[0].eq(z) and c[1].eq(n):
                return c[2], c[3]
        parts, acc = concat_children(simp(en.normal(z))), z3.IntVal(0)
        ids = {p.get_id() for p in en.pc}
        for i, p in enumerate(parts):
            if simp(z3.Length(p) == n - acc).get_id() in ids:
                return cat(parts[:i + 1]), cat(parts[i + 1:])
            if i == len(parts) - 1 or en.branch(n <= acc + z3.Length(p)):
                break
            acc = acc + z3.Length(p)
        h, t = en.fresh("cut", STR), en.fresh("rest", STR)
        d = simp(z3.Length(h) == n - acc)
        en.assume(d)
        hh, tt = cat(parts[:i] + [h]), cat([t] + parts[i + 1:])
        en.cutat[d.get_id()] = (z, n, hh, tt, d)
        if z3.is_string_value(p):
            en.assume(p == z3.Concat(h, t))
        else:
            en.split(p, h, t, None)
        return hh, tt

    def bytes_slice(self, en, z, a, b):
        """slices with literal bounds"""
        from pyvc.core import zstr
        from pyvc.loops import concat_children
        if isinstance(b, SInt) and (a is None or a == 0):
            r = self.cut_at(en, z, b.z)
            return None if r is None else r[0]
        if isinstance(a, SInt) and b is None:
            r = self.cut_at(en, z, a.z)
            return None if r is None else r[1]
        if not (a is None or isinstance(a, int)) or not (b is None or isinstance(b, int)):
            return None
        a = a or 0
        if a < 0 and b is None:
            parts, need, out = concat_children(simp(en.normal(z))), -a, []
            while parts and need > 0:
                p = parts.pop()
                if z3.is_string_value(p):
                    t = zstr(p)[-need:]
                    out.insert(0, strval(t))
                    need -= len(t)
                    continue
                n = en.known_length(p)
                if n is None and en.branch(z3.Length(p) >= need):
                    hh, tt = en.fresh("rest", STR), en.fresh(f"end{need}", STR)
                    en.split(p, hh, tt, None)
                    en.has_length(tt, need)
                    out.insert(0, tt)
                    need = 0
                    continue
                if n is None:
                    if not en.lines and parts:
                        return None
                    n = self.short(en, p, need)
                if n > need:
                    if not en.lines:
                        return None
                    hh, tt = en.fresh("rest", STR), en.fresh(f"end{need}", STR)
                    en.split(p, hh, tt, n - need)
                    en.has_length(tt, need)
                    p, n = tt, need
                if n:
                    out.insert(0, p)
                need -= n
            return simp(strval("") if not out else out[0] if len(out) == 1 else z3.Concat(*out))
        if a < 0 or (b is not None and b < a):
            return None
        if b is not None:
            r = self.head_tail(en, z, b)
            if r is None:
                return None
            z = r[0]
        if a:
            r = self.head_tail(en, z, a)
            return None if r is None else r[1]
        return z

    def setitem(self, en, obj, k, v):
        if isinstance(obj, PList):
            if getattr(obj, "frozen", False):
                en.oblige("frame: module level list is not modified", False)
            if isinstance(k, slice):
                raise Unsupported("slice assignment")
            en.mut_list(obj)
            if obj.concrete and isinstance(k, int):
                try:
                    obj.items[k] = v
                except IndexError as e:
                    raise Raised(SExc(IndexError, e.args)) from e
                return
            if obj.concrete:
                raise Unsupported("symbolic index store")
            kz = to_z(k, "int")
            if isinstance(k, int) and k < 0:
                if not en.branch(obj.n + k >= 0):
                    raise Raised(SExc(IndexError, ("assignment",)))
                kz = simp(obj.n + k)
            else:
                if not en.branch(z3.And(kz >= 0, kz < obj.n)):
                    raise Raised(SExc(IndexError, ("assignment",)))
            obj.arr = z3.Store(obj.arr, simp(obj.off + kz), to_z(v, obj.kind))
            return
        if isinstance(obj, PDict):
            if isinstance(k, Sym):
                raise Unsupported("symbolic dict key")
            en.mut_dict(obj)
            obj.d[k] = v
            return
        if isinstance(obj, (dict, list)):
            en.oblige("frame: module level container is not modified", False)
            raise PathEnd()
        raise Unsupported("item assignment")

    def delitem(self, en, obj, k):
        if isinstance(obj, PDict) and not isinstance(k, Sym):
            en.mut_dict(obj)
            if k not in obj.d:
                raise Raised(SExc(KeyError, (k,)))
            del obj.d[k]
            return
        if isinstance(obj, PList) and obj.concrete and isinstance(k, int):
            en.mut_list(obj)
            del obj.items[k]
            return
        raise Unsupported("del item")

    # ---------------------------------------------------------- iteration
    def iterate(self, en, v):
        """list of values, or SIter"""
        if isinstance(v, SVal):
            v = self.force(en, v, ("VStr", "VGrp", "VDef"), TypeError)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, PList):
            if v.concrete:
                return list(v.items)
            arr, off, kind = v.arr, v.off, v.kind
            return SIter(v.n, lambda k: self.list_get(en, PList(None, kind, arr, off, None), k), "list")
        if isinstance(v, (PDict,)):
            return list(v.d)
        if isinstance(v, (dict, set, frozenset, types.MappingProxyType, type({}.keys()), type({}.values()),
                          type({}.items()), range, str, bytes, bytearray)):
            return [en.from_native(x) for x in v]
        if isinstance(v, SStr):
            z = v.z
            return SIter(z3.Length(z), lambda k: SStr(simp(z3.SubString(z, k, 1))), "str")
        if isinstance(v, SBytes):
            z = v.z
            return SIter(z3.Length(z), lambda k: SInt(simp(z3.StrToCode(z3.SubString(z, k, 1)))), "bytes")
        if isinstance(v, SRange):
            lo = v.lo
            return SIter(simp(z3.If(v.hi > lo, v.hi - lo, 0)), lambda k: wrap(lo + k, "int"), "range")
        if isinstance(v, SIter):
            return v
        if isinstance(v, SDef):
            return self.def_keys(v)
        if isinstance(v, SMap):
            if v.nkeys is None:
                raise Unsupported("iteration over symbolic map")
            return SIter(v.nkeys, lambda k: SStr(z3.Select(v.keyat, k)), "map")
        if isinstance(v, SObj):
            it = getattr(v.cls, "__iter__", None)
            raise Unsupported("iteration over object")
        if v is None or isinstance(v, (int, float, SInt, SReal, SBool, SOpaque)):
            raise Raised(SExc(TypeError, ("not iterable",)))
        if isinstance(v, (enumerate, zip, map, filter, reversed)) or hasattr(v, "__next__"):
            return [en.from_native(x) for x in v]
        if hasattr(v, "__iter__"):
            return [en.from_native(x) for x in v]
        raise Raised(SExc(TypeError, ("not iterable",)))

    def def_keys(self, d):
        # by definition of a dict every enumerated key is in it
        key = F("DKEY", DefSort, INT, STR)
        return SIter(F("DNK", DefSort, INT)(d.z), lambda k: SStr(key(d.z, k)), "def")

    # --------------------------------------------------- attributes/methods
    def attribute(self, en, obj, name):
        if isinstance(obj, SOpaque):
            have = {"date": fixed.DATE_ACC, "time": fixed.TIME_ACC,
                    "datetime": fixed.DATE_ACC + fixed.TIME_ACC}.get(obj.typ, [])
            if name in [n for n, _ in have]:
                return SInt(fixed.acc(name, obj.z))
            return Bound(obj, name)
        if isinstance(obj, STime):
            if name == "tzinfo":
                return dt.timezone.utc if obj.aware else None
            return Bound(obj, name)
        if isinstance(obj, SDelta):
            if name == "days":
                return wrap(obj.z / 86400000000, "int")
            if name == "seconds":
                return wrap((obj.z % 86400000000) / 1000000, "int")
            if name == "microseconds":
                return wrap(obj.z % 1000000, "int")
            return Bound(obj, name)
        if isinstance(obj, SVal):
            o = self.force(en, obj, ("VStr", "VDef", "VBytes"), None)
            if not isinstance(o, SVal):
                return self.attribute(en, o, name) if isinstance(o, Sym) else Bound(o, name)
            # other dynamic values: attribute access is modelled for str methods only
            if hasattr(str, name):
                raise Raised(SExc(AttributeError, (name,)))
            return Bound(obj, name)
        types_ = {SStr: str, SBytes: bytes, SInt: int, SBool: bool, SReal: float, PList: list,
                  PDict: dict, SMap: dict, SDef: dict, SRange: range}
        for c, py in types_.items():
            if isinstance(obj, c):
                if not hasattr(py, name):
                    raise Raised(SExc(AttributeError, (name,)))
                return Bound(obj, name)
        return Bound(obj, name)

    def native_attr(self, en, obj, name):
        try:
            v = getattr(obj, name)
        except AttributeError as e:
            raise Raised(SExc(AttributeError, (name,))) from e
        if isinstance(obj, types.ModuleType):
            return self.global_value(en, v)
        return v

    def method(self, en, recv, name, args, kwargs):
        if name.startswith("object."):
            return self.object_method(en, recv, name[7:], args, kwargs)
        h = None
        if isinstance(recv, (SStr, str)):
            h = getattr(self, "str_" + name, None) if name not in ("index",) else self.str_indexof
            sym = isinstance(recv, Sym) or any(isinstance(a, (Sym, SIter)) or (isinstance(a, PList))
                                               for a in args)
            if not sym:
                return en.call_native(getattr(recv, name), args, kwargs)
            args = [self.force(en, a, ("VStr", "VInt"), None) for a in args]
            if h is None:
                return self.opaque_str(en, recv, name, args, kwargs)
            return h(en, recv, *args, **self.kwd(en, kwargs))
        if isinstance(recv, (SBytes, bytes, bytearray)):
            sym = isinstance(recv, Sym) or any(isinstance(a, (Sym, SIter, PList)) for a in args)
            if not sym:
                return en.call_native(getattr(recv, name), args, kwargs)
            h = getattr(self, "bytes_" + name, None)
            if h is None:
                return self.opaque_str(en, recv, name, args, kwargs)
            return h(en, recv, *args, **self.kwd(en, kwargs))
        if isinstance(recv, PList):
            h = getattr(self, "list_m_" + name, None)
        elif isinstance(recv, (PDict, dict)):
            h = getattr(self, "dict_" + name, None)
        elif isinstance(recv, SMap):
            h = getattr(self, "map_" + name, None)
        elif isinstance(recv, SDef):
            h = getattr(self, "def_" + name, None)
        elif isinstance(recv, STime):
            h = getattr(self, "time_" + name, None)
        elif isinstance(recv, SDelta):
            h = getattr(self, "delta_" + name, None)
        elif isinstance(recv, (SInt, SReal, int, float)):
            h = getattr(self, "num_" + name, None)
            if h is None and not isinstance(recv, Sym):
                return en.call_native(getattr(recv, name), args, kwargs)
        elif isinstance(recv, tuple):
            return en.call_native(getattr(recv, name), args, kwargs)
        if h is None:
            raise Unsupported(f"method {type(recv).__name__}.{name}")
        return h(en, recv, *args, **self.kwd(en, kwargs))

    def kwd(self, en, kwargs):
        return dict(en.kw_items(kwargs))

    def object_method(self, en, obj, name, args, kwargs):
        if name == "__setattr__":
            n, v = args
            n = self.force(en, n, ("VStr",), TypeError)
            en.setattribute(obj, n, v, raw=True)
            return None
        if name == "__delattr__":
            en.delattribute(obj, args[0], raw=True)
            return None
        if name == "__init__":
            return None
        raise Unsupported(f"object.{name}")

    # --- str methods
    def opaque_str(self, en, s, name, args, kwargs):
        pure = {"upper": "str", "lower": "str", "isdigit": "bool", "isnumeric": "bool", "isdecimal": "bool",
                "isalpha": "bool", "isalnum": "bool", "zfill": "str", "ljust": "str", "rjust": "str",
                "title": "str", "capitalize": "str", "swapcase": "str", "isupper": "bool", "islower": "bool",
                "isascii": "bool", "isspace": "bool", "casefold": "str", "count": "int", "rfind": "int", "hex": "str"}
        if name not in pure or kwargs:
            raise Unsupported(f"str method {name}")
        USED.add(f"str.{name} as an uninterpreted pure function")
        zs = [to_z(s)] + [to_z(a) for a in args]
        rk = pure[name]
        return lift(KIND_CLS[rk](F("str_" + name, *[z.sort() for z in zs], KIND_SORT[rk])(*zs)))

    def str_upper(self, en, s):
        z = s.z
        # upper() of a lower case hex rendering is the upper case rendering
        if z3.is_app(z) and z.decl().name() == "HEXLO":
            return SStr(F("HEXUP", INT, INT, STR)(z.arg(0), z.arg(1)))
        return SStr(F("str_upper", STR, STR)(z))

    def str_zfill(self, en, s, w):
        z = s.z
        if z3.is_app(z) and z.decl().name() == "DECFMT" and isinstance(w, int):
            w0 = simp(z.arg(2))
            if z3.is_int_value(w0):
                return SStr(DEC(z.arg(0), z.arg(1), z3.IntVal(max(w0.as_long(), w))))
        return self.opaque_str(en, s, "zfill", [w], {})

    def str_rjust(self, en, s, w, fill=" "):
        if fill == "0":
            return self.str_zfill(en, s, w)
        return self.opaque_str(en, s, "rjust", [w, fill], {})

    def str_format(self, en, s, *a, **k):
        raise Unsupported("str.format")

    def str_startswith(self, en, s, p, *rest):
        if rest:
            raise Unsupported("startswith range")
        if isinstance(p, tuple):
            return lift(SBool(simp(z3.Or(*[z3.PrefixOf(to_z(x), to_z(s)) for x in p]))))
        return lift(SBool(simp(z3.PrefixOf(to_z(p), to_z(s)))))

    def str_endswith(self, en, s, p, *rest):
        if rest:
            raise Unsupported("endswith range")
        if isinstance(p, tuple):
            return lift(SBool(simp(z3.Or(*[z3.SuffixOf(to_z(x), to_z(s)) for x in p]))))
        return lift(SBool(simp(z3.SuffixOf(to_z(p), to_z(s)))))

    def str_find(self, en, s, sub, start=0, *rest):
        if rest:
            raise Unsupported("find range")
        if isinstance(s, SStr) and isinstance(sub, str) and len(sub) == 1 and not sub.isdigit() and start == 0 \
                and fixed.has_dec(s.z):
            cs = fixed.cells(en, s.z)
            if cs is not None:
                return cs.index(sub) if sub in cs else -1
        if isinstance(start, int) and start >= 0 or en.branch(to_z(start, "int") >= 0):
            return lift(SInt(simp(z3.IndexOf(to_z(s), to_z(sub), to_z(start, "int")))))
        raise Unsupported("find with negative start")

    def str_indexof(self, en, s, sub, *rest):
        r = self.str_find(en, s, sub, *rest)
        if en.truth(lift(SBool(simp(to_z(r, "int") < 0)))):
            raise Raised(SExc(ValueError, ("substring not found",)))
        return r

    def str_replace(self, en, s, a, b, *rest):
        if rest:
            raise Unsupported("replace count")
        USED.add("str.replace as an uninterpreted pure function")
        return SStr(F("REPLACEALL", STR, STR, STR, STR)(to_z(s), to_z(a), to_z(b)))

    def str_removeprefix(self, en, s, p):
        if en.branch(z3.PrefixOf(to_z(p), to_z(s))):
            return self.str_index(en, s, slice(len(p), None, None)) if isinstance(p, str) else self._uns()
        return s

    def str_encode(self, en, s, enc="utf-8", *rest):
        if enc.lower().replace("_", "-") not in ("utf-8", "utf8"):
            raise Unsupported("encoding " + enc)
        USED.add("str.encode/bytes.decode utf-8: encode(decode(b)) == b; identity on ASCII literals")
        return lift(SBytes(self.utf8e(s.z)))

    def utf8e(self, z):
        """UTF-8 encoding distributes over concatenation; identity on ASCII literals"""
        z = simp(z)
        if z3.is_string_value(z):
            from pyvc.core import zstr
            return bytesval(zstr(z).encode("utf-8"))
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return z3.Concat(*[self.utf8e(c) for c in z.children()])
        if z3.is_app(z) and z.decl().name() in ("HEXUP", "HEXLO", "DECFMT"):
            return z
        return UTF8E(z)

    def utf8d(self, z):
        """text whose encoding is syntactically z, or None"""
        z = simp(z)
        if z3.is_string_value(z):
            from pyvc.core import zstr
            t = zstr(z)
            return z if all(ord(c) < 128 for c in t) else None
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            ds = [self.utf8d(c) for c in z.children()]
            return None if any(d is None for d in ds) else z3.Concat(*ds)
        if z3.is_app(z) and z.decl().name() in ("HEXUP", "HEXLO", "DECFMT"):
            return z
        if z3.is_app(z) and z.decl().name() == "UTF8E":
            return z.arg(0)
        return None

    def strip_core(self, en, s, chars, left, right):
        """peel literal ends, then decide whether anything remains to strip"""
        z = simp(en.normal(to_z(s)) if en.lines else to_z(s))
        from pyvc.core import zstr
        parts = list(z.children()) if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [z]
        flat = []

        def fl(p):
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for c in p.children():
                    fl(c)
            else:
                flat.append(p)
        for p in parts:
            fl(p)
        if left:
            while flat and z3.is_string_value(flat[0]):
                t = zstr(flat[0]).lstrip(chars)
                if t == "":
                    flat.pop(0)
                    continue
                flat[0] = strval(t)
                break
        if right:
            while flat and z3.is_string_value(flat[-1]):
                t = zstr(flat[-1]).rstrip(chars)
                if t == "":
                    flat.pop()
                    continue
                flat[-1] = strval(t)
                break
        if not flat:
            return z3.StringVal("")
        r = flat[0] if len(flat) == 1 else z3.Concat(*flat)
        r = simp(r)
        if z3.is_string_value(r):
            return r
        name = f"STRIP_{'l' if left else ''}{'r' if right else ''}_" + "".join(f"{ord(c):x}." for c in sorted(set(chars)))
        if en.lines:
            return F(name, STR, STR)(r)

        def in_set(ch):
            return z3.Or(*[ch == strval(c) for c in chars])
        conds = []
        if left:
            conds.append(z3.Not(in_set(z3.SubString(r, 0, 1))))
        if right:
            conds.append(z3.Not(in_set(z3.SubString(r, z3.Length(r) - 1, 1))))
        if en.branch(z3.Or(z3.Length(r) == 0, z3.And(*conds))):
            return r
        return F(name, STR, STR)(r)

    WS = " \t\n\r\x0b\x0c"

    def str_strip(self, en, s, chars=None):
        return lift(SStr(self.strip_core(en, s, chars or self.WS, True, True)))

    def str_lstrip(self, en, s, chars=None):
        return lift(SStr(self.strip_core(en, s, chars or self.WS, True, False)))

    def str_rstrip(self, en, s, chars=None):
        return lift(SStr(self.strip_core(en, s, chars or self.WS, False, True)))

    def cut(self, en, z, sep):
        """(head, tail) around the first sep if the structure of z shows where it is"""
        from pyvc.core import zstr
        from pyvc.loops import concat_children
        sep = simp(sep)
        if not z3.is_string_value(sep) or len(zstr(sep)) != 1:
            return None
        c = zstr(sep)
        parts = concat_children(z)
        for j, p in enumerate(parts):
            if z3.is_string_value(p):
                t = zstr(p)
                if c in t:
                    i = t.index(c)
                    cat = lambda q: simp(z3.Concat(*q)) if len(q) > 1 else q[0]
                    return cat(parts[:j] + [strval(t[:i])]), cat([strval(t[i + 1:])] + parts[j + 1:])
            elif len(parts) == 1 or not en.proves(z3.Not(z3.Contains(p, sep)), 1500):
                return None
        return None

    def split1(self, en, z, sep, cls=SStr):
        """(head, tail) around the first occurrence of literal sep, which is present"""
        i = z3.IndexOf(z, sep, 0)
        return (lift(cls(simp(z3.SubString(z, 0, i)))),
                lift(cls(simp(z3.SubString(z, i + z3.Length(sep), z3.Length(z) - i - z3.Length(sep))))))

    def str_split(self, en, s, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split on whitespace")
        z, sz = to_z(s), to_z(sep)
        if maxsplit == 1:
            c = self.cut(en, z, sz)
            if c is not None:
                return PList([lift(SStr(c[0])), lift(SStr(c[1]))])
            if not en.branch(z3.Contains(z, sz)):
                return PList([s])
            h, t = self.split1(en, z, sz)
            return PList([h, t])
        if maxsplit != -1:
            raise Unsupported("split count")
        USED.add("str.split(sep): uninterpreted sequence, with join(sep) as its inverse")
        arr, n = SPLITA(z, sz), SPLITN(z, sz)
        from pyvc.loops import fold_concat
        tail = SIter(simp(n - 1), lambda k: SStr(simp(z3.Select(arr, 1 + k))), "split")
        en.assume(n >= 1)
        rest = fold_concat(en, tail, lambda k: self.concat(en, [sep, tail.get(k)]), z3.IntVal(0))
        en.assume(z == z3.Concat(z3.Select(arr, 0), to_z(rest)))
        en.assume(z3.Contains(z, sz) == (n > 1))
        en.assume(z3.Implies(n > 1, z3.PrefixOf(sz, to_z(rest))))
        en.assume(z3.Not(z3.Contains(z3.Select(arr, 0), sz)))
        return PList(None, "str", arr, z3.IntVal(0), n)

    def str_partition(self, en, s, sep):
        z, sz = to_z(s), to_z(sep)
        c = self.cut(en, z, sz)
        if c is not None:
            return (lift(SStr(c[0])), sep, lift(SStr(c[1])))
        if not en.branch(z3.Contains(z, sz)):
            return (s, "", "")
        h, t = self.split1(en, z, sz)
        return (h, sep, t)

    def str_join(self, en, sep, seq):
        it = self.iterate(en, seq)
        if isinstance(it, list):
            out = []
            for i, x in enumerate(it):
                if i:
                    out.append(sep)
                x = self.force(en, x, ("VStr",), TypeError)
                if not isinstance(x, (str, SStr)):
                    raise Raised(SExc(TypeError, ("join",)))
                out.append(x)
            return self.concat(en, out)
        from pyvc.loops import fold_concat
        # join == e0 + sum(sep + e_i); for sep == "" a plain sum
        if sep == "":
            return fold_concat(en, it, lambda k: it.get(k), z3.IntVal(0))
        if hasattr(it, "head"):
            out = []
            for i, x in enumerate(it.head):
                out += ([sep] if i else []) + [x]
            tail = it.tail
            rest = fold_concat(en, tail, lambda k: self.concat(en, [sep, tail.get(k)]), z3.IntVal(0))
            return self.concat(en, out + [rest])
        raise Unsupported("join of symbolic sequence")

    # --- bytes methods
    def bytes_decode(self, en, b, enc="utf-8", *rest):
        if enc.lower().replace("_", "-") not in ("utf-8", "utf8") or rest:
            raise Unsupported("decode " + enc)
        USED.add("str.encode/bytes.decode utf-8: encode(decode(b)) == b; identity on ASCII literals")
        z = b.z
        d = self.utf8d(z)
        if d is not None:
            return lift(SStr(simp(d)))
        if not en.branch(UTF8OK(z)):
            raise Raised(SExc(UnicodeDecodeError, ("utf-8",)))
        return SStr(UTF8D(z))

    def bytes_strip(self, en, s, chars=None):
        return lift(SBytes(self.strip_core(en, s, (chars or self.WS.encode()).decode("latin-1"), True, True)))

    def bytes_rstrip(self, en, s, chars=None):
        return lift(SBytes(self.strip_core(en, s, (chars or self.WS.encode()).decode("latin-1"), False, True)))

    def bytes_lstrip(self, en, s, chars=None):
        return lift(SBytes(self.strip_core(en, s, (chars or self.WS.encode()).decode("latin-1"), True, False)))

    def bytes_find(self, en, s, sub, start=0):
        return self.str_find(en, s, sub, start)

    def bytes_index(self, en, s, sub, *rest):
        return self.str_indexof(en, s, sub, *rest)

    def bytes_startswith(self, en, s, p):
        return self.str_startswith(en, s, p)

    def bytes_endswith(self, en, s, p):
        return self.str_endswith(en, s, p)

    def line_partition(self, en, z, sep):
        """partition at a one character separator; the piece it is found in is split
        into named parts"""
        from pyvc.core import zstr
        from pyvc.loops import concat_children
        cat = lambda q: strval("") if not q else q[0] if len(q) == 1 else z3.Concat(*q)
        parts = concat_children(simp(en.normal(z)))
        for i, p in enumerate(parts):
            if z3.is_string_value(p):
                a, m, b = zstr(p).partition(sep)
                if m:
                    return cat(parts[:i] + [strval(a)]), sep, cat([strval(b)] + parts[i + 1:])
            elif en.branch(z3.Contains(p, strval(sep))):
                if en.known_length(p) == 1:
                    en.assume(p == strval(sep))
                    return cat(parts[:i]), sep, cat(parts[i + 1:])
                h, t = en.fresh("line", STR), en.fresh("rest", STR)
                en.split(p, h, z3.Concat(strval(sep), t), None)
                en.assume(z3.Not(z3.Contains(h, strval(sep))))
                return cat(parts[:i] + [h]), sep, cat([t] + parts[i + 1:])
        return cat(parts), "", strval("")

    def bytes_partition(self, en, s, sep):
        z, sz = to_z(s), to_z(sep)
        if en.lines and isinstance(sep, bytes) and sep != b"\n":
            z = simp(en.normal(z))
            nm = "PARTITION_" + sep.hex()
            USED.add("bytes.partition as an uninterpreted function (except at line feeds)")
            return tuple(lift(SBytes(F(f"{nm}_{i}", STR, STR)(z))) for i in range(3))
        if en.lines and isinstance(sep, bytes):
            h, m, t = self.line_partition(en, z, sep.decode("latin-1"))
            return (lift(SBytes(simp(h))), m.encode("latin-1"), lift(SBytes(simp(t))))
        c = self.cut(en, z, sz)
        if c is not None:
            return (lift(SBytes(c[0])), sep, lift(SBytes(c[1])))
        if not en.branch(z3.Contains(z, sz)):
            return (s, b"", b"")
        h, t = self.split1(en, z, sz, SBytes)
        return (h, sep, t)

    # --- list methods
    def list_m_append(self, en, l, v):
        if getattr(l, "frozen", False):
            en.oblige("frame: module level list is not modified", False)
        en.mut_list(l)
        if l.concrete:
            l.items.append(v)
        else:
            l.arr = z3.Store(l.arr, simp(l.off + l.n), to_z(v, l.kind))
            l.n = simp(l.n + 1)

    def list_m_extend(self, en, l, seq):
        it = self.iterate(en, seq)
        if not isinstance(it, list):
            raise Unsupported("extend by symbolic sequence")
        for x in it:
            self.list_m_append(en, l, x)

    def list_m_pop(self, en, l, i=-1):
        en.mut_list(l)
        if l.concrete:
            try:
                return l.items.pop(i)
            except IndexError as e:
                raise Raised(SExc(IndexError, e.args)) from e
        if i != -1:
            raise Unsupported("pop(i)")
        if not en.branch(l.n > 0):
            raise Raised(SExc(IndexError, ("pop",)))
        l.n = simp(l.n - 1)
        return self.list_get(en, l, l.n)

    def list_m_copy(self, en, l):
        return PList(*[l.state()[0]], *l.state()[1:])

    def list_m_index(self, en, l, x):
        return en.call_native(en.to_native(l).index, [x], {})

    def list_m_insert(self, en, l, i, x):
        if not l.concrete or not isinstance(i, int):
            raise Unsupported("insert")
        en.mut_list(l)
        l.items.insert(i, x)

    def list_m_clear(self, en, l):
        en.mut_list(l)
        if l.concrete:
            l.items.clear()
        else:
            l.n = z3.IntVal(0)

    # --- dict methods
    def _d(self, d):
        return d.d if isinstance(d, PDict) else d

    def dict_get(self, en, d, k, default=None):
        if isinstance(d, dict) and id(d) in en.tables and isinstance(k, (SStr, str)):
            return self.table_get(en, d, k) if en.truth(self.table_in(en, d, k)) else default
        if isinstance(k, Sym):
            for key in self._d(d):
                r = self.eq(en, k, key)
                if r is not False and en.truth(r):
                    return self._d(d)[key]
            return default
        return self._d(d).get(k, default)

    def dict_keys(self, en, d):
        return PList(list(self._d(d)))

    def dict_values(self, en, d):
        return PList([self.dval(en, x) for x in self._d(d).values()])

    def dict_items(self, en, d):
        return PList([(k, self.dval(en, x)) for k, x in self._d(d).items()])

    def dict_pop(self, en, d, k, *default):
        if not isinstance(d, PDict) or isinstance(k, Sym):
            raise Unsupported("dict.pop")
        if k in d.d:
            en.mut_dict(d)
            return d.d.pop(k)
        if default:
            return default[0]
        raise Raised(SExc(KeyError, (k,)))

    def dict_update(self, en, d, o=None, **kw):
        if not isinstance(d, PDict):
            en.oblige("frame: module level container is not modified", False)
            raise PathEnd()
        en.mut_dict(d)
        if o is not None:
            d.d.update(self._d(o))
        d.d.update(kw)

    def dict_setdefault(self, en, d, k, v=None):
        if not isinstance(d, PDict) or isinstance(k, Sym):
            raise Unsupported("setdefault")
        en.mut_dict(d)
        return d.d.setdefault(k, v)

    def dict_copy(self, en, d):
        return PDict(self._d(d))

    def map_get(self, en, m, k, default=None):
        z = self.strkey(en, k)
        if z is None:
            return default
        v = simp(z3.Select(m.arr, z))
        if en.branch(v == Val.Absent):
            return default
        if getattr(m, "valkind", None) == "def":
            return SDef(simp(Val.vd(v)))
        return lift(SVal(v))

    def map_keys(self, en, m):
        return m

    def map_items(self, en, m):
        if m.nkeys is None:
            raise Unsupported("map items")
        return SIter(m.nkeys, lambda k: (SStr(z3.Select(m.keyat, k)),
                                         SVal(z3.Select(m.arr, z3.Select(m.keyat, k)))), "mapitems")

    def def_m_in(self, d, z):
        return F("DIN", DefSort, STR, BOOL)(d.z, z)

    def def_keys_(self, en, d):
        return self.def_keys(d)

    def def_items(self, en, d):
        key = F("DKEY", DefSort, INT, STR)
        att = F("DATT", DefSort, STR, Val)
        return SIter(F("DNK", DefSort, INT)(d.z), lambda k: (SStr(key(d.z, k)), SVal(att(d.z, key(d.z, k)))), "defitems")

    def def_values(self, en, d):
        key = F("DKEY", DefSort, INT, STR)
        att = F("DATT", DefSort, STR, Val)
        return SIter(F("DNK", DefSort, INT)(d.z), lambda k: SVal(att(d.z, key(d.z, k))), "defvalues")

    def def_get(self, en, d, k, default=None):
        z = self.strkey(en, k)
        if z is None or not en.branch(self.def_m_in(d, z)):
            return default
        return SVal(F("DATT", DefSort, STR, Val)(d.z, z))

    # --- datetime methods
    def time_replace(self, en, t, **kw):
        if set(kw) == {"tzinfo"}:
            if kw["tzinfo"] is None:
                return STime(t.z, False)
            if kw["tzinfo"] is dt.timezone.utc:
                return STime(t.z, True)
        raise Unsupported("datetime.replace")

    def time_astimezone(self, en, t, tz=None):
        if tz is dt.timezone.utc and t.aware:
            return t
        raise Unsupported("astimezone")

    def time_date(self, en, t):
        o = F("DATEOF", INT, ObjSort)(t.z)
        en.assume(fixed.valid(year=fixed.acc("year", o), month=fixed.acc("month", o), day=fixed.acc("day", o)))
        return SOpaque(o, "date")

    def time_time(self, en, t):
        o = F("TIMEOF", INT, ObjSort)(t.z)
        en.assume(fixed.valid(**{n: fixed.acc(n, o) for n in ("hour", "minute", "second", "microsecond")}))
        return SOpaque(o, "time")

    def time_timestamp(self, en, t):
        if not t.aware:
            raise Unsupported("timestamp of naive datetime")
        return SReal(simp(z3.ToReal(t.z) / 1000000))

    def time_utcoffset(self, en, t, *a):
        return dt.timedelta(0) if t.aware else None

    def delta_total_seconds(self, en, d):
        USED.add("timedelta.total_seconds as exact rational")
        return SReal(simp(z3.ToReal(d.z) / 1000000))

    def num_is_integer(self, en, v):
        if isinstance(v, (int, SInt)):
            return True
        return lift(SBool(z3.IsInt(to_z(v, "real"))))

    def num_bit_length(self, en, v):
        raise Unsupported("bit_length")

    # ------------------------------------------------------------ builtins
    def _install(self):
        fn = self.fn

        def reg(f):
            def deco(h):
                fn[f] = h
                return h
            return deco

        setattr(self, "def_keys_m", None)

        @reg(len)
        def _len(en, args, kw):
            v = args[0]
            if isinstance(v, SVal):
                v = self.force(en, v, ("VStr", "VBytes", "VDef"), None)
                if isinstance(v, SVal):
                    if en.branch(Val.is_VGrp(v.z)):
                        return 2
                    raise Raised(SExc(TypeError, ("len",)))
            if isinstance(v, (SStr, SBytes)):
                cs = fixed.cells(en, v.z) if fixed.has_dec(v.z) else None
                if cs is not None:
                    return len(cs)
                return lift(SInt(simp(z3.Length(v.z))))
            if isinstance(v, PList):
                return len(v.items) if v.concrete else lift(SInt(simp(v.n)))
            if isinstance(v, PDict):
                return len(v.d)
            if isinstance(v, SDef):
                return SInt(F("DNK", DefSort, INT)(v.z))
            if isinstance(v, (SIter,)):
                return lift(SInt(simp(v.n)))
            if isinstance(v, SMap) and v.nkeys is not None:
                return SInt(v.nkeys)
            if isinstance(v, SRange):
                return lift(SInt(simp(z3.If(v.hi > v.lo, v.hi - v.lo, 0))))
            if isinstance(v, SObj):
                import inspect as _i
                return en.call(en.getattribute(v, "__len__"), [], {})
            if isinstance(v, (SInt, SReal, SBool, SOpaque)):
                raise Raised(SExc(TypeError, ("len",)))
            try:
                return len(v)
            except TypeError as e:
                raise Raised(SExc(TypeError, e.args)) from e

        @reg(ord)
        def _ord(en, args, kw):
            v = self.force(en, args[0], ("VStr", "VBytes"), TypeError)
            if isinstance(v, (SStr, SBytes)):
                return lift(SInt(simp(z3.StrToCode(v.z))))
            return en.call_native(ord, [v], {})

        @reg(chr)
        def _chr(en, args, kw):
            v = args[0]
            if isinstance(v, SInt):
                return SStr(z3.StrFromCode(v.z))
            return en.call_native(chr, [v], {})

        @reg(abs)
        def _abs(en, args, kw):
            v = self.num(en, args[0])
            if isinstance(v, SBool):
                v = SInt(z3.If(v.z, 1, 0))
            if isinstance(v, (SInt, SReal, SDelta)):
                if en.branch(v.z >= 0):
                    return v
                return lift(type(v)(simp(-v.z)))
            if isinstance(v, (Sym, PList, SObj)) or v is None:
                raise Raised(SExc(TypeError, ("abs",)))
            return en.call_native(abs, [v], {})

        @reg(int)
        def _int(en, args, kw):
            if not args:
                return 0
            v = args[0]
            if isinstance(v, SVal):
                v = self.force(en, v, ("VInt", "VReal", "VStr", "VBool"), TypeError)
            if isinstance(v, SInt):
                return v
            if isinstance(v, SBool):
                return SInt(z3.If(v.z, 1, 0))
            if isinstance(v, SReal):
                if en.branch(v.z >= 0):
                    return lift(SInt(simp(z3.ToInt(v.z))))
                return lift(SInt(simp(-z3.ToInt(-v.z))))
            if isinstance(v, float) and en.real_mode and v == v and abs(v) != float("inf"):
                return int(v)
            if isinstance(v, (SStr, SBytes)):
                base = args[1] if len(args) > 1 else kw.get("base", 10) if isinstance(kw, dict) else 10
                USED.add("int(str) as an uninterpreted partial function")
                if base == 10 and isinstance(v, SStr):
                    iv = self.pystr_arg(v.z)
                    if iv is not None and iv.decl().name() == "VInt":
                        return lift(SInt(simp(iv.arg(0))))
                    if fixed.has_dec(v.z):
                        cs = fixed.cells(en, v.z)
                        nv = fixed.number(cs) if cs else None
                        if nv is not None and nv[1] == 0 and "." not in cs:
                            return lift(SInt(nv[0]))
                nm = f"INT{base}" + ("B" if isinstance(v, SBytes) else "")
                if not en.branch(F(nm + "OK", STR, BOOL)(v.z)):
                    raise Raised(SExc(ValueError, ("int",)))
                return SInt(F(nm, STR, INT)(v.z))
            if isinstance(v, (PList, SOpaque, SObj, SDef)) or v is None:
                raise Raised(SExc(TypeError, ("int",)))
            return en.call_native(int, args, kw)

        @reg(float)
        def _float(en, args, kw):
            if not args:
                return 0.0
            v = args[0]
            if isinstance(v, SVal):
                v = self.force(en, v, ("VInt", "VReal", "VStr", "VBool"), TypeError)
            if isinstance(v, SReal):
                return v
            if isinstance(v, (SInt, SBool)):
                return SReal(z3.ToReal(to_z(v, "int")))
            if isinstance(v, SStr):
                USED.add("float(str) as an uninterpreted partial function to the reals (inf and nan excluded)")
                iv = self.pystr_arg(v.z)
                if iv is not None and iv.decl().name() == "VInt":
                    return SReal(z3.ToReal(iv.arg(0)))
                if iv is not None and iv.decl().name() == "VReal":
                    USED.add("float(str(x)) == x")
                    return SReal(iv.arg(0))
                if fixed.has_dec(v.z):
                    cs = fixed.cells(en, v.z)
                    nv = fixed.number(cs) if cs else None
                    if nv is not None:
                        return SReal(simp(z3.ToReal(nv[0]) / 10 ** nv[1]))
                if not en.branch(F("FLOATOK", STR, BOOL)(v.z)):
                    raise Raised(SExc(ValueError, ("float",)))
                return SReal(F("FLOATOF", STR, REAL)(v.z))
            if isinstance(v, Sym) or v is None:
                raise Raised(SExc(TypeError, ("float",)))
            return en.call_native(float, args, kw)

        @reg(str)
        def _str(en, args, kw):
            if not args:
                return ""
            if len(args) > 1:
                return self.bytes_decode(en, args[0], *args[1:])
            return self.str_(en, args[0])

        @reg(repr)
        def _repr(en, args, kw):
            return self.repr_(en, args[0])

        @reg(bytes)
        def _bytes(en, args, kw):
            if args and isinstance(args[0], SBytes):
                return args[0]
            if args and isinstance(args[0], SStr):
                return self.str_encode(en, *args)
            return en.call_native(bytes, args, kw)

        @reg(bytearray)
        def _bytearray(en, args, kw):
            # bytearrays are modelled as immutable bytes (the code only rebinds them)
            if args and isinstance(args[0], SBytes):
                return args[0]
            r = en.call_native(bytes, args, kw)
            return r

        @reg(bool)
        def _bool(en, args, kw):
            b = self.truthz(en, args[0]) if args else False
            return b if isinstance(b, bool) else SBool(b)

        @reg(round)
        def _round(en, args, kw):
            v = self.num(en, args[0])
            nd = args[1] if len(args) > 1 else (kw.get("ndigits") if isinstance(kw, dict) else None)
            if isinstance(v, (SInt, int)) and not isinstance(v, bool):
                if nd is None or (isinstance(nd, int) and nd >= 0):
                    return v
            if isinstance(v, SReal) or (isinstance(v, float) and en.real_mode):
                USED.add("round(x, n) as round half even of the exact real")
                x = to_z(v, "real")
                if nd is None:
                    return lift(SInt(RHE(x)))
                if isinstance(nd, SInt):
                    return SReal(F("ROUNDN", REAL, INT, REAL)(x, nd.z))
                return SReal(simp(z3.ToReal(RHE(simp(x * pow10(nd)))) / pow10(nd)))
            if isinstance(v, Sym) or v is None:
                raise Raised(SExc(TypeError, ("round",)))
            return en.call_native(round, args, kw)

        @reg(divmod)
        def _divmod(en, args, kw):
            a, b = args
            return (self.binop(en, ast.FloorDiv(), a, b), self.binop(en, ast.Mod(), a, b))

        @reg(pow)
        def _pow(en, args, kw):
            return self.binop(en, ast.Pow(), *args)

        @reg(math.pow)
        def _mpow(en, args, kw):
            return self.binop(en, ast.Pow(), *args)

        @reg(isinstance)
        def _isinstance(en, args, kw):
            return self.isinstance_(en, args[0], args[1])

        @reg(hasattr)
        def _hasattr(en, args, kw):
            obj, name = args
            if isinstance(obj, SObj):
                if isinstance(name, str):
                    import inspect as _i
                    if name in obj.f or _i.getattr_static(obj.cls, name, None) is not None:
                        return True
                if obj.dyn is not None and (isinstance(name, Sym) or not name.startswith("_")):
                    return lift(SBool(simp(z3.Select(obj.dyn, to_z(self.force(en, name, ("VStr",), TypeError))) != Val.Absent)))
                return False
            try:
                en.getattribute(obj, name)
                return True
            except Raised as r:
                if issubclass(r.exc.cls, AttributeError):
                    return False
                raise

        @reg(getattr)
        def _getattr(en, args, kw):
            obj, name = args[0], args[1]
            name = self.force(en, name, ("VStr",), TypeError)
            if isinstance(name, SStr):
                if not isinstance(obj, SObj) or obj.dyn is None:
                    raise Unsupported("getattr with symbolic name")
                v = z3.Select(obj.dyn, name.z)
                if en.branch(v == Val.Absent):
                    if len(args) > 2:
                        return args[2]
                    raise Raised(SExc(AttributeError, (name,)))
                return lift(SVal(simp(v)))
            if not isinstance(name, str):
                raise Raised(SExc(TypeError, ("getattr",)))
            try:
                return en.getattribute(obj, name)
            except Raised as r:
                if len(args) > 2 and issubclass(r.exc.cls, AttributeError):
                    return args[2]
                raise

        @reg(delattr)
        def _delattr(en, args, kw):
            obj, name = args
            name = self.force(en, name, ("VStr",), TypeError)
            if isinstance(name, SVal):
                raise Raised(SExc(TypeError, ("delattr",)))
            en.delattribute(obj, name)
            return None

        @reg(setattr)
        def _setattr(en, args, kw):
            obj, name, v = args
            name = self.force(en, name, ("VStr",), TypeError)
            en.setattribute(obj, name, v)

        @reg(object.__setattr__)
        def _osetattr(en, args, kw):
            en.setattribute(args[0], args[1], args[2], raw=True)

        @reg(range)
        def _range(en, args, kw):
            args = [self.force(en, a, ("VInt", "VBool"), TypeError) for a in args]
            for a in args:
                if not isinstance(a, (int, SInt, SBool)):
                    raise Raised(SExc(TypeError, ("range",)))
            if not any(isinstance(a, Sym) for a in args):
                return range(*args)
            if len(args) == 3:
                if args[2] != 1:
                    raise Unsupported("symbolic range step")
            lo = 0 if len(args) == 1 else args[0]
            hi = args[0] if len(args) == 1 else args[1]
            return SRange(to_z(lo, "int"), to_z(hi, "int"))

        @reg(enumerate)
        def _enumerate(en, args, kw):
            start = args[1] if len(args) > 1 else (kw or {}).get("start", 0)
            it = self.iterate(en, args[0])
            if isinstance(it, list):
                return PList([(i + start, x) for i, x in enumerate(it)])
            return SIter(it.n, lambda k: (wrap(k + to_z(start, "int"), "int"), it.get(k)), "enum")

        @reg(zip)
        def _zip(en, args, kw):
            its = [self.iterate(en, a) for a in args]
            if all(isinstance(i, list) for i in its):
                return PList([tuple(x) for x in zip(*its)])
            if all(not isinstance(i, list) for i in its):
                n = its[0].n
                for i in its[1:]:
                    n = z3.If(i.n < n, i.n, n)
                return SIter(simp(n), lambda k: tuple(i.get(k) for i in its), "zip")
            raise Unsupported("zip of mixed sequences")

        @reg(map)
        def _map(en, args, kw):
            if len(args) != 2:
                raise Unsupported("map")
            it = self.iterate(en, args[1])
            if isinstance(it, list):
                return PList([en.call(args[0], [x], {}) for x in it])
            return SIter(it.n, lambda k: en.call(args[0], [it.get(k)], {}), "map")

        @reg(list)
        def _list(en, args, kw):
            if not args:
                return PList([])
            v = args[0]
            if isinstance(v, PList):
                return self.list_m_copy(en, v)
            it = self.iterate(en, v)
            if isinstance(it, list):
                return PList(it)
            return it

        @reg(tuple)
        def _tuple(en, args, kw):
            if not args:
                return ()
            it = self.iterate(en, args[0])
            if isinstance(it, list):
                return tuple(it)
            return it

        @reg(iter)
        def _iter(en, args, kw):
            raise Unsupported("iter()")

        @reg(dict)
        def _dict(en, args, kw):
            d = {}
            if args:
                if isinstance(args[0], SMap):
                    return args[0]
                if isinstance(args[0], (PDict, dict)):
                    d.update(self._d(args[0]))
                else:
                    for p in self.iterate(en, args[0]):
                        a, b = self.iterate(en, p)
                        d[a] = b
            d.update(self.kwd(en, kw))
            return PDict(d)

        @reg(sorted)
        def _sorted(en, args, kw):
            return en.call_native(sorted, args, kw)

        @reg(any)
        def _any(en, args, kw):
            it = self.iterate(en, args[0])
            if not isinstance(it, list):
                raise Unsupported("any() of symbolic sequence")
            for x in it:
                if en.truth(x):
                    return True
            return False

        @reg(all)
        def _all(en, args, kw):
            it = self.iterate(en, args[0])
            if not isinstance(it, list):
                raise Unsupported("all() of symbolic sequence")
            for x in it:
                if not en.truth(x):
                    return False
            return True

        @reg(sum)
        def _sum(en, args, kw):
            it = self.iterate(en, args[0])
            acc = args[1] if len(args) > 1 else (kw or {}).get("start", 0)
            if isinstance(it, list):
                for x in it:
                    acc = self.binop(en, ast.Add(), acc, x)
                return acc
            from pyvc.loops import reduce_sym
            return reduce_sym(en, lambda a, x: self.binop(en, ast.Add(), a, x), it, acc)

        @reg(functools.reduce)
        def _reduce(en, args, kw):
            it = self.iterate(en, args[1])
            f = lambda a, x: en.call(args[0], [a, x], {})
            if isinstance(it, list):
                if len(args) > 2:
                    acc = args[2]
                elif it:
                    acc, it = it[0], it[1:]
                else:
                    raise Raised(SExc(TypeError, ("reduce of empty",)))
                for x in it:
                    acc = f(acc, x)
                return acc
            if len(args) < 3:
                raise Unsupported("reduce without initial value")
            from pyvc.loops import reduce_sym
            return reduce_sym(en, f, it, args[2])

        for opf, opn in ((operator.xor, ast.BitXor), (operator.add, ast.Add), (operator.mul, ast.Mult),
                         (operator.sub, ast.Sub)):
            fn[opf] = (lambda o: lambda en, args, kw: self.binop(en, o(), *args))(opn)

        def _minmax(name, op):
            def h(en, args, kw):
                kw = self.kwd(en, kw)
                if "key" in kw:
                    raise Unsupported("min/max key")
                if len(args) == 1:
                    it = self.iterate(en, args[0])
                    if not isinstance(it, list):
                        raise Unsupported("min/max of symbolic sequence")
                else:
                    it = list(args)
                if not it:
                    if "default" in kw:
                        return kw["default"]
                    raise Raised(SExc(ValueError, ("empty",)))
                best = it[0]
                for x in it[1:]:
                    if en.truth(self.compare(en, op, x, best)):
                        best = x
                return best
            return h
        fn[max] = _minmax("max", ast.Gt())
        fn[min] = _minmax("min", ast.Lt())

        @reg(type)
        def _type(en, args, kw):
            v = args[0]
            if isinstance(v, SObj):
                return v.cls
            for c, py in ((SStr, str), (SBytes, bytes), (SBool, bool), (SInt, int), (SReal, float),
                          (PList, list), (PDict, dict), (SDef, dict), (SMap, dict), (STime, dt.datetime),
                          (SDelta, dt.timedelta)):
                if isinstance(v, c):
                    return py
            if isinstance(v, SVal):
                v = self.force(en, v, ("VStr", "VInt", "VReal", "VBool", "VNone", "VBytes"), None)
                if isinstance(v, SVal):
                    raise Unsupported("type of dynamic value")
                return _type(en, [v], {})
            if isinstance(v, SExc):
                return v.cls
            return type(v)

        @reg(callable)
        def _callable(en, args, kw):
            v = args[0]
            if isinstance(v, (IFunc, Bound, BoundMethod)):
                return True
            if isinstance(v, Sym):
                raise Unsupported("callable")
            return callable(v)

        @reg(print)
        def _print(en, args, kw):
            return None

        @reg(id)
        def _id(en, args, kw):
            raise Unsupported("id()")

        # ---- math
        def unary(f, z):
            def h(en, args, kw):
                v = self.num(en, args[0])
                if not isinstance(v, (SReal, SInt, SBool)):
                    if en.real_mode and isinstance(v, (int, float)) and not isinstance(v, bool):
                        v = SReal(real_const(v))
                        zz = simp(v.z)
                        if z3.is_rational_value(zz) and zz.numerator_as_long() == 0 and f in (math.sin, math.asin, math.tan, math.atan, math.sqrt):
                            return SReal(real_const(0))
                        if z3.is_rational_value(zz) and zz.numerator_as_long() == 0 and f is math.cos:
                            return SReal(real_const(1))
                    else:
                        return en.call_native(f, args, kw)
                x = to_z(v, "real")
                if f is math.sqrt and not en.branch(x >= 0):
                    raise Raised(SExc(ValueError, ("math domain error",)))
                if f in (math.asin, math.acos) and not en.branch(z3.And(x >= -1, x <= 1)):
                    raise Raised(SExc(ValueError, ("math domain error",)))
                USED.add("math functions as uninterpreted real functions with sin^2+cos^2=1, sqrt, and range axioms")
                return SReal(z(simp(x)))
            return h
        fn[math.sin] = unary(math.sin, SIN)
        fn[math.cos] = unary(math.cos, COS)
        fn[math.tan] = unary(math.tan, TAN)
        fn[math.atan] = unary(math.atan, ATAN)
        fn[math.sqrt] = unary(math.sqrt, SQRT)
        fn[math.asin] = unary(math.asin, ASIN)
        fn[math.acos] = unary(math.acos, ACOS)
        fn[math.fabs] = lambda en, args, kw: _abs(en, args, kw)
        fn[math.radians] = lambda en, args, kw: self.binop(en, ast.Div(), self.binop(en, ast.Mult(), args[0], math.pi), 180)
        fn[math.degrees] = lambda en, args, kw: self.binop(en, ast.Div(), self.binop(en, ast.Mult(), args[0], 180), math.pi)

        @reg(math.atan2)
        def _atan2(en, args, kw):
            a, b = self.num(en, args[0]), self.num(en, args[1])
            return SReal(ATAN2(simp(to_z(a, "real")), simp(to_z(b, "real"))))

        @reg(math.hypot)
        def _hypot(en, args, kw):
            s = None
            for a in args:
                q = self.binop(en, ast.Mult(), a, a)
                s = q if s is None else self.binop(en, ast.Add(), s, q)
            return fn[math.sqrt](en, [s], {})

        @reg(math.floor)
        def _floor(en, args, kw):
            v = self.num(en, args[0])
            if isinstance(v, (int, SInt)):
                return v
            if isinstance(v, SReal):
                return lift(SInt(simp(z3.ToInt(v.z))))
            return en.call_native(math.floor, args, kw)

        @reg(math.ceil)
        def _ceil(en, args, kw):
            v = self.num(en, args[0])
            if isinstance(v, (int, SInt)):
                return v
            if isinstance(v, SReal):
                return lift(SInt(simp(-z3.ToInt(-v.z))))
            return en.call_native(math.ceil, args, kw)

        @reg(math.trunc)
        def _trunc(en, args, kw):
            return _int(en, args, {})

        @reg(math.fmod)
        def _fmod(en, args, kw):
            raise Unsupported("fmod")

        # ---- datetime
        @reg(dt.timedelta)
        def _timedelta(en, args, kw):
            kw = self.kwd(en, kw)
            names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
            vals = dict(zip(names, args))
            vals.update(kw)
            if not any(isinstance(v, (Sym,)) for v in vals.values()):
                return en.call_native(dt.timedelta, args, kw)
            unit = {"days": 86400 * 10**6, "seconds": 10**6, "microseconds": 1, "milliseconds": 1000,
                    "minutes": 60 * 10**6, "hours": 3600 * 10**6, "weeks": 7 * 86400 * 10**6}
            tot = z3.IntVal(0)
            for k, v in vals.items():
                v = self.num(en, v)
                if isinstance(v, (SReal, float)):
                    x = to_z(v, "real") * unit[k]
                    tot = tot + RHE(simp(x))
                else:
                    tot = tot + to_z(v, "int") * unit[k]
            tot = simp(tot)
            lim = 86400 * 10**6 * 10**9
            if not en.branch(z3.And(tot < lim, tot > -lim)):
                raise Raised(SExc(OverflowError, ("timedelta",)))
            return SDelta(tot)

        @reg(dt.datetime.now)
        def _now(en, args, kw):
            tz = args[0] if args else kw.get("tz")
            if tz is not dt.timezone.utc:
                raise Unsupported("datetime.now in local time")
            USED.add("the clock stands still during a call (datetime.now is one constant)")
            z = z3.Const("NOW", INT)
            en.assume(z3.And(z >= 0, z <= 253000000000 * 1000000))
            return STime(z, True)

        @reg(dt.datetime.strptime)
        def _strptime(en, args, kw):
            s, fmt = args
            s = self.force(en, s, ("VStr",), TypeError)
            if not isinstance(s, (str, SStr)):
                raise Raised(SExc(TypeError, ("strptime",)))
            if isinstance(s, str) and isinstance(fmt, str):
                return en.call_native(dt.datetime.strptime, [s, fmt], {})
            USED.add("datetime.strptime as an uninterpreted partial function of (text, format)")
            zs = to_z(s), to_z(fmt)
            if isinstance(fmt, str):
                o = fixed.strptime(en, zs[0], fmt)
                if o is not None:
                    USED.add("strftime/strptime on dates and times with known components")
                    return o
            zs = (fixed.trim_fraction(zs[0], zs[1]), zs[1])
            if not en.branch(F("STRPOK", STR, STR, BOOL)(*zs)):
                raise Raised(SExc(ValueError, ("strptime",)))
            return SOpaque(F("STRP", STR, STR, ObjSort)(*zs), "datetime")

        @reg(logging.getLogger)
        def _getLogger(en, args, kw):
            from pyvc import pymodels
            if en.ghost.get("logger") is not None:
                return en.ghost["logger"]
            o = SObj(pymodels.LoggerStub)
            o.f["count"] = 0
            return o

        @reg(zlib.decompress)
        def _decompress(en, args, kw):
            z, w = to_z(args[0], "bytes"), to_z(kw.get("wbits", zlib.MAX_WBITS) if len(args) < 2 else args[1], "int")
            z = en.normal(z)
            USED.add("zlib.decompress as an uninterpreted partial function")
            if not en.branch(F("ZLIBOK", STR, INT, BOOL)(z, w)):
                raise Raised(SExc(zlib.error, ("error",)))
            return SBytes(F("ZLIB", STR, INT, STR)(z, w))

        @reg(io.BytesIO)
        def _bytesio(en, args, kw):
            from pyvc import pymodels
            return en.instantiate(pymodels.ByteStream, args, kw)

    def pystr_arg(self, z):
        z = simp(z)
        return simp(z.arg(0)) if z3.is_app(z) and z.decl().name() == "PYSTR" else None

    def num_total(self, *a):
        raise Unsupported("")

    def isinstance_(self, en, v, cls):
        if isinstance(cls, tuple):
            zs = []
            for c in cls:
                r = self.isinstance_(en, v, c)
                if r is True:
                    return True
                if r is not False:
                    zs.append(r.z)
            return False if not zs else lift(SBool(simp(z3.Or(*zs))))
        if isinstance(cls, types.UnionType):
            return self.isinstance_(en, v, cls.__args__)
        if isinstance(v, SVal):
            z = v.z
            m = {int: z3.Or(Val.is_VInt(z), Val.is_VBool(z)), bool: Val.is_VBool(z), float: Val.is_VReal(z),
                 str: Val.is_VStr(z), bytes: Val.is_VBytes(z), tuple: Val.is_VGrp(z), dict: Val.is_VDef(z),
                 type(None): Val.is_VNone(z), list: z3.BoolVal(False)}
            if cls in m:
                return lift(SBool(simp(m[cls])))
            if cls in (dt.date, dt.time, dt.datetime):
                return lift(SBool(z3.And(Val.is_VObj(z), F("ISA_" + cls.__name__, ObjSort, BOOL)(Val.vo(z)))))
            import numbers
            if cls is numbers.Number or cls is numbers.Real:
                return lift(SBool(simp(z3.Or(Val.is_VInt(z), Val.is_VReal(z), Val.is_VBool(z)))))
            return lift(SBool(z3.And(Val.is_VObj(z), F("ISA_" + getattr(cls, "__name__", "x"), ObjSort, BOOL)(Val.vo(z)))))
        py = None
        for c, p in ((SStr, str), (SBytes, bytes), (SBool, bool), (SInt, int), (SReal, float), (PList, list),
                     (PDict, dict), (SDef, dict), (SMap, dict), (STime, dt.datetime), (SDelta, dt.timedelta)):
            if isinstance(v, c):
                py = p
        if isinstance(v, SObj):
            py = v.cls
        if isinstance(v, SExc):
            py = v.cls
        if isinstance(v, SOpaque):
            py = {"datetime": dt.datetime, "date": dt.date, "time": dt.time}.get(v.typ)
            if py is None:
                return lift(SBool(F("ISA_" + getattr(cls, "__name__", "x"), ObjSort, BOOL)(v.z)))
        if py is not None:
            try:
                return issubclass(py, cls)
            except TypeError as e:
                raise Raised(SExc(TypeError, e.args)) from e
        if isinstance(v, (Bound, BoundMethod, IFunc)):
            return cls is types.FunctionType
        try:
            return isinstance(v, cls)
        except TypeError as e:
            raise Raised(SExc(TypeError, e.args)) from e


# opaque datetime methods: .date(), .time(), .strftime()
def _opaque_attr(self, en, obj, name):
    return Bound(obj, name)


def _opaque_method(self, en, recv, name, args):
    if name in ("date", "time") and not args:
        USED.add(f"datetime.{name}() as an uninterpreted function")
        o = F("DT_" + name, ObjSort, ObjSort)(recv.z)
        for n, _ in (fixed.DATE_ACC if name == "date" else fixed.TIME_ACC):
            en.assume(fixed.acc(n, o) == fixed.acc(n, recv.z))
        return SOpaque(o, name)
    if name == "strftime":
        if isinstance(args[0], str):
            t = fixed.strftime(en, recv, args[0])
            if t is not None:
                USED.add("strftime/strptime on dates and times with known components")
                return t
        USED.add("strftime as an uninterpreted partial function")
        fz = to_z(args[0])
        if not en.branch(F("STRFOK", ObjSort, STR, BOOL)(recv.z, fz)):
            raise Raised(SExc(en.ghost.get("strftime_exc", ValueError), ("strftime",)))
        return SStr(F("STRF", ObjSort, STR, STR)(recv.z, fz))
    raise Unsupported(f"method {recv.typ}.{name}")


_orig_method = Models.method


def _method(self, en, recv, name, args, kwargs):
    if isinstance(recv, SDef) and name == "keys":
        return self.def_keys(recv)
    if isinstance(recv, SOpaque):
        return _opaque_method(self, en, recv, name, args)
    if isinstance(recv, SVal):
        # dynamic non-string value: an object, or a TypeError/AttributeError
        if en.branch(Val.is_VObj(recv.z)):
            return _opaque_method(self, en, SOpaque(simp(Val.vo(recv.z)), "object"), name, args)
        raise Raised(SExc(AttributeError, (name,)))
    return _orig_method(self, en, recv, name, args, kwargs)


Models.method = _method
