"""pyvc core: z3 sorts, symbolic values, path context, solver front end.

pyvc is a small deductive verifier for a subset of Python.  It executes the
AST of the real functions of /repo (obtained afresh on every run with
inspect.getsource from the modules imported out of /repo/src) symbolically,
path by path, and discharges the contract obligations it meets with z3 (cvc5 as
second back end).  See DESIGN.md.
"""

import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

z3.set_param("model.completion", False)

# --------------------------------------------------------------- sorts
DefSort = z3.DeclareSort("Def")     # payload definition dictionaries
ObjSort = z3.DeclareSort("Obj")     # opaque immutable objects (dates, messages..)

_V = z3.Datatype("Val")
_V.declare("Absent")
_V.declare("VNone")
_V.declare("VBool", ("vb", z3.BoolSort()))
_V.declare("VInt", ("vi", z3.IntSort()))
_V.declare("VReal", ("vr", z3.RealSort()))
_V.declare("VStr", ("vs", z3.StringSort()))
_V.declare("VBytes", ("vy", z3.StringSort()))
_V.declare("VGrp", ("vg_num", _V), ("vg_def", DefSort))
_V.declare("VDef", ("vd", DefSort))
_V.declare("VObj", ("vo", ObjSort))
Val = _V.create()

INT, BOOL, REAL, STR = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()


class Unsupported(Exception):
    """The program leaves the subset the verifier understands."""


class PathEnd(Exception):
    """This path is finished (infeasible, or cut at a loop invariant)."""


class Restart(Exception):
    """The exploration must be restarted (more loop variables are carried)."""


class Raised(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        super().__init__(getattr(exc, "cls", exc))
        self.exc = exc


class SExc:
    """Exception instance of the interpreted program."""

    def __init__(self, cls, args=(), cause=None):
        self.cls, self.args, self.cause = cls, tuple(args), cause

    def __repr__(self):
        return f"SExc({self.cls.__name__})"


# --------------------------------------------------------------- values
class Sym:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return f"{type(self).__name__}({self.z})"

    def __bool__(self):
        raise Unsupported("engine bug: native truth test of symbolic value")

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SReal(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ()


class SBytes(Sym):
    __slots__ = ()


class SVal(Sym):
    """dynamically typed value (datatype Val)"""
    __slots__ = ()


class SDef(Sym):
    """symbolic payload definition dictionary"""
    __slots__ = ()


class SOpaque(Sym):
    """opaque object with a known Python type name"""
    __slots__ = ("typ",)

    def __init__(self, z, typ="object"):
        self.z = z
        self.typ = typ


class STime(Sym):
    """datetime: microseconds since 1970-01-01T00:00:00 (UTC if aware)"""
    __slots__ = ("aware",)

    def __init__(self, z, aware):
        self.z, self.aware = z, aware


class SDelta(Sym):
    """timedelta: microseconds"""
    __slots__ = ()


class Poison:
    def __init__(self, loop, name):
        self.loop, self.name = loop, name


KIND_SORT = {"int": INT, "bool": BOOL, "real": REAL, "str": STR, "bytes": STR,
             "val": Val, "def": DefSort, "time": INT, "delta": INT}
KIND_CLS = {"int": SInt, "bool": SBool, "real": SReal, "str": SStr,
            "bytes": SBytes, "val": SVal, "def": SDef, "delta": SDelta}


def real_const(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant")
        x = Fraction(x)
    x = Fraction(x)
    return z3.RatVal(x.numerator, x.denominator)


def kind_of(v):
    """kind name of a value, or None"""
    if isinstance(v, (SBool, bool)):
        return "bool"
    if isinstance(v, (SInt, int)):
        return "int"
    if isinstance(v, (SReal, float)):
        return "real"
    if isinstance(v, (SStr, str)):
        return "str"
    if isinstance(v, (SBytes, bytes)):
        return "bytes"
    if isinstance(v, SDef):
        return "def"
    if isinstance(v, (SVal, SOpaque)) or v is None:
        return "val"
    if isinstance(v, STime):
        return "time"
    if isinstance(v, SDelta):
        return "delta"
    return None


def strval(s):
    # z3 string literal with every non printable escaped
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


def bytesval(b):
    return strval(b.decode("latin-1"))


def to_z(v, kind=None):
    """z3 term of value v in the given kind's sort"""
    if kind == "val":
        return box(v)
    if isinstance(v, Sym):
        if kind == "real" and isinstance(v, SInt):
            return z3.ToReal(v.z)
        if kind == "int" and isinstance(v, SBool):
            return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
        return v.z
    if kind == "real":
        return real_const(v)
    if isinstance(v, bool):
        return z3.IntVal(int(v)) if kind == "int" else z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return real_const(v)
    if isinstance(v, str):
        return strval(v)
    if isinstance(v, bytes):
        return bytesval(v)
    raise Unsupported(f"no z3 term for {type(v).__name__}")


OBJ_TABLE = {}


def obj_const(v):
    """z3 constant standing for a concrete hashable native object"""
    key = (type(v), repr(v))
    if key not in OBJ_TABLE:
        OBJ_TABLE[key] = z3.Const(f"obj!{len(OBJ_TABLE)}!{type(v).__name__}", ObjSort)
    return OBJ_TABLE[key]


def box(v):
    if isinstance(v, SVal):
        return v.z
    if v is None:
        return Val.VNone
    if isinstance(v, (bool, SBool)):
        return Val.VBool(to_z(v))
    if isinstance(v, (int, SInt)):
        return Val.VInt(to_z(v))
    if isinstance(v, (float, SReal)):
        return Val.VReal(to_z(v))
    if isinstance(v, (str, SStr)):
        return Val.VStr(to_z(v))
    if isinstance(v, (bytes, SBytes)):
        return Val.VBytes(to_z(v))
    if isinstance(v, SDef):
        return Val.VDef(v.z)
    if isinstance(v, SOpaque):
        return Val.VObj(v.z)
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], SDef):
        return Val.VGrp(box(v[0]), v[1].z)
    if isinstance(v, STime):
        return Val.VObj(z3.Function("TIME2OBJ", INT, BOOL, ObjSort)(v.z, z3.BoolVal(v.aware)))
    import datetime as _dt
    if isinstance(v, (_dt.date, _dt.time, _dt.datetime, _dt.timedelta)):
        return Val.VObj(obj_const(v))
    raise Unsupported(f"cannot box {type(v).__name__}")


def wrap(z, kind):
    if kind == "time":
        return STime(z, True)
    z = z3.simplify(z)
    return lift(KIND_CLS[kind](z))


def lift(v):
    """turn literal symbolic values into concrete Python values"""
    z = v.z
    if isinstance(v, SInt) and z3.is_int_value(z):
        return z.as_long()
    if isinstance(v, SBool):
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
    if isinstance(v, SStr) and z3.is_string_value(z):
        return zstr(z)
    if isinstance(v, SBytes) and z3.is_string_value(z):
        s = zstr(z)
        if all(ord(c) < 256 for c in s):
            return s.encode("latin-1")
    if isinstance(v, SVal) and z3.is_app(z):
        n = z.decl().name()
        if n == "VNone":
            return None
        if n == "VInt":
            return lift(SInt(z.arg(0)))
        if n == "VBool":
            return lift(SBool(z.arg(0)))
        if n == "VReal":
            return SReal(z.arg(0))
        if n == "VStr":
            return lift(SStr(z.arg(0)))
        if n == "VBytes":
            return lift(SBytes(z.arg(0)))
        if n == "VDef":
            return SDef(z.arg(0))
        if n == "VObj":
            return SOpaque(z.arg(0))
        if n == "VGrp":
            return (lift(SVal(z.arg(0))), SDef(z.arg(1)))
    return v


def zstr(z):
    """Python str of a z3 string literal"""
    s = z.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def simp(z):
    return z3.simplify(z)


# --------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.by_backend = {}


STATS = Stats()
CVC5 = os.environ.get("PYVC_CVC5", "cvc5")


def _collect(t, seen, apps):
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            apps.append(x)
            stack.extend(x.children())


AXIOM_GENS = {}   # function name -> generator(app) -> list of z3 bools


def axioms_for(terms):
    """instances of the trusted axioms for all applications in terms (closed)"""
    out, done = [], set()
    todo = list(terms)
    for _ in range(4):
        new = []
        for t in todo:
            for a in _gen_apps(t):
                if a.get_id() not in done:
                    done.add(a.get_id())
                    new += _axioms_of(a)
        out += new
        todo = new
        if not new:
            break
    return out


_APPS, _AXIOMS = {}, {}


def _gen_apps(t):
    """applications in t that have axioms (cached; the cache keeps t alive)"""
    i = t.get_id()
    if i not in _APPS:
        apps = []
        _collect(t, set(), apps)
        _APPS[i] = (t, [a for a in apps if a.decl().name() in AXIOM_GENS])
    return _APPS[i][1]


def _axioms_of(a):
    i = a.get_id()
    if i not in _AXIOMS:
        _AXIOMS[i] = (a, AXIOM_GENS[a.decl().name()](a))
    return _AXIOMS[i][1]


def check_sat(assertions, timeout_ms, use_cvc5=False, want_model=False):
    """returns ('sat'|'unsat'|'unknown', model, backend)"""
    t0 = time.time()
    STATS.queries += 1
    asserts = list(assertions) + axioms_for(assertions)
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.set("random_seed", 1)
    s.add(asserts)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    backend = "z3"
    model = None
    if r == z3.sat:
        try:
            model = s.model()
        except z3.Z3Exception:
            model = None
    if r == z3.unknown and use_cvc5:
        rr = _cvc5(s, timeout_ms)
        if rr == "unsat":
            r, backend = z3.unsat, "cvc5"
    STATS.solver_s += time.time() - t0
    return str(r), model, backend


def _cvc5(s, timeout_ms):
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "") + "(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run([CVC5, "--strings-exp", f"--tlimit={int(timeout_ms)}", name],
                           capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except (OSError, subprocess.SubprocessError):
        return "unknown"
    finally:
        os.unlink(name)
