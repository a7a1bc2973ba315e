"""pyvc interpreter: symbolic execution of real Python functions."""

import ast
import builtins
import inspect
import types

import z3

from pyvc.core import (BOOL, INT, KIND_CLS, KIND_SORT, REAL, STATS, STR, DefSort, ObjSort, PathEnd,
                       Poison, Raised, Restart, SBool, SBytes, SDef, SDelta, SExc, SInt, SOpaque,
                       SReal, SStr, STime, SVal, Sym, Unsupported, Val, box, check_sat, kind_of,
                       lift, real_const, simp, to_z, wrap)

MISSING = object()


# ------------------------------------------------------------ heap objects
class Heap:
    """serial numbers of heap objects (reset on path replay, so deterministic)"""
    n = 0


def _serial():
    Heap.n += 1
    return Heap.n


class SObj:
    """instance of an interpreted class"""

    def __init__(self, cls):
        self.serial = _serial()
        self.cls = cls
        self.f = {}
        self.dyn = None      # Array(String, Val) for dynamically named attributes

    def __repr__(self):
        return f"<SObj {self.cls.__name__}>"


class PList:
    """list: concrete items, or symbolic (arr, off, n) with element kind"""

    def __init__(self, items=None, kind=None, arr=None, off=None, n=None):
        self.serial = _serial()
        self.items = items
        self.kind, self.arr, self.off, self.n = kind, arr, off, n

    @property
    def concrete(self):
        return self.items is not None

    def state(self):
        return (list(self.items) if self.items is not None else None,
                self.kind, self.arr, self.off, self.n)

    def restore(self, st):
        items, self.kind, self.arr, self.off, self.n = st
        self.items = list(items) if items is not None else None

    def __repr__(self):
        return f"PList({self.items})" if self.concrete else f"PList<{self.kind}>({self.n})"


class PDict:
    def __init__(self, d=None):
        self.serial = _serial()
        self.d = dict(d or {})

    def __repr__(self):
        return f"PDict({self.d})"


class SMap:
    """symbolic str->Val map (kwargs, user definitions); immutable"""

    def __init__(self, arr, nkeys=None, keyat=None, name="map", overrides=None):
        self.arr, self.nkeys, self.keyat, self.name = arr, nkeys, keyat, name


class SIter:
    """finite symbolic sequence: n (z3 Int) and get(z3 Int)->value"""

    def __init__(self, n, get, tag=""):
        self.n, self.get, self.tag = n, get, tag


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Bound:
    """model method bound to a receiver"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class IFunc:
    """lambda or nested function"""

    def __init__(self, node, frame, defaults, kwdefaults):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults


class BoundMethod:
    def __init__(self, func, recv):
        self.func, self.recv = func, recv


class SuperProxy:
    def __init__(self, obj, after):
        self.obj, self.after = obj, after


class Frame:
    def __init__(self, env, glb, fn=None, parent=None, qual=""):
        self.serial = _serial()
        self.env, self.glb, self.fn, self.parent, self.qual = env, glb, fn, parent, qual
        self.nonlocals = set()


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class SegExplorer:
    """decision-replay exploration state of one segment"""

    def __init__(self):
        self.dec, self.pos, self.pending = [], 0, []


_AST = {}


def module_ast(path):
    if path not in _AST:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                ln = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    ln = min(d.lineno for d in node.decorator_list)
                key = (getattr(node, "name", "<lambda>"), ln)
                idx[key] = None if key in idx else node     # two on one line: not told apart
        _AST[path] = idx
    return _AST[path]


def assigned_names(nodes):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                visit(g.iter)
            return
        elif isinstance(n, ast.withitem) and n.optional_vars:
            tgt(n.optional_vars)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in nodes:
        visit(n)
    return out


class Engine:
    FEAS_MS = 1500
    PROVE_MS = 20000
    MAX_PATHS = 6000

    def __init__(self, models, interpretable, real_mode=True):
        self.models = models                   # Models instance
        self.interpretable = interpretable     # module name -> bool
        self.real_mode = real_mode
        self.contracts = {}                    # qualname -> handler(engine, args, kwargs)
        self.seg = SegExplorer()
        self.pc = []
        self.journal = None
        self.counter = 0
        self.obls = {}                         # label -> dict(...)
        self.functions = {}                    # qualname -> times entered
        self.contracted = set()
        self.carry_extra = {}
        self.fold_registry = []
        self.loop_hints = None                 # callable(loopctx) -> candidates or None
        self.hi_loops = None                   # predicate(qual, node) -> bool
        self.invariants = {}                   # loop key -> surviving candidate labels
        self.memo = {}
        self.loopno = 0
        self.inputs = []                       # (name, value) for counterexamples
        self.tables = {}                       # id(native dict) -> name (opaque tables)
        self.dyn_classes = set()
        self.calldepth = 0
        self.ghost = {}
        self.nofeas = False        # explore without pruning infeasible paths
        self.splits = {}
        self.cutat = {}
        self.lines = False         # partition by splitting into named parts
        self.empties = {}
        self.inv_memo = {}
        self.unfold_memo = {}
        self.comp_memo = {}
        self.comp_grow = set()
        self.frames = []
        self.inv_stack = ()
        self.cut_len = {}
        self.stubs = {}
        self.deadline = None
        self.paths = 0
        self.failures = []
        self.recorders = []
        self.assumed = {}
        self.quiet = False

    # ------------------------------------------------------- names, path
    def fresh(self, prefix, sort):
        self.counter += 1
        return z3.Const(f"{prefix}!{self.counter}", sort)

    def assume(self, z):
        z = simp(z)
        if z3.is_true(z):
            return
        self.assumed[z.get_id()] = z
        self.pc.append(z)

    def split(self, x, h, t, k):
        """x consists of h (k characters) and t, on this path"""
        d = x == z3.Concat(h, t)
        self.splits[d.get_id()] = (x, z3.Concat(h, t), d)
        self.assumed[d.get_id()] = d
        self.pc.append(d)
        if k is None:
            return
        self.has_length(h, k)

    def is_empty(self, x):
        """x is empty, on this path"""
        e = z3.StringVal("")
        d = x == e
        self.splits[d.get_id()] = (x, e, d)
        self.assumed[d.get_id()] = d
        self.pc.append(d)

    def has_length(self, z, k):
        """remember (and assume) that z has k characters, on this path"""
        d = simp(z3.Length(z) == k)
        self.assume(d)
        self.cut_len[d.get_id()] = (z, k, d)

    def known_length(self, z):
        for p in self.pc:
            c = self.cut_len.get(p.get_id())
            if c is not None and c[0].eq(z):
                return c[1]
        return None

    def structure(self):
        """the facts on this path that normal and known_length use"""
        return [p for p in self.pc if p.get_id() in self.splits or p.get_id() in self.cut_len]

    @staticmethod
    def empty_fact(p):
        """(x, literal) if p says that the constant x is the literal"""
        if z3.is_eq(p):
            a, b = p.arg(0), p.arg(1)
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_string_value(a):
                a, b = b, a
            if z3.is_string_value(b) and a.num_args() == 0 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return a, b
            if z3.is_int_value(a) and a.as_long() == 0 and b.decl().kind() == z3.Z3_OP_SEQ_LENGTH and \
                    b.arg(0).num_args() == 0 and b.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return b.arg(0), z3.StringVal("")
        return None

    def normal(self, z):
        """z with the pieces that were split on this path replaced by their parts"""
        sub = []
        for p in self.pc:
            i = p.get_id()
            if i in self.splits:
                sub.append(self.splits[i][:2])
            else:
                if i not in self.empties:
                    self.empties[i] = (self.empty_fact(p), p)
                if self.empties[i][0] is not None:
                    sub.append(self.empties[i][0])
        if not sub:
            return z
        for _ in range(50):
            y = simp(z3.substitute(z, *sub))
            if y.eq(z):
                break
            z = y
        return z

    def feasible(self, extra):
        if self.nofeas:
            return True
        r, _, _ = check_sat(self.pc + extra, self.FEAS_MS)
        return r != "unsat"

    def branch(self, c):
        """fork on a z3 Bool; returns the Python bool taken on this path"""
        if isinstance(c, SBool):
            c = c.z
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported("time budget of this contract exhausted")
        seg = self.seg
        if seg.pos < len(seg.dec):
            d = seg.dec[seg.pos]
        else:
            nc = simp(z3.Not(c))
            # syntactic shortcuts
            known = None
            cid, nid = c.get_id(), nc.get_id()
            for p in self.pc:
                if p.get_id() == cid:
                    known = True
                elif p.get_id() == nid:
                    known = False
            if known is None:
                t = self.feasible([c])
                f = self.feasible([nc])
                if not t and not f:
                    raise PathEnd("infeasible path")
                if t and f:
                    seg.pending.append(seg.dec[:seg.pos] + [False])
                    d = True
                else:
                    d = t
            else:
                d = known
            seg.dec.append(d)
        seg.pos += 1
        self.pc.append(c if d else simp(z3.Not(c)))
        return d

    def explore(self, fn):
        """run fn on every feasible path of a nested segment"""
        outer_seg, outer_pc = self.seg, self.pc
        results = []
        work = [[]]
        n = 0
        cnt0, ser0 = self.counter, Heap.n
        cmax, smax = cnt0, ser0
        try:
            while work:
                n += 1
                self.counter, Heap.n = cnt0, ser0
                self.paths += 1
                if n > self.MAX_PATHS:
                    raise Unsupported("too many paths")
                self.seg = SegExplorer()
                self.seg.dec = work.pop()
                self.pc = list(outer_pc)
                mark = self.mark()
                try:
                    r = fn()
                    results.append((self.pc[len(outer_pc):], r))
                except PathEnd:
                    pass
                finally:
                    self.undo(mark)
                    cmax, smax = max(cmax, self.counter), max(smax, Heap.n)
                work += self.seg.pending
        finally:
            self.seg, self.pc = outer_seg, outer_pc
            self.counter, Heap.n = cmax, smax
        return results

    # --------------------------------------------------------- journal
    def mark(self):
        if self.journal is None:
            self.journal = []
        return len(self.journal)

    def undo(self, mark):
        while len(self.journal) > mark:
            _, _, u = self.journal.pop()
            u()

    def log(self, obj, loc, undo):
        if self.journal is not None:
            self.journal.append((obj, loc, undo))
        for r in self.recorders:
            r.append((obj, loc))

    def set_field(self, obj, name, val):
        old = obj.f.get(name, MISSING)

        def u():
            if old is MISSING:
                obj.f.pop(name, None)
            else:
                obj.f[name] = old
        self.log(obj, name, u)
        obj.f[name] = val

    def del_field(self, obj, name):
        old = obj.f[name]
        self.log(obj, name, lambda: obj.f.__setitem__(name, old))
        del obj.f[name]

    def set_dyn(self, obj, arr):
        old = obj.dyn

        def u():
            obj.dyn = old
        self.log(obj, "<dyn>", u)
        obj.dyn = arr

    def mut_list(self, lst):
        if getattr(lst, "frozen", False):
            self.oblige("frame: a list that outlives the call is not modified", False)
        st = lst.state()
        self.log(lst, "<list>", lambda: lst.restore(st))

    def mut_dict(self, d):
        old = dict(d.d)

        def u():
            d.d = old
        self.log(d, "<dict>", u)

    # ----------------------------------------------------- obligations
    def oblige(self, label, goal):
        if isinstance(goal, SBool):
            goal = goal.z
        if self.quiet:
            return True
        o = self.obls.setdefault(label, {"checked": 0, "proved": 0, "backends": set(), "fail": None})
        o["checked"] += 1
        if isinstance(goal, bool):
            if goal:
                # must still count as discharged: trivially
                o["proved"] += 1
                o["backends"].add("evaluation")
                return True
            goal = z3.BoolVal(False)
        g = simp(goal)
        if z3.is_true(g) or z3.is_true(self.normal(g)):
            o["proved"] += 1
            o["backends"].add("simplifier")
            return True
        r, model, be = check_sat(self.pc + [simp(z3.Not(g))], self.PROVE_MS, use_cvc5=True)
        if r == "unsat":
            o["proved"] += 1
            o["backends"].add(be)
            return True
        info = {"status": "refuted" if r == "sat" else "undecided",
                "goal": str(g)[:2000], "path": [str(p)[:300] for p in self.pc][-30:],
                "model": self.model_inputs(model) if model is not None else None}
        if o["fail"] is None or (o["fail"]["status"] != "refuted" and r == "sat"):
            o["fail"] = info
        self.failures.append((label, info))
        return False

    def model_inputs(self, model):
        out = {}
        for name, v in self.inputs:
            try:
                out[name] = self.concretise(v, model)
            except Exception as e:    # counterexample extraction is best effort
                out[name] = f"<{type(e).__name__}>"
        return out

    def concretise(self, v, model):
        if isinstance(v, PList) and not v.concrete:
            n = model.eval(v.n, model_completion=True).as_long()
            n = max(0, min(n, 40))
            cls = KIND_CLS[v.kind]
            return [self.concretise(cls(z3.Select(v.arr, v.off + i)), model) for i in range(n)]
        if isinstance(v, Sym):
            z = model.eval(v.z, model_completion=True)
            if isinstance(v, SReal):
                if z3.is_rational_value(z):
                    return float(z.as_fraction())
                return float(z.approx(20).as_fraction())
            if isinstance(v, STime):
                return ("time", z.as_long(), v.aware)
            r = lift(type(v)(z))
            if isinstance(r, SBytes):
                from pyvc.core import zstr
                return "".join(chr(ord(c) % 256) for c in zstr(z)).encode("latin-1")
            return r if not isinstance(r, Sym) else repr(r)
        return v

    def proves(self, goal, ms=None, extra=()):
        g = simp(goal)
        if z3.is_true(g) or z3.is_true(self.normal(g)):
            return True
        r, _, _ = check_sat(self.pc + list(extra) + [simp(z3.Not(g))], ms or self.PROVE_MS, use_cvc5=False)
        return r == "unsat"

    # --------------------------------------------------- function calls
    def is_interpretable(self, fn):
        mod = getattr(fn, "__module__", None) or ""
        return isinstance(fn, types.FunctionType) and self.interpretable(mod)

    def call(self, fn, args, kwargs):
        if isinstance(fn, BoundMethod):
            return self.call(fn.func, [fn.recv] + list(args), kwargs)
        if isinstance(fn, IFunc):
            return self.call_ifunc(fn, args, kwargs)
        if isinstance(fn, Bound):
            return self.models.method(self, fn.recv, fn.name, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
        if isinstance(fn, types.FunctionType):
            q = f"{fn.__module__}.{fn.__qualname__}"
            if q in self.contracts:
                self.contracted.add(q)
                return self.contracts[q](self, args, kwargs)
            h = self.models.function(fn)
            if h is not None:
                return h(self, args, kwargs)
            if self.is_interpretable(fn):
                return self.call_interpreted(fn, args, kwargs)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kwargs)
        h = self.models.function(fn)
        if h is not None:
            return h(self, args, kwargs)
        return self.call_native(fn, args, kwargs)

    def call_native(self, fn, args, kwargs):
        try:
            nargs = [self.to_native(a) for a in args]
            nkw = {k: self.to_native(v) for k, v in self.kw_items(kwargs)}
        except Unsupported as e:
            raise Unsupported(f"call of {getattr(fn, '__qualname__', fn)!r} on symbolic values ({e})") from e
        try:
            return self.from_native(fn(*nargs, **nkw))
        except Exception as e:
            raise Raised(SExc(type(e), e.args)) from e

    def kw_items(self, kwargs):
        if kwargs is None:
            return []
        if isinstance(kwargs, SMap):
            raise Unsupported("symbolic keyword arguments passed to a library function")
        return list(kwargs.items())

    def to_native(self, v):
        if isinstance(v, PList):
            if not v.concrete:
                raise Unsupported("symbolic list")
            return [self.to_native(x) for x in v.items]
        if isinstance(v, PDict):
            return {k: self.to_native(x) for k, x in v.d.items()}
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        if isinstance(v, (Sym, SObj, SIter, SMap, SRange, IFunc, Bound, BoundMethod, SExc)):
            raise Unsupported(type(v).__name__)
        return v

    def from_native(self, v):
        if isinstance(v, list):
            return PList([self.from_native(x) for x in v])
        if isinstance(v, tuple) and type(v) is tuple:
            return tuple(self.from_native(x) for x in v)
        return v

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return SExc(cls, args)
        h = self.models.function(cls)
        if h is not None:
            return h(self, args, kwargs)
        if self.interpretable(cls.__module__):
            obj = SObj(cls)
            if cls in self.dyn_classes:
                obj.dyn = z3.K(STR, Val.Absent)
            init = inspect.getattr_static(cls, "__init__", None)
            if isinstance(init, types.FunctionType):
                q = f"{init.__module__}.{init.__qualname__}"
                if q in self.contracts:
                    self.contracted.add(q)
                    r = self.contracts[q](self, [obj] + list(args), kwargs)
                    return r if r is not None else obj
                self.call_interpreted(init, [obj] + list(args), kwargs)
            return obj
        return self.call_native(cls, args, kwargs)

    def func_node(self, fn):
        path = inspect.getsourcefile(fn)
        idx = module_ast(path)
        key = (fn.__code__.co_name, fn.__code__.co_firstlineno)
        if idx.get(key) is None:
            raise Unsupported(f"no source for {fn.__qualname__}")
        return idx[key]

    def call_interpreted(self, fn, args, kwargs):
        q = f"{fn.__module__}.{fn.__qualname__}"
        if q in self.contracts:
            self.contracted.add(q)
            return self.contracts[q](self, args, kwargs)
        return self.call_body(fn, args, kwargs)

    def call_body(self, fn, args, kwargs):
        q = f"{fn.__module__}.{fn.__qualname__}"
        self.functions[q] = self.functions.get(q, 0) + 1
        node = self.func_node(fn)
        defaults = [self.shared(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.shared(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        env = self.bind(node.args, args, kwargs, defaults, kwd, q)
        fr = Frame(env, fn.__globals__, fn, None, q)
        if fn.__closure__:
            clo = {}
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    clo[nm] = cell.cell_contents
                except ValueError:
                    pass
            fr.parent = Frame(clo, fn.__globals__, None, None, "closure")
        return self.run_body(node, fr)

    def call_ifunc(self, f, args, kwargs):
        q = f"{f.frame.qual}.<{getattr(f.node, 'name', 'lambda')}>"
        env = self.bind(f.node.args, args, kwargs, f.defaults, f.kwdefaults, q)
        fr = Frame(env, f.frame.glb, f.frame.fn, f.frame, q)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fr)
        return self.run_body(f.node, fr)

    def run_body(self, node, fr):
        self.calldepth += 1
        if self.calldepth > 60:
            self.calldepth = 0
            self.frames = []
            raise Unsupported("recursion without a contract")
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                self.calldepth -= 1
                raise Unsupported("generator function")
        depth = len(self.frames)
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            self.block(node.body, fr)
            return None
        except _Return as r:
            return r.v
        finally:
            self.calldepth -= 1
            del self.frames[depth:]

    def bind(self, a, args, kwargs, defaults, kwdefaults, q):
        env = {}
        args = list(args)
        smap = None
        if isinstance(kwargs, SMap):
            smap, kw = kwargs, {}
        elif isinstance(kwargs, tuple):      # (dict, SMap): explicit plus symbolic rest
            kw, smap = dict(kwargs[0]), kwargs[1]
        else:
            kw = dict(kwargs or {})
        params = [p.arg for p in a.posonlyargs + a.args]
        named = params[len(a.posonlyargs):]
        if smap is not None:
            for p in named + [x.arg for x in a.kwonlyargs]:
                if self.branch(z3.Select(smap.arr, z3.StringVal(p)) != Val.Absent):
                    if p in kw or p in params[:len(args)]:
                        raise Raised(SExc(TypeError, ("multiple values",)))
                    raise Unsupported(f"symbolic keywords bind parameter {p} of {q}")
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
                if p in kw and p in named:
                    raise Raised(SExc(TypeError, ("multiple values",)))
            elif p in kw and p in named:
                env[p] = kw.pop(p)
            else:
                j = i - (len(params) - len(defaults))
                if j < 0:
                    raise Raised(SExc(TypeError, (f"{q} missing argument {p}",)))
                env[p] = defaults[j]
        rest = args[len(params):]
        if a.vararg:
            env[a.vararg.arg] = tuple(rest)
        elif rest:
            raise Raised(SExc(TypeError, (f"{q} too many arguments",)))
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in kwdefaults:
                env[p.arg] = kwdefaults[p.arg]
            else:
                raise Raised(SExc(TypeError, (f"{q} missing argument {p.arg}",)))
        if a.kwarg:
            if smap is not None:
                if kw:
                    raise Unsupported("mixed symbolic keyword arguments")
                env[a.kwarg.arg] = smap
            else:
                env[a.kwarg.arg] = PDict(kw)
        elif kw or smap is not None:
            raise Raised(SExc(TypeError, (f"{q} unexpected keyword argument",)))
        return env

    # -------------------------------------------------------- attributes
    def getattribute(self, obj, name):
        if isinstance(obj, SObj):
            if name == "__dict__":
                raise Unsupported("__dict__ of a symbolic object")
            if name == "__class__":
                return obj.cls
            ca = inspect.getattr_static(obj.cls, name, MISSING)
            if isinstance(ca, property):
                return self.call(ca.fget, [obj], {})
            if name in obj.f:
                return obj.f[name]
            if ca is not MISSING:
                return self.bind_class_attr(ca, obj)
            if obj.dyn is not None and not name.startswith("_"):
                v = z3.Select(obj.dyn, to_z(name))
                if self.branch(v == Val.Absent):
                    raise Raised(SExc(AttributeError, (name,)))
                return lift(SVal(simp(v)))
            raise Raised(SExc(AttributeError, (name,)))
        if isinstance(obj, SuperProxy):
            mro = obj.obj.cls.__mro__
            for c in mro[mro.index(obj.after) + 1:]:
                if name in c.__dict__:
                    ca = c.__dict__[name]
                    if c is object:
                        return Bound(obj.obj, "object." + name)
                    return self.bind_class_attr(ca, obj.obj)
            raise Raised(SExc(AttributeError, (name,)))
        if isinstance(obj, SExc):
            if name == "args":
                return obj.args
            raise Unsupported("exception attribute")
        if isinstance(obj, (Sym, PList, PDict, SMap, SIter, SRange)):
            return self.models.attribute(self, obj, name)
        if isinstance(obj, (str, bytes, tuple, int, float, dict, list)) and not isinstance(obj, type):
            if not hasattr(obj, name):
                raise Raised(SExc(AttributeError, (name,)))
            return Bound(obj, name)
        if isinstance(obj, type) and self.interpretable(obj.__module__):
            ca = inspect.getattr_static(obj, name, MISSING)
            if isinstance(ca, staticmethod):
                return ca.__func__
            if isinstance(ca, classmethod):
                return BoundMethod(ca.__func__, obj)
        if obj is None:
            if not hasattr(None, name):
                raise Raised(SExc(AttributeError, (name,)))
        return self.models.native_attr(self, obj, name)

    def bind_class_attr(self, ca, obj):
        if isinstance(ca, staticmethod):
            return ca.__func__
        if isinstance(ca, classmethod):
            return BoundMethod(ca.__func__, obj.cls)
        if isinstance(ca, types.FunctionType):
            return BoundMethod(ca, obj)
        if isinstance(ca, property):
            return self.call(ca.fget, [obj], {})
        if callable(ca) and not isinstance(ca, type):
            return Bound(obj, "object." + getattr(ca, "__name__", "?"))
        return self.shared(ca)

    def shared(self, v):
        """a value that outlives the call: mutable containers must not change"""
        return self.models.global_value(self, v) if isinstance(v, list) else self.from_native(v)

    def setattribute(self, obj, name, val, raw=False):
        """name: str or SStr"""
        if isinstance(obj, SVal):
            raise Unsupported("attribute assignment on a dynamic value")
        if not isinstance(obj, SObj):
            raise Unsupported(f"attribute assignment on {type(obj).__name__}")
        if not raw:
            sa = inspect.getattr_static(obj.cls, "__setattr__")
            if isinstance(sa, types.FunctionType):
                self.call(sa, [obj, name, val], {})
                return
        if isinstance(name, SStr):
            if obj.dyn is None:
                raise Unsupported("symbolic attribute name")
            self.set_dyn(obj, z3.Store(obj.dyn, name.z, box(val)))
            return
        ca = inspect.getattr_static(obj.cls, name, MISSING)
        if isinstance(ca, property):
            if ca.fset is None:
                raise Raised(SExc(AttributeError, (name,)))
            self.call(ca.fset, [obj, val], {})
            return
        if obj.dyn is not None and not name.startswith("_"):
            self.set_dyn(obj, z3.Store(obj.dyn, to_z(name), box(val)))
            return
        self.set_field(obj, name, val)

    def delattribute(self, obj, name, raw=False):
        if not isinstance(obj, SObj):
            raise Unsupported("del attribute")
        if not raw:
            sa = inspect.getattr_static(obj.cls, "__delattr__")
            if isinstance(sa, types.FunctionType):
                self.call(sa, [obj, name], {})
                return
        if isinstance(name, SStr) or (obj.dyn is not None and not name.startswith("_")):
            z = to_z(name)
            if self.branch(z3.Select(obj.dyn, z) == Val.Absent):
                raise Raised(SExc(AttributeError, (name,)))
            self.set_dyn(obj, z3.Store(obj.dyn, z, Val.Absent))
            return
        if name not in obj.f:
            raise Raised(SExc(AttributeError, (name,)))
        self.del_field(obj, name)

    # --------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} in {fr.qual}")
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            self.store_name(fr, a.asname or a.name.split(".")[0],
                            mod if a.asname else importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        import importlib
        mod = importlib.import_module(s.module)
        for a in s.names:
            self.store_name(fr, a.asname or a.name, getattr(mod, a.name))

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(fr, t.id)
            v = self.ev(s.value, fr)
            self.store_name(fr, t.id, self.augop(s.op, cur, v))
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            cur = self.getattribute(obj, t.attr)
            v = self.ev(s.value, fr)
            self.setattribute(obj, t.attr, self.augop(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.models.getitem(self, obj, k)
            v = self.ev(s.value, fr)
            self.models.setitem(self, obj, k, self.augop(s.op, cur, v))
        else:
            raise Unsupported("augmented assignment target")

    def augop(self, op, cur, v):
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            self.models.method(self, cur, "extend", [v], {})
            return cur
        return self.models.binop(self, op, cur, v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                self.delattribute(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Name):
                self.env_store(fr, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported("del target")

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise Raised(SExc(AssertionError))

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_FunctionDef(self, s, fr):
        d = [self.ev(x, fr) for x in s.args.defaults]
        kd = {a.arg: self.ev(x, fr) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        self.store_name(fr, s.name, IFunc(s, fr, d, kd))

    def s_With(self, s, fr):
        from contextlib import suppress
        if len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call):
            c = s.items[0].context_expr
            f = self.ev(c.func, fr)
            if f is suppress:
                classes = tuple(self.ev(a, fr) for a in c.args)
                try:
                    self.block(s.body, fr)
                except Raised as r:
                    if not issubclass(r.exc.cls, classes):
                        raise
                return
        raise Unsupported("with statement")

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, "handling", None)
            f = fr
            while cur is None and f is not None:
                cur = getattr(f, "handling", None)
                f = f.parent
            if cur is None:
                raise Unsupported("bare raise")
            raise Raised(cur)
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = SExc(e)
        if isinstance(e, BaseException):
            e = SExc(type(e), e.args)
        if not isinstance(e, SExc):
            raise Unsupported("raise of non exception")
        raise Raised(e)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Raised as r:
                for h in s.handlers:
                    if self.handler_matches(h, r.exc, fr):
                        if h.name:
                            self.store_name(fr, h.name, r.exc)
                        old = getattr(fr, "handling", None)
                        fr.handling = r.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling = old
                            if h.name:
                                self.env_store(fr, h.name, MISSING)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PathEnd, Restart, Unsupported):
            raise
        except (Raised, _Return, _Break, _Continue):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        if s.finalbody:
            self.block(s.finalbody, fr)

    def handler_matches(self, h, exc, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        ts = tuple(t) if isinstance(t, tuple) else (t,)
        return issubclass(exc.cls, ts)

    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)
        for case in s.cases:
            b = {}
            if self.match_pat(case.pattern, subj, fr, b):
                for k, v in b.items():
                    self.store_name(fr, k, v)
                if case.guard is None or self.truth(self.ev(case.guard, fr)):
                    self.block(case.body, fr)
                    return

    def match_pat(self, p, v, fr, b):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.models.compare(self, ast.Eq(), v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.models.compare(self, ast.Is(), v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr, b) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        raise Unsupported("match pattern")

    # -------------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = self.models.iterate(self, it)
        if isinstance(seq, list):
            try:
                for v in seq:
                    self.assign(s.target, v, fr)
                    try:
                        self.block(s.body, fr)
                    except _Continue:
                        pass
            except _Break:
                return
            self.block(s.orelse, fr)
            return
        from pyvc.loops import run_for
        run_for(self, s, seq, fr)

    def s_While(self, s, fr):
        from pyvc.loops import run_while
        run_while(self, s, fr)

    # -------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattribute(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, SVal):
            v = self.models.force(self, v, ("VGrp",), TypeError)
        if isinstance(v, PList) and not v.concrete:
            need = len(elts) - len(star)
            if star:
                if not self.branch(v.n >= need):
                    raise Raised(SExc(ValueError, ("unpack",)))
                i = star[0]
                after = len(elts) - i - 1
                for j in range(i):
                    self.assign(elts[j], self.models.list_get(self, v, z3.IntVal(j)), fr)
                mid = PList(None, v.kind, v.arr, simp(v.off + i), simp(v.n - need))
                self.assign(elts[i].value, mid, fr)
                for j in range(after):
                    self.assign(elts[i + 1 + j], self.models.list_get(self, v, simp(v.n - after + j)), fr)
            else:
                if not self.branch(v.n == need):
                    raise Raised(SExc(ValueError, ("unpack",)))
                for j, e in enumerate(elts):
                    self.assign(e, self.models.list_get(self, v, z3.IntVal(j)), fr)
            return
        vals = self.models.iterate(self, v)
        if not isinstance(vals, list):
            raise Unsupported("unpack of symbolic sequence")
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                raise Raised(SExc(ValueError, ("unpack",)))
            for j in range(i):
                self.assign(elts[j], vals[j], fr)
            self.assign(elts[i].value, PList(vals[i:len(vals) - after]), fr)
            for j in range(after):
                self.assign(elts[i + 1 + j], vals[len(vals) - after + j], fr)
            return
        if len(vals) != len(elts):
            raise Raised(SExc(ValueError, ("unpack",)))
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    def store_name(self, fr, name, v):
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.env:
                    self.env_store(p, name, v)
                    return
                p = p.parent
        self.env_store(fr, name, v)

    def env_store(self, fr, name, v):
        old = fr.env.get(name, MISSING)

        def u():
            if old is MISSING:
                fr.env.pop(name, None)
            else:
                fr.env[name] = old
        self.log(fr, name, u)
        if v is MISSING:
            fr.env.pop(name, None)
        else:
            fr.env[name] = v

    def load_name(self, fr, name):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, Poison):
                    self.need_carry(v)
                return v
            f = f.parent
        if name in fr.glb:
            return self.models.global_value(self, fr.glb[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise Raised(SExc(NameError, (name,)))

    def need_carry(self, p):
        s = self.carry_extra.setdefault(p.loop, set())
        if p.name in s:
            raise Unsupported(f"variable {p.name} of a loop is read but has no value")
        s.add(p.name)
        raise Restart()

    # ------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} in {fr.qual}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.ev_list(e.elts, fr))

    def e_List(self, e, fr):
        if len(e.elts) >= 1 and any(isinstance(x, ast.Starred) for x in e.elts):
            return self.models.build_list(self, [(isinstance(x, ast.Starred),
                                                  self.ev(x.value if isinstance(x, ast.Starred) else x, fr))
                                                 for x in e.elts])
        return PList(self.ev_list(e.elts, fr))

    def e_Set(self, e, fr):
        return tuple(self.ev_list(e.elts, fr))

    def ev_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = self.models.iterate(self, self.ev(x.value, fr))
                if not isinstance(seq, list):
                    raise Unsupported("star of symbolic sequence")
                out += seq
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, fr)
                if isinstance(m, PDict):
                    d.update(m.d)
                elif isinstance(m, dict):
                    d.update(m)
                elif isinstance(m, SMap) and len(e.keys) == 1:
                    return m
                else:
                    raise Unsupported("dict star")
            else:
                kk = self.ev(k, fr)
                if isinstance(kk, Sym):
                    raise Unsupported("symbolic dict key")
                d[kk] = self.ev(v, fr)
        return PDict(d)

    def e_Lambda(self, e, fr):
        d = [self.ev(x, fr) for x in e.args.defaults]
        return IFunc(e, fr, d, {})

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            # merge pure boolean operands without forking when the rest is simple
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            b = self.models.truthz(self, v)
            return (not b) if isinstance(b, bool) else lift(SBool(simp(z3.Not(b))))
        return self.models.unop(self, e.op, v)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.models.binop(self, e.op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            res = self.models.compare(self, op, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return False
            left = right
        return res

    def e_Attribute(self, e, fr):
        return self.getattribute(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        obj = self.ev(e.value, fr)
        return self.models.getitem(self, obj, self.ev_index(e.slice, fr))

    def ev_index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return slice(self.ev(sl.lower, fr) if sl.lower else None,
                         self.ev(sl.upper, fr) if sl.upper else None,
                         self.ev(sl.step, fr) if sl.step else None)
        return self.ev(sl, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, fr)
                spec = ""
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, fr)
                    if isinstance(spec, Sym):
                        raise Unsupported("symbolic format spec")
                if p.conversion == 114:
                    v = self.models.repr_(self, v)
                parts.append(self.models.format(self, v, spec))
        return self.models.concat(self, parts)

    def e_FormattedValue(self, e, fr):
        return self.models.format(self, self.ev(e.value, fr), "")

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def comp(self, e, fr, elt):
        """list of values, or a loop over a symbolic sequence"""
        out = []

        def gen(i, f):
            if i == len(e.generators):
                out.append(elt(f))
                return
            g = e.generators[i]
            seq = self.models.iterate(self, self.ev(g.iter, f))
            if not isinstance(seq, list):
                raise _SymComp(seq)
            for v in seq:
                self.assign(g.target, v, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    gen(i + 1, f)

        f = Frame({}, fr.glb, fr.fn, fr, fr.qual)
        gen(0, f)
        return out

    def e_ListComp(self, e, fr):
        try:
            return PList(self.comp(e, fr, lambda f: self.ev(e.elt, f)))
        except _SymComp:
            return self.sym_comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        try:
            return PList(self.comp(e, fr, lambda f: self.ev(e.elt, f)))
        except _SymComp:
            return self.sym_comp(e, fr)

    def sym_comp(self, e, fr):
        """comprehension over one symbolic sequence without filter: lazy SIter"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("comprehension over symbolic sequence with filter")
        g = e.generators[0]
        seq = self.models.iterate(self, self.ev(g.iter, fr))

        def get(k):
            f = Frame({}, fr.glb, fr.fn, fr, fr.qual)
            self.assign(g.target, seq.get(k), f)
            return self.ev(e.elt, f)
        return SIter(seq.n, get, "comp")

    def e_SetComp(self, e, fr):
        return tuple(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_DictComp(self, e, fr):
        items = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        return PDict(dict(items))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(fr)
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                seq = self.models.iterate(self, v)
                if not isinstance(seq, list):
                    raise Unsupported("star call of symbolic sequence")
                args += seq
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        smap = None
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, PDict):
                    kwargs.update(v.d)
                elif isinstance(v, dict):
                    kwargs.update(v)
                elif isinstance(v, SMap):
                    smap = v
                else:
                    raise Unsupported("** of symbolic mapping")
            else:
                kwargs[k.arg] = v
        if smap is not None:
            kwargs = (kwargs, smap) if kwargs else smap
        return self.call(fn, args, kwargs)

    def make_super(self, fr):
        f = fr
        while f.fn is None and f.parent is not None:
            f = f.parent
        node_args = self.func_node(f.fn).args
        self_name = (node_args.posonlyargs + node_args.args)[0].arg
        obj = fr.env.get(self_name, f.env.get(self_name))
        if not isinstance(obj, SObj):
            raise Unsupported("super() without instance")
        for c in obj.cls.__mro__:
            for v in c.__dict__.values():
                w = getattr(v, "__func__", v)
                if isinstance(v, property):
                    w = v.fget
                if w is f.fn:
                    return SuperProxy(obj, c)
        raise Unsupported("super() class not found")

    # ------------------------------------------------------------- truth
    def truth(self, v):
        b = self.models.truthz(self, v)
        return b if isinstance(b, bool) else self.branch(b)


class _SymComp(Exception):
    def __init__(self, seq):
        self.seq = seq
