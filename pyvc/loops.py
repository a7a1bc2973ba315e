"""pyvc loops.

Two treatments, both unbounded:

* canonical folds (default).  The loop's state (carried locals and heap
  locations, found by trial execution) is havocked, the body explored and merged
  into one transition term T(state) = (status, state').  The loop's result is
  W(state0) for a function symbol W that stands for the iterated T.  Two loops
  share one W only if their T are proved equal for every state (this is the
  induction step), so "code == specification" becomes congruence.

* invariants (hinted loops).  Candidate invariants supplied by the contract are
  weakened to the largest inductive subset (Houdini); the loop is then replaced
  by: havoc, assume invariants, one arbitrary iteration / exit.

Termination is not proved (partial correctness).
"""

import ast
import itertools

import z3

from pyvc.core import (BOOL, INT, KIND_CLS, KIND_SORT, STR, ObjSort, PathEnd, Poison, Raised, Restart,
                       SExc, SInt, SStr, STime, SVal, Sym, Unsupported, Val, check_sat, kind_of, lift,
                       simp, strval, to_z, wrap)
from pyvc.interp import (MISSING, Frame, Heap, PDict, PList, SIter, SMap, SObj, _Break, _Continue, _Return,
                         assigned_names)

EXC_CODES = {}


def exc_code(cls):
    return 4 + EXC_CODES.setdefault(cls, len(EXC_CODES))


def exc_of(code):
    for c, i in EXC_CODES.items():
        if i == code - 4:
            return c
    raise Unsupported("exception code")


DYN = z3.ArraySort(STR, Val)


def list_kind(items):
    ks = {kind_of(x) for x in items}
    ks.discard(None)
    if len(ks) == 1:
        return ks.pop()
    return "val"


def list_arr(items, kind):
    sort = KIND_SORT[kind]
    dflt = {"int": z3.IntVal(0), "bool": z3.BoolVal(False), "real": z3.RealVal(0), "str": z3.StringVal(""),
            "bytes": z3.StringVal(""), "val": Val.Absent, "time": z3.IntVal(0), "delta": z3.IntVal(0)}.get(kind)
    if dflt is None:
        dflt = z3.Const("dflt_" + kind, sort)
    a = z3.K(INT, dflt)
    for i, x in enumerate(items):
        a = z3.Store(a, i, to_z(x, kind))
    return a


# ------------------------------------------------------------------ comps
class Comp:
    """one location of the loop state"""

    def __init__(self, cid, kind):
        self.cid, self.kind = cid, kind
        self.aware = True

    def sorts(self):
        if self.kind == "dyn":
            return [DYN]
        if isinstance(self.kind, tuple):
            return [z3.ArraySort(INT, KIND_SORT[self.kind[1]]), INT]
        return [KIND_SORT[self.kind]]

    def read(self, loc):
        """list of z3 terms for the current contents"""
        v = loc.get(self.cid)
        if v is MISSING or isinstance(v, Poison):
            raise Unsupported(f"loop state {self.cid[1:]} has no value")
        return self.terms(v)

    def terms(self, v):
        if self.kind == "dyn":
            return [v]
        if isinstance(self.kind, tuple):
            if v.concrete:
                return [list_arr(v.items, self.kind[1]), z3.IntVal(len(v.items))]
            if v.kind != self.kind[1]:
                raise Unsupported("list of mixed kinds")
            if not (z3.is_int_value(simp(v.off)) and simp(v.off).as_long() == 0):
                raise Unsupported("loop carried list slice")
            return [v.arr, v.n]
        if isinstance(v, PList) or (isinstance(v, (SObj, PDict))):
            raise Unsupported(f"loop state {self.cid[1:]} holds an object")
        return [to_z(v, self.kind)]

    def value(self, zs):
        if self.kind == "dyn":
            return zs[0]
        if isinstance(self.kind, tuple):
            return ("list", self.kind[1], zs[0], zs[1])
        if self.kind == "time":
            return STime(zs[0], self.aware)
        return wrap(zs[0], self.kind)


class Loc:
    """resolves component ids to storage"""

    def __init__(self, en, fr, objs):
        self.en, self.fr, self.objs = en, fr, objs

    def get(self, cid):
        if cid[0] == "v":
            return self.fr.env.get(cid[1], MISSING)
        o = self.objs[cid[1]]
        if cid[0] == "f":
            return o.f.get(cid[2], MISSING)
        if cid[0] == "d":
            return o.dyn
        if cid[0] == "i":
            return o.items[cid[2]] if o.concrete and len(o.items) > cid[2] else MISSING
        return o

    def set(self, cid, v):
        en = self.en
        if cid[0] == "v":
            en.env_store(self.fr, cid[1], v)
            return
        o = self.objs[cid[1]]
        if cid[0] == "f":
            en.set_field(o, cid[2], v)
        elif cid[0] == "d":
            en.set_dyn(o, v)
        elif cid[0] == "i":
            en.mut_list(o)
            o.items[cid[2]] = v
        else:
            en.mut_list(o)
            _, k, arr, n = v
            o.items, o.kind, o.arr, o.off, o.n = None, k, arr, z3.IntVal(0), n


def free_consts(t, acc=None, seen=None):
    """ordered list of free (uninterpreted, 0-ary) constants"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.append(x)
            stack.extend(reversed(x.children()))
    return acc


def const_no(c):
    n = c.decl().name()
    j = n.rfind("!")
    return int(n[j + 1:]) if j >= 0 and n[j + 1:].isdigit() else -1


# --------------------------------------------------------------- the loop
class LoopRun:
    def __init__(self, en, key, fr, names, step, is_for, n=None):
        self.en, self.key, self.fr, self.step, self.is_for, self.n = en, key, fr, step, is_for, n
        self.names = names
        self.base = Heap.n
        self.objs = {}
        self.loc = Loc(en, fr, self.objs)
        self.comps = {}
        self.alias = {}         # names bound to the same object throughout
        for nm in sorted(en.carry_extra.get(key, ())):
            v = fr.env.get(nm, MISSING)
            if isinstance(v, Poison):
                en.need_carry(v)
            if v is MISSING:
                raise Unsupported(f"variable {nm} may be read before assignment in a loop")
            if isinstance(v, (PList, PDict, SObj, SMap)):
                self.alias[nm] = v
            else:
                self.add_value(("v", nm), v)
        self.invs = []

    def add_value(self, cid, v):
        if isinstance(v, PList):
            # a local holding a list: the binding is carried as is, contents via 'l'
            raise Unsupported("loop rebinds a list variable")
        k = kind_of(v)
        if k is None:
            raise Unsupported(f"loop variable {cid[1:]} of type {type(v).__name__}")
        c = Comp(cid, k)
        if isinstance(v, STime):
            c.aware = v.aware
        self.comps[cid] = c

    # havoc state and poison the other assigned names
    def havoc(self, tag="s"):
        en = self.en
        st = {}
        for nm in self.names:
            if ("v", nm) not in self.comps and nm not in self.alias:
                en.env_store(self.fr, nm, Poison(self.key, nm))
        for cid, c in self.comps.items():
            zs = [en.fresh(f"{tag}_{'_'.join(map(str, cid[1:]))}", s) for s in c.sorts()]
            st[cid] = zs
            self.loc.set(cid, c.value(zs))
            if isinstance(c.kind, tuple):
                en.assume(zs[1] >= 0)
        return st

    def one(self, k):
        """one iteration from a havocked state"""
        en = self.en
        st = self.havoc()
        for f in self.invs:
            en.assume(f(st))
        ret = None
        rec = []
        en.recorders.append(rec)
        try:
            try:
                status = self.step(k)
            except _Continue:
                status = 1
            except _Break:
                status = 2
            except _Return as r:
                status, ret = 3, r.v
            except Raised as r:
                status = exc_code(r.exc.cls)
        finally:
            en.recorders[:] = [r for r in en.recorders if r is not rec]
        for nm, o in self.alias.items():
            if self.fr.env.get(nm) is not o:
                raise Unsupported("loop rebinds a list variable")
        out = {}
        for cid in self.comps:
            out[cid] = self.loc.get(cid)
            if isinstance(out[cid], PList):
                o = out[cid]
                cp = PList.__new__(PList)
                cp.serial = o.serial
                cp.restore(o.state())
                out[cid] = cp
        writes = []
        for o, l in rec:
            if o.serial <= self.base and o is not self.fr:
                if l == "<list>":
                    writes.append((o, l, len(o.items) if o.concrete else None,
                                   list(o.items) if o.concrete else o.kind))
                else:
                    writes.append((o, l, None, None))
        return status, ret, out, writes, st

    def trial(self, k):
        en = self.en
        q, en.quiet = en.quiet, True
        try:
            return en.explore(lambda: self.one(k))
        finally:
            en.quiet = q

    def discover(self, k):
        """extend comps until a trial run writes nothing else"""
        en = self.en
        for _ in range(12):
            res = self.trial(k)
            changed = False
            for _, (status, ret, out, writes, st) in res:
                for o, l, ln, items in writes:
                    if isinstance(o, Frame):
                        if isinstance(o.env.get(l), Poison):
                            continue
                        raise Unsupported("loop assigns a variable of an enclosing function")
                    self.objs[o.serial] = o
                    if l == "<list>":
                        cid = ("l", o.serial)
                        if cid in self.comps:
                            continue
                        if o.concrete and ln == len(o.items) and status == 1 or \
                                (o.concrete and ln == len(o.items)):
                            for i, (a, b) in enumerate(zip(o.items, items)):
                                ci = ("i", o.serial, i)
                                if a is not b and ci not in self.comps:
                                    self.add_value(ci, a)
                                    changed = True
                        else:
                            self.comps = {c: x for c, x in self.comps.items()
                                          if not (c[0] == "i" and c[1] == o.serial)}
                            if not o.concrete:
                                kd = o.kind
                            elif isinstance(items, list):
                                kd = list_kind(items + list(o.items))
                            else:
                                kd = items if not o.items or list_kind(o.items) == items else "val"
                            self.comps[cid] = Comp(cid, ("list", kd))
                            changed = True
                    elif l == "<dyn>":
                        cid = ("d", o.serial)
                        if cid not in self.comps:
                            self.comps[cid] = Comp(cid, "dyn")
                            changed = True
                    elif l == "<dict>":
                        raise Unsupported("loop modifies a dict")
                    else:
                        cid = ("f", o.serial, l)
                        if cid not in self.comps:
                            v = o.f.get(l, MISSING)
                            if v is MISSING:
                                raise Unsupported(f"loop creates attribute {l}")
                            self.add_value(cid, v)
                            changed = True
                # kinds
                for cid, c in list(self.comps.items()):
                    v = out.get(cid, MISSING)
                    if v is MISSING or isinstance(v, Poison) or isinstance(c.kind, tuple) or c.kind == "dyn":
                        continue
                    kv = kind_of(v)
                    if kv is None:
                        raise Unsupported(f"loop variable {cid[1:]} becomes {type(v).__name__}")
                    if kv != c.kind and c.kind != "val":
                        if {kv, c.kind} <= {"int", "real"}:
                            if c.kind == "int":
                                c.kind = "real"
                                changed = True
                        else:
                            c.kind = "val"
                            changed = True
            if not changed:
                return
        raise Unsupported("loop state does not stabilise")

    def extract(self, k):
        """transition terms"""
        en = self.en
        cnt0 = en.counter
        res = en.explore(lambda: self.one(k))
        if not res:
            raise PathEnd("loop body never completes")
        st = res[0][1][4]
        paths = []
        rkind = None
        for conds, (status, ret, out, writes, st2) in res:
            # placeholders are equal on every path because fresh names replay
            for cid in self.comps:
                for a, b in zip(st[cid], st2[cid]):
                    if not a.eq(b):
                        raise Unsupported("engine: non deterministic placeholders")
            terms = {}
            for cid, c in self.comps.items():
                terms[cid] = [simp(z) for z in c.terms(out[cid])]
            if status == 3:
                kr = kind_of(ret)
                if kr is None:
                    raise Unsupported("loop returns an object")
                rkind = kr if rkind in (None, kr) else "val"
            paths.append((conds, status, ret, terms))
        return st, paths, rkind, cnt0


def merge(conds_vals):
    """If-chain over exclusive path conditions"""
    t = conds_vals[-1][1]
    for c, v in reversed(conds_vals[:-1]):
        t = z3.If(c, v, t) if not v.eq(t) else t
    return simp(t)


def cond_of(conds, assumed):
    cs = [c for c in conds if c.get_id() not in assumed]
    if not cs:
        return z3.BoolVal(True)
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def concat_children(t):
    t = simp(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out += concat_children(c)
        return out
    return [t]


class FoldDef:
    def __init__(self, no, state, params, tstat, tvals):
        self.no, self.state, self.params, self.tstat, self.tvals = no, state, params, tstat, tvals
        sorts = [s.sort() for s in state] + [p.sort() for p in params]
        self.fst = z3.Function(f"FOLD{no}_st", *sorts, INT)
        self.fv = [z3.Function(f"FOLD{no}_{i}", *sorts, s.sort()) for i, s in enumerate(state)]


def canon_key(state, params, terms):
    sub = [(s, z3.Const(f"#s{i}", s.sort())) for i, s in enumerate(state)]
    sub += [(p, z3.Const(f"#p{i}", p.sort())) for i, p in enumerate(params)]
    return tuple(z3.substitute(t, *sub).sexpr() if sub else t.sexpr() for t in terms)


def find_fold(en, state, tstat, tvals, facts=()):
    """function symbols for the iterated transition; returns (def, order, params)

    state: placeholders, tvals parallel to it.  order maps def position -> our position."""
    sid = {s.get_id() for s in state}
    params = []
    seen = set()
    acc = []
    for t in [tstat] + tvals:
        free_consts(t, acc, seen)
    params = [c for c in acc if c.get_id() not in sid]
    # canonical order of the state: by first occurrence in the terms
    for d in en.fold_registry:
        if len(d.state) != len(state) or len(d.params) != len(params):
            continue
        if sorted(str(s.sort()) for s in d.state) != sorted(str(s.sort()) for s in state):
            continue
        if sorted(str(s.sort()) for s in d.params) != sorted(str(s.sort()) for s in params):
            continue
        dkey = d.key
        perms = list(sort_perms(d.state, state))[:24]
        for pm in perms:
            st2 = [state[i] for i in pm]
            tv2 = [tvals[i] for i in pm]
            acc, seen = [], set()
            for t in [tstat] + tv2:
                free_consts(t, acc, seen)
            ps2 = [c for c in acc if c.get_id() not in sid]
            if canon_key(st2, ps2, [tstat] + tv2) == dkey:
                return d, pm, ps2
    for d in en.fold_registry:
        if len(d.state) != len(state):
            continue
        if sorted(str(s.sort()) for s in d.state) != sorted(str(s.sort()) for s in state):
            continue
        for pm in list(sort_perms(d.state, state))[:24]:
            st2 = [state[i] for i in pm]
            tv2 = [tvals[i] for i in pm]
            for pp in list(param_maps(d.params, params))[:24]:
                sub = list(zip(d.state, st2)) + list(zip(d.params, pp))
                dst = z3.substitute(d.tstat, *sub) if sub else d.tstat
                dtv = [z3.substitute(t, *sub) if sub else t for t in d.tvals]
                goal = z3.And(dst == tstat, *[a == b for a, b in zip(dtv, tv2)])
                if en.proves(goal, 5000, facts):
                    return d, pm, pp
    d = FoldDef(len(en.fold_registry), list(state), list(params), tstat, list(tvals))
    d.key = canon_key(state, params, [tstat] + tvals)
    en.fold_registry.append(d)
    return d, list(range(len(state))), params


def sort_perms(a, b):
    """orders pm with b[pm[i]].sort == a[i].sort"""
    groups = {}
    for i, x in enumerate(b):
        groups.setdefault(str(x.sort()), []).append(i)
    names = [str(x.sort()) for x in a]
    keys = list(groups)
    for combo in itertools.product(*[itertools.permutations(groups[k]) for k in keys]):
        its = {k: iter(c) for k, c in zip(keys, combo)}
        yield [next(its[n]) for n in names]


def param_maps(dp, params):
    """assignments of registered parameters to ours: same names first"""
    by = {p.decl().name(): p for p in params}
    if all(p.decl().name() in by or True for p in dp):
        yield [by.get(p.decl().name(), p) for p in dp]
    if len(dp) == len(params):
        for pm in sort_perms(dp, params) if sorted(str(p.sort()) for p in dp) == sorted(
                str(p.sort()) for p in params) else []:
            yield [params[i] for i in pm]


def apply_fold(en, state, init, tstat, tvals, facts=()):
    """z3 terms (status, values) of the loop started in init"""
    d, pm, params = find_fold(en, state, tstat, tvals, facts)
    args = [init[i] for i in pm] + list(params)
    stat = d.fst(*args)
    vals = [None] * len(state)
    for j, i in enumerate(pm):
        vals[i] = d.fv[j](*args)
    # base case: the loop is left at once
    sub = list(zip(state, init))
    st0 = simp(z3.substitute(tstat, *sub)) if sub else tstat
    base = z3.And(stat == 0, *[v == i for v, i in zip(vals, init)])
    en.assume(z3.Implies(st0 == 0, base))
    return stat, vals


def run_for(en, s, seq, fr):
    key = ("for", fr.qual, s.lineno, s.col_offset)
    names = assigned_names([s.target] + s.body) | target_names(s.target)

    def step(k):
        en.assign(s.target, seq.get(k), fr)
        en.block(s.body, fr)
        return 1
    n = seq.n
    k0 = z3.IntVal(0)
    hints = en.loop_hints(en, key, fr, seq) if en.loop_hints else None
    if hints is not None:
        raise Unsupported("hinted for loop")
    finish(en, key, fr, names, step, True, n, k0, s.orelse)


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def run_while(en, s, fr):
    key = ("while", fr.qual, s.lineno, s.col_offset)
    names = assigned_names([s.test] + s.body)
    hints = en.loop_hints(en, key, fr, None) if en.loop_hints else None

    def step(k):
        if not en.truth(en.ev(s.test, fr)):
            return 0
        en.block(s.body, fr)
        return 1
    # a variable that only the body assigns is needed afterwards: run the first iteration by itself
    if hints is None and any(fr.env.get(nm, MISSING) is MISSING for nm in en.carry_extra.get(key, ())):
        try:
            if step(None) == 0:
                en.block(s.orelse, fr)
                return
        except _Break:
            return
        except _Continue:
            pass
    # does the loop body run at most once from here?
    if hints is None:
        def probe():
            try:
                return step(None)
            except _Continue:
                return 1
            except (_Break, _Return, Raised):
                return 2
        q, en.quiet = en.quiet, True
        try:
            res = en.explore(probe)
        except Restart:
            raise
        finally:
            en.quiet = q
        if all(r != 1 for _, r in res):
            try:
                st = step(None)
            except _Break:
                return
            except _Continue:
                raise PathEnd("loop continues") from None
            if st == 1:
                raise PathEnd("loop continues")
            en.block(s.orelse, fr)
            return
        finish(en, key, fr, names, step, False, None, None, s.orelse)
        return
    # rotated: the invariants hold wherever the body is about to run
    def test():
        return en.truth(en.ev(s.test, fr))
    if not test():
        en.block(s.orelse, fr)
        return

    def body(k):
        if not test():
            raise PathEnd("not at the loop head")
        try:
            en.block(s.body, fr)
        except _Continue:
            pass
        return 1 if test() else 0
    run_inv(en, key, fr, names, body, s.orelse, hints)


def finish(en, key, fr, names, step, is_for, n, k0, orelse):
    lr = LoopRun(en, key, fr, names, step, is_for, n)
    if is_for:
        n = simp(n)
        if z3.is_int_value(n) and n.as_long() <= 0:
            en.block(orelse, fr)
            return
    k = en.fresh("k", INT) if is_for else None
    pcmark = len(en.pc)
    if is_for:
        en.pc.append(simp(k >= 0))
        en.pc.append(simp(k < n))
        if en.feasible([]) is False:
            del en.pc[pcmark:]
            en.block(orelse, fr)
            return
    try:
        lr.discover(k)
        # initial values (before anything is havocked)
        init = {cid: c.read(lr.loc) for cid, c in lr.comps.items()}
        auto_invariants(en, lr, k, init)
        st, paths, rkind, cnt0 = lr.extract(k)
        fixed = en.assumed
        rows = []
        for conds, status, ret, terms in paths:
            rows.append((cond_of(conds, fixed), status, ret, terms))
        # --- flatten
        slots = []            # (cid, index, placeholder, init)
        for cid in lr.comps:
            for i, ph in enumerate(st[cid]):
                slots.append([cid, i, ph, init[cid][i]])
        if rkind is not None:
            ph = en.fresh("ret", KIND_SORT[rkind])
            dflt = {"int": z3.IntVal(0), "bool": z3.BoolVal(False), "real": z3.RealVal(0),
                    "str": z3.StringVal(""), "bytes": z3.StringVal(""), "val": Val.Absent}[rkind]
            slots.append([("ret",), 0, ph, dflt])

        def newval(row, slot):
            cond, status, ret, terms = row
            if slot[0] == ("ret",):
                return to_z(ret, rkind) if status == 3 else slot[2]
            return terms[slot[0]][slot[1]]
        tvals = [merge([(r[0], newval(r, s)) for r in rows]) for s in slots]
        tstat = merge([(r[0], z3.IntVal(r[1])) for r in rows])
        prefix = [None] * len(slots)
        phids = {s[2].get_id(): j for j, s in enumerate(slots)}
        # additive strings: start from "" and prepend the initial value
        for j, s in enumerate(slots):
            if s[2].sort() != STR or s[0] == ("ret",):
                continue
            ok = True
            news = []
            for r in rows:
                ch = concat_children(newval(r, s))
                if not ch[0].eq(s[2]) or any(mentions(c, s[2]) for c in ch[1:]):
                    ok = False
                    break
            if ok and not mentions(tstat, s[2]) and not any(mentions(t, s[2]) for i, t in enumerate(tvals) if i != j) \
                    and not any(mentions(r[0], s[2]) for r in rows):
                prefix[j] = s[3]
                s[3] = z3.StringVal("")
        # fresh values created inside the body may not be used
        lim = cnt0
        allph = {s[2].get_id() for s in slots}
        for t in [tstat] + tvals:
            for c in free_consts(t):
                if const_no(c) > lim and c.get_id() not in allph:
                    raise Unsupported(f"loop body depends on an unspecified value ({c})")
        deps = [set(j for j in range(len(slots)) if mentions(tvals[i], slots[j][2])) for i in range(len(slots))]
        sdeps = set(j for j in range(len(slots)) if mentions(tstat, slots[j][2]))
        if is_for:
            full_stat = z3.If(k >= n, z3.IntVal(0), tstat)
        else:
            full_stat = tstat
    finally:
        del en.pc[pcmark:]
    facts = [f(st) for f in lr.invs]
    if is_for:
        facts.append(k >= 0)
    # a slot nobody reads whose new value always is that of another slot ends with the other's result
    twin = {}
    if not is_for:
        for i in range(len(slots)):
            if slots[i][0][0] != "v" or prefix[i] is not None or i in sdeps or \
                    any(i in d for k2, d in enumerate(deps) if k2 != i):
                continue
            for j in range(len(slots)):
                if j != i and j not in twin and prefix[j] is None and slots[j][0] != ("ret",) and \
                        slots[j][2].sort() == slots[i][2].sort() and \
                        all(newval(r, slots[i]).eq(newval(r, slots[j])) for r in rows if r[1] <= 2):
                    twin[i] = j
                    break
    groups = {}
    for i in range(len(slots)):
        if i in twin:
            continue
        C = {i} | sdeps
        while True:
            D = set(C)
            for j in C:
                D |= deps[j]
            if D == C:
                break
            C = D
        groups.setdefault(tuple(sorted(C)), []).append(i)
    if not groups:
        C = set(sdeps)
        groups[tuple(sorted(C))] = []
    results = [None] * len(slots)
    stat = None
    statuses = sorted({r[1] for r in rows} | ({0} if is_for else set()))
    statuses = [x for x in statuses if x != 1]
    for C, outs in sorted(groups.items(), key=lambda g: len(g[0])):
        state = [slots[j][2] for j in C]
        ini = [slots[j][3] for j in C]
        tv = [tvals[j] for j in C]
        if is_for:
            state, ini, tv = [k] + state, [k0] + ini, [k + 1] + tv
        stt, vals = apply_fold(en, state, ini, full_stat, tv, facts)
        en.assume(z3.Or(*[stt == x for x in statuses]))
        if is_for:
            en.assume(z3.Implies(stt == 0, vals[0] == z3.If(n > k0, n, k0)))
            vals = vals[1:]
        if stat is None:
            stat = stt
        elif not stat.eq(stt):
            en.assume(stat == stt)
        for j, v in zip(C, vals):
            if results[j] is None and j in outs:
                results[j] = v
    for i, j in twin.items():
        results[i] = results[j]
    # write back
    for nm in names:
        if ("v", nm) not in lr.comps and nm not in lr.alias:
            en.env_store(fr, nm, Poison(key, nm))
    final = {}
    for j, s in enumerate(slots):
        v = results[j]
        if prefix[j] is not None:
            v = z3.Concat(prefix[j], v)
        final.setdefault(s[0], []).append(simp(v))
    for cid, c in lr.comps.items():
        lr.loc.set(cid, c.value(final[cid]))
        if isinstance(c.kind, tuple):
            en.assume(final[cid][1] >= 0)
    for f in lr.invs:
        en.assume(f(final))
    # outcome
    for x in statuses[:-1]:
        if en.branch(stat == x):
            break
    else:
        x = statuses[-1]
        en.assume(stat == x)
    if x > 2:
        for i in twin:
            en.env_store(fr, slots[i][0][1], Poison(key, slots[i][0][1]))
    if x == 0:
        en.block(orelse, fr)
    elif x == 2:
        return
    elif x == 3:
        raise _Return(wrap(final[("ret",)][0], rkind))
    else:
        raise Raised(SExc(exc_of(x)))


def mentions(t, c):
    i = c.get_id()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        j = x.get_id()
        if j == i:
            return True
        if j in seen:
            continue
        seen.add(j)
        stack.extend(x.children())
    return False


def auto_invariants(en, lr, k, init):
    """sign / lower bound invariants of integer components (Houdini)"""
    cands = []
    for cid, c in lr.comps.items():
        if c.kind == "int":
            i0 = init[cid][0]
            if en.proves(i0 >= 0, 1500):
                cands.append(lambda st, cid=cid: st[cid][0] >= 0)
            cands.append(lambda st, cid=cid, i0=i0: st[cid][0] >= i0)
            if en.proves(i0 <= 0, 1500) and not en.proves(i0 >= 0, 1500):
                cands.append(lambda st, cid=cid: st[cid][0] <= 0)
    if not cands:
        return
    for _ in range(6):
        lr.invs = list(cands)
        q, en.quiet = en.quiet, True
        try:
            bad = set()

            def go():
                status, ret, out, writes, st = lr.one(k)
                if status == 1:
                    ns = {cid: lr.comps[cid].terms(out[cid]) for cid in lr.comps}
                    for i, f in enumerate(cands):
                        if i not in bad and not en.proves(f(ns), 2000):
                            bad.add(i)
                return None
            en.explore(go)
        finally:
            en.quiet = q
        if not bad:
            return
        cands = [f for i, f in enumerate(cands) if i not in bad]
    lr.invs = []


# ------------------------------------------------------- invariant loops
def recall(en, lr):
    """loop state found when this loop was met before (checked again by run_inv)"""
    memo = en.comp_memo.get(lr.key)
    if memo is None:
        return False
    from pyvc.recur import reach
    objs = {o.serial: o for o in reach(lr.fr, 6)}
    found = {}
    for cid, kind, aware, typ, cls in memo:
        if cid[0] == "v":
            v = lr.fr.env.get(cid[1], MISSING)
            if v is MISSING or isinstance(v, Poison):
                return False
            k = kind_of(v)
            if k != kind and not (kind == "val" or (kind == "real" and k == "int")):
                return False
        else:
            o = objs.get(cid[1])
            if o is None or type(o) is not typ or getattr(o, "cls", None) is not cls or cid[0] not in ("f", "d"):
                return False
            if cid[0] == "f":
                k = kind_of(o.f[cid[2]]) if cid[2] in o.f else None
                if k != kind and not (kind == "val" or (kind == "real" and k == "int")):
                    return False
            lr.objs[o.serial] = o
        c = Comp(cid, kind)
        c.aware = aware
        found[cid] = c
    if not set(lr.comps) <= set(found):
        return False
    lr.comps = found
    return True


def run_inv(en, key, fr, names, step, orelse, hints):
    """hints(frame) -> list of (label, z3 Bool or None, optional action); evaluated on
    the live state.  The action of a surviving candidate runs at the loop head
    after the candidate is assumed (it may assume definitional equations)"""
    lr = LoopRun(en, key, fr, names, step, False)
    outer = en.inv_stack
    en.inv_stack = outer + (("discover", key),)
    try:
        if not recall(en, lr) or key in en.comp_grow:
            lr.discover(None)
            en.comp_memo[key] = [(cid, c.kind, c.aware, type(lr.objs[cid[1]]) if cid[0] != "v" else None,
                                  getattr(lr.objs[cid[1]], "cls", None) if cid[0] != "v" else None)
                                 for cid, c in lr.comps.items()]
    finally:
        en.inv_stack = outer
    ent = {}
    for lab, g, *_ in hints(fr):
        if g is not None:
            ent[lab] = g

    def head():
        acts = []
        for lab, g, *act in hints(fr):
            if lab in alive:
                en.assume(g)
                acts += act
        for a in acts:
            a()
    # candidates dropped in one context (of enclosing invariants) stay dropped in it
    mkey = (key, outer)
    memo = en.inv_memo.get(mkey)
    alive = set(ent) if memo is None else memo
    if any(m[0] == "discover" for m in outer):
        alive = set()       # only the set of written locations is wanted
    alive = {lab for lab in alive if lab in ent and en.proves(ent[lab], 5000)}
    # (a set found inductive before is not tried again here: the obligations below decide)
    for _ in range(12 if alive and alive != memo else 0):
        bad = set()

        def go():
            lr.havoc("h")
            head()
            try:
                st = step(None)
            except (_Break, _Return, Raised):
                st = 2
            if st == 1:
                now = {h[0]: h[1] for h in hints(fr)}
                for lab in alive:
                    if lab not in bad and (now.get(lab) is None or not en.proves(now[lab], 5000)):
                        bad.add(lab)
        q, en.quiet = en.quiet, True
        en.inv_stack = outer + ((key, tuple(sorted(alive))),)
        try:
            en.explore(go)
        finally:
            en.quiet = q
            en.inv_stack = outer
        if not bad:
            break
        alive -= bad
    en.inv_memo[mkey] = alive
    en.invariants[key] = alive
    for lab in sorted(alive):
        en.oblige(f"loop invariant holds on entry [{lab}]", ent[lab])
    lr.havoc("h")
    head()
    en.inv_stack = outer + ((key, tuple(sorted(alive))),)
    rec = []
    en.recorders.append(rec)
    try:
        st = step(None)
    except _Break:
        return
    finally:
        en.inv_stack = outer
        en.recorders[:] = [r for r in en.recorders if r is not rec]
        # the written locations must be the ones that were havocked
        for o, l in rec:
            if o.serial <= lr.base and o is not fr:
                cid = ("l", o.serial) if l == "<list>" else ("d", o.serial) if l == "<dyn>" else ("f", o.serial, l)
                if cid not in lr.comps and not (l == "<list>" and any(c[:2] == ("i", o.serial) for c in lr.comps)):
                    if key in en.comp_grow:
                        raise Unsupported(f"engine: undiscovered write of {l} in a loop")
                    # the memo is of a path that writes less
                    en.comp_grow.add(key)
                    raise Restart()
    for nm, o in lr.alias.items():
        if fr.env.get(nm) is not o:
            raise Unsupported("loop rebinds a list variable")
    if st == 1:
        for cid, c in lr.comps.items():
            c.read(lr.loc)
            v = lr.loc.get(cid)
            if isinstance(c.kind, str) and c.kind not in ("val", "dyn") and kind_of(v) != c.kind and \
                    not (c.kind == "real" and kind_of(v) == "int"):
                raise Unsupported(f"engine: loop state {cid[1:]} changes kind")
    if st == 1:
        now = {h[0]: h[1] for h in hints(fr)}
        for lab in sorted(alive):
            en.oblige(f"loop invariant is preserved [{lab}]", now[lab])
        raise PathEnd("end of loop iteration")
    en.block(orelse, fr)


# ------------------------------------------------------------ folds by call
def _pure_paths(en, fn):
    q, en.quiet = en.quiet, True
    try:
        res = en.explore(fn)
    finally:
        en.quiet = q
    return res


def fold_concat(en, it, piece_fn, k0):
    """concatenation of piece_fn(k) for k0 <= k < it.n"""
    k = en.fresh("k", INT)
    acc = en.fresh("acc", STR)
    cnt0 = en.counter
    mark = len(en.pc)
    en.pc += [simp(k >= k0), simp(k < it.n)]
    try:
        def go():
            p = piece_fn(k)
            if isinstance(p, SVal):
                p = en.models.force(en, p, ("VStr",), TypeError)
            if not isinstance(p, (str, SStr)):
                raise Unsupported("join of non-strings")
            return to_z(p)
        res = en.explore(go)
        piece = merge([(cond_of(c, en.assumed), v) for c, v in res])
    finally:
        del en.pc[mark:]
    for c in free_consts(piece):
        if const_no(c) > cnt0:
            raise Unsupported("sequence depends on an unspecified value")
    tstat = z3.If(k >= it.n, z3.IntVal(0), z3.IntVal(1))
    stt, vals = apply_fold(en, [k, acc], [k0, z3.StringVal("")], tstat,
                           [k + 1, simp(z3.Concat(acc, piece))])
    en.assume(stt == 0)
    return SStr(vals[1])


def reduce_sym(en, f, it, acc0):
    kind = kind_of(acc0)
    for _ in range(2):
        k = en.fresh("k", INT)
        a = en.fresh("acc", KIND_SORT[kind])
        cnt0 = en.counter
        mark = len(en.pc)
        en.pc += [simp(k >= 0), simp(k < it.n)]
        try:
            res = en.explore(lambda: f(wrap(a, kind), it.get(k)))
        finally:
            del en.pc[mark:]
        if any(kind_of(v) != kind for _, v in res):
            kind = "real" if kind == "int" else kind
            continue
        break
    t = merge([(cond_of(c, en.assumed), to_z(v, kind)) for c, v in res])
    for c in free_consts(t):
        if const_no(c) > cnt0:
            raise Unsupported("sequence depends on an unspecified value")
    tstat = z3.If(k >= it.n, z3.IntVal(0), z3.IntVal(1))
    stt, vals = apply_fold(en, [k, a], [z3.IntVal(0), to_z(acc0, kind)], tstat, [k + 1, t])
    en.assume(stt == 0)
    return wrap(vals[1], kind)
