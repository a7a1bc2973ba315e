"""Tail recursive specification functions and the loop invariants built on them.

@tail(state kinds, result kinds)
def step(*state): return done, values

means RUN(state) = values if done else RUN(values).  Natively RUN is a loop.  In
proofs RUN is an uninterpreted function per result component; its defining
equation is used at the states where a loop head asks for it (unfold).  The
equation determines RUN wherever the recursion ends, so assuming it there is
sound; where it does not end any RUN satisfies it.

relational(T, ...) makes loop hints: RUN(state now) == RUN(state at loop entry).
Candidates are formed from whatever byte strings the code holds at the loop
head, in any order, so that names and nesting of the code do not matter; the
candidates that are not inductive are dropped (Houdini, loops.run_inv)."""

import itertools

import z3

from pyvc import pymodels
from pyvc.core import SBytes, SInt, SBool, Sym, Unsupported, simp, to_z, wrap, lift, KIND_SORT, STR
from pyvc.interp import Frame, PDict, PList, SObj

TAILS = []


class Tail:
    def __init__(self, step, state, result, cuts, at, inline):
        self.cuts, self.at, self.inline = cuts, at, inline
        self.step, self.state, self.result = step, state, result
        self.name = step.__name__
        TAILS.append(self)

    def __call__(self, *st):
        while True:
            done, st = self.step(*st)
            if done:
                return st

    # ------------------------------------------------------------ symbolic
    def terms(self, st):
        if len(st) != len(self.state):
            raise Unsupported("tail: arity")
        return [simp(to_z(v, k)) for v, k in zip(st, self.state)]

    def apply_terms(self, zs):
        return [z3.Function(f"RUN_{self.name}_{i}", *[z.sort() for z in zs], KIND_SORT[k])(*zs)
                for i, k in enumerate(self.result)]

    def handler(self, en, args, kw):
        zs = self.apply_terms(self.terms(args))
        en.ghost["last", self.name] = zs
        return tuple(lift(wrap(z, k)) for z, k in zip(zs, self.result))

    def unfold(self, en, st):
        """defining equation at st, as one term (no case split but on the length of
        the byte string the state starts with)"""
        from pyvc.loops import cond_of, merge
        if self.inline:     # the case split of the step is made on the path itself
            here = self.apply_terms(self.terms(st))
            done, vals = en.call_interpreted(self.step, list(st), {})
            if isinstance(done, Sym):
                done = en.truth(done)
            now = [to_z(v, k) for v, k in zip(vals, self.result)] if done else self.apply_terms(self.terms(vals))
            for h, v in zip(here, now):
                en.assume(h == v)
                en.assume(en.normal(simp(h == v)))
            return
        cut(en, to_z(st[self.at], "bytes"), self.cuts)
        here = self.apply_terms(self.terms(st))
        st = [wrap(en.normal(z), k) for z, k in zip(self.terms(st), self.state)]

        def go():
            done, vals = en.call_interpreted(self.step, list(st), {})
            if isinstance(done, Sym):
                done = en.truth(done)
            if done:
                return [to_z(v, k) for v, k in zip(vals, self.result)]
            return self.apply_terms(self.terms(vals))
        zs = self.terms(st)
        key = (self.name,) + tuple(z.get_id() for z in zs)
        if key not in en.unfold_memo:
            # only structural facts are used, so that the equation holds on any path with them
            q, en.quiet = en.quiet, True
            nf, en.nofeas = en.nofeas, True
            pc, en.pc = en.pc, en.structure()
            c0 = en.counter
            try:
                rows = en.explore(go)
            finally:
                en.quiet, en.nofeas, en.pc = q, nf, pc
            if en.counter != c0:
                raise Unsupported("unspecified value in a specification step")
            conds = [cond_of(c, en.assumed) for c, _ in rows]
            # the terms are kept alive: ids stay theirs
            en.unfold_memo[key] = ([merge([(c, r[i]) for c, (_, r) in zip(conds, rows)])
                                    for i in range(len(here))], zs)
        for h, v in zip(here, en.unfold_memo[key][0]):
            en.assume(h == v)


def cut(en, z, n):
    """case split such that each of the first n characters of z is a piece of its own
    (or z is known to have fewer)"""
    from pyvc.loops import concat_children
    from pyvc.core import zstr
    for k in range(1, n + 1):
        need = k
        for p in concat_children(en.normal(z)):
            if need <= 0:
                break
            have = len(zstr(p)) if z3.is_string_value(p) else en.known_length(p)
            if have is not None:
                need -= have
            elif en.branch(z3.Length(p) >= need):
                h, t = en.fresh(f"cut{need}", z3.StringSort()), en.fresh("rest", z3.StringSort())
                en.split(p, h, t, need)
                need = 0
            else:
                for j in range(need):
                    if j == need - 1 or en.branch(z3.Length(p) == j):
                        break
                if j == 0:
                    en.is_empty(p)
                else:
                    en.has_length(p, j)
                need -= j


def tail(state, result, cuts=0, at=0, inline=False):
    def deco(f):
        return Tail(f, state, result, cuts, at, inline)
    return deco


def unfold(t, *st):
    """natively nothing; in proofs the defining equation of t at st"""
    return None


def install(en):
    for t in TAILS:
        en.models.fn[t] = t.handler

    def _unfold(en, args, kw):
        args[0].unfold(en, args[1:])
        return None
    en.models.fn[unfold] = _unfold


# ------------------------------------------------------------------ hints
def reach(fr, depth=4):
    """objects reachable from the locals of a frame, by class"""
    out, seen = [], set()

    def go(v, d):
        if isinstance(v, SObj):
            if id(v) in seen or d < 0:
                return
            seen.add(id(v))
            out.append(v)
            for x in v.f.values():
                go(x, d - 1)
        elif isinstance(v, (tuple,)):
            for x in v:
                go(x, d)
        elif hasattr(v, "recv"):
            go(v.recv, d)
    f = fr
    for v in f.env.values():
        go(v, depth)
    return out


def isbytes(v):
    return isinstance(v, (SBytes, bytes))


def locals_bytes(fr, maxlen=2, skip=()):
    """ordered selections of the byte strings held in locals: [(label, term)]"""
    names = [n for n, v in sorted(fr.env.items()) if isbytes(v) and n not in skip]
    out = [("", None)]
    for r in range(1, maxlen + 1):
        for p in itertools.permutations(names, r):
            out.append(("+".join(p), None))
    return [(lab, cat([fr.env[n] for n in lab.split("+")] if lab else [])) for lab, _ in out]


def cat(vs):
    zs = [to_z(v, "bytes") for v in vs]
    if not zs:
        return z3.StringVal("")
    return zs[0] if len(zs) == 1 else z3.Concat(*zs)


def fields_bytes(obj, maxlen=2):
    """ordered selections of the byte string fields of an object"""
    names = [n for n, v in sorted(obj.f.items()) if isbytes(v)]
    out = [("", z3.StringVal(""))]
    for r in range(1, maxlen + 1):
        for p in itertools.permutations(names, r):
            out.append(("+".join(p), cat([obj.f[n] for n in p])))
    return out


def lengths(en, fr):
    """candidates: a local byte string has one byte"""
    out = []
    for n, v in sorted(fr.env.items()):
        if isbytes(v):
            z = to_z(v, "bytes")
            out.append((f"len({n}) == 1", z3.Length(z) == 1,
                        lambda z=z: en.has_length(z, 1)))
    return out
