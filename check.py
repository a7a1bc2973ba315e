"""check.py <property id> : decide one property on /repo's current source.

Run with python3-vt.  Exit 0: every obligation of the property's contracts was
discharged.  Exit 1: "VIOLATION property=<id> replay=<path>" (with
"no-failing-input-found" at the end when an obligation failed but no concrete
failing input is known).  See DESIGN.md.

check.py --replay <path>  runs a recorded failing input again.
check.py --list           lists properties and contracts.
"""

import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"      # never trust cached byte code

import glob
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = max(2, min(8, os.cpu_count() or 4))
HURRY_S = 60 if TIER == "quick" else 600         # for what is still to be proved when a failing input is known
GLOBAL_S = 780 if TIER == "quick" else 3000      # wall clock limit of one check
NATIVE_S = 12 if TIER == "quick" else 90         # native cross check per contract
SEARCH_S = 150 if TIER == "quick" else 600       # directed search after a failed obligation
HANG_S = 30                                      # one native input
MEM = 6 << 30


def load(pid=None):
    import contracts
    from pyvc import harness
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "c_*.py"))):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
    return [c for c in harness.CONTRACTS if pid is None or pid in c.pids]


# --------------------------------------------------------------- processes
class Job:
    def __init__(self, fn, args, limit):
        self.fn, self.args, self.limit = fn, args, limit
        self.res, self.p, self.rx = None, None, None

    def start(self):
        self.rx, tx = mp.Pipe(False)
        self.p = mp.Process(target=self._main, args=(tx,), daemon=True)
        self.t0 = time.time()
        self.p.start()
        tx.close()

    def _main(self, tx):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        except (ValueError, OSError):
            pass
        try:
            r = self.fn(*self.args)
        except BaseException as e:      # noqa: reported as undecided
            r = {"error": repr(e)[:500] + " " + traceback.format_exc()[-1500:]}
        try:
            tx.send(r)
        except Exception as e:
            tx.send({"error": "result: " + repr(e)[:300]})
        tx.close()

    def poll(self):
        """True when finished"""
        if self.rx.poll():
            try:
                self.res = self.rx.recv()
            except (EOFError, OSError):
                self.res = {"error": "worker died"}
            self.p.join(5)
            if self.p.is_alive():
                self.p.kill()
            return True
        if not self.p.is_alive():
            if self.rx.poll():
                return self.poll()
            self.res = {"error": "worker died"}
            return True
        if time.time() - self.t0 > self.limit:
            self.p.kill()
            self.p.join(5)
            self.res = {"error": f"time limit of {self.limit:.0f}s"}
            return True
        return False


def run_jobs(jobs, deadline, stop=None, hurry=None):
    """hurry(job): a failing input is already there, so the rest gets HURRY_S seconds"""
    pending, running = list(jobs), []
    while pending or running:
        while pending and len(running) < NPROC and time.time() < deadline:
            j = pending.pop(0)
            j.limit = min(j.limit, max(5, deadline - time.time()))
            j.start()
            running.append(j)
        if not running:
            for j in pending:
                j.res = {"error": "no time left"}
            return
        still = []
        for j in running:
            if not j.poll():
                still.append(j)
        done = [j for j in running if j not in still]
        running = still
        if stop and any(stop(j) for j in done):
            for j in running:
                j.p.kill()
                j.p.join(5)
                j.res = {"error": "stopped"}
            for j in pending:
                j.res = {"error": "stopped"}
            return
        if hurry and any(hurry(j) for j in done):
            hurry = None
            deadline = min(deadline, time.time() + HURRY_S)
            for j in running:
                j.limit = min(j.limit, time.time() - j.t0 + HURRY_S)
        if not done:
            time.sleep(0.02)


# ------------------------------------------------------------------ native
class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


def native_one(c, inp):
    """None, ('assume',) or (label, detail)"""
    from pyvc import harness as H
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    try:
        f = H.run_native(c, inp)
    except H.AssumeFailed:
        return ("assume",)
    except Hang:
        f = ("the call returns", f"no result within {HANG_S}s")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return f


def quiet_native():
    """the code under test logs and may print: keep stdout for the verdict"""
    import logging
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def inputs_of(c, rng):
    """the generated inputs; a generator that gets stuck just ends them"""
    it = iter(c.gen(rng))
    while True:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            inp = next(it)
        except (Hang, StopIteration):
            return
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        yield inp


def native_job(c, seed, secs, maxn=None):
    from pyvc import harness as H
    quiet_native()
    rng = random.Random(seed)
    t0 = time.time()
    n = skipped = 0
    sample, fails = None, []
    seen = set()
    for inp in inputs_of(c, rng):
        f = native_one(c, inp)
        n += 1
        if f == ("assume",):
            skipped += 1
        elif f is None:
            if sample is None or n == 7:
                sample = repr(inp)[:400]
            if len(seen) < 200000:
                seen.add(hash(repr(inp)))
        else:
            fails.append((f[0], f[1], repr(inp)))
            break
        if time.time() - t0 > secs or (maxn and n >= maxn):
            break
    return {"n": n, "skipped": skipped, "sample": sample, "fails": fails, "distinct": len(seen),
            "labels": dict(H.NATIVE_LABELS)}


def replay_job(c, inputs_repr):
    quiet_native()
    inp = eval_inputs(inputs_repr)
    return {"f": native_one(c, inp)}


def eval_inputs(s):
    import datetime
    import math
    env = {"datetime": datetime, "inf": math.inf, "nan": math.nan}
    import contracts.gens as g
    env.update(vars(g))
    return eval(s, env)     # our own recorded reprs


def model_inputs(c, fixed, model):
    """native inputs of a counter-model, or None"""
    out = dict(fixed)
    for n, i in c.inputs.items():
        if n in out:
            continue
        if n not in model:
            return None
        try:
            out[n] = i.native(model[n])
        except Exception:
            return None
        if isinstance(out[n], str) and out[n].startswith("<") and out[n].endswith(">"):
            return None
    return out


def prove_job(c, fixed):
    from pyvc import harness as H
    return H.prove(c, fixed)


def labels_of(c):
    """obligation labels written in the contract"""
    import ast
    import inspect
    import textwrap
    tree = ast.parse(textwrap.dedent(inspect.getsource(c.fn)))
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "ensure" and \
                n.args and isinstance(n.args[0], ast.Constant):
            out.add(n.args[0].value)
    return out


def findings():
    p = os.path.join(HERE, "known-findings.json")
    with open(p, encoding="utf-8") as f:
        return json.load(f)


def repo_rev():
    try:
        return subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], capture_output=True, text=True,
                              timeout=10).stdout.strip()
    except (OSError, subprocess.SubprocessError):
        return "?"


# -------------------------------------------------------------------- main
def check(pid):
    t0 = time.time()
    deadline = t0 + GLOBAL_S
    cs = load(pid)
    from pyvc import harness as H
    if not cs:
        print(f"no contract for {pid}")
        return 2
    known = [k for k in findings().get("findings", []) if k["property"] == pid]
    jobs, natives = [], []
    for c in cs:
        if not getattr(c, "native_only", False):
            for fx in H.instances(c):
                j = Job(prove_job, (c, fx), c.budget + 60)
                j.c, j.fx = c, fx
                jobs.append(j)
    for c in cs:
        if c.gen:
            j = Job(native_job, (c, SEED, c.native_s or NATIVE_S), (c.native_s or NATIVE_S) + HANG_S + 30)
            j.c = c
            natives.append(j)
    order = sorted(jobs, key=lambda j: -j.c.budget)
    run_jobs(natives + order, deadline - (SEARCH_S + 20 if TIER == "quick" else 0),
             hurry=lambda j: bool((j.res or {}).get("fails")))
    # ------------------------------------------------ collect
    viol = []          # (contract, label, detail, inputs repr)
    failed = []        # (contract, fixed, label, reason)
    obl = dis = 0
    names, backends, funcs, contracted, used, invs = [], {}, set(), set(), set(), {}
    solver_s = queries = paths = 0
    got = {}
    for j in jobs:
        r = j.res
        fx = {k: repr(v)[:60] for k, v in j.fx.items()}
        if "error" in r:
            failed.append((j.c, j.fx, "<undecided>", r["error"]))
            continue
        if r["unsupported"]:
            failed.append((j.c, j.fx, "<undecided>", r["unsupported"]))
        obl += r["vcs"]
        dis += r["vcs_ok"]
        solver_s += r["solver_s"]
        queries += r["queries"]
        paths += r["paths"]
        funcs |= set(r["functions"])
        contracted |= set(r["contracted"])
        used |= set(r["used"])
        invs.update(r["invariants"])
        if not r["vcs"] and not r["unsupported"]:
            failed.append((j.c, j.fx, "<no obligation>", "the contract generated no obligation"))
        for o in r["obligations"]:
            got.setdefault(j.c.name, set()).add(o["label"])
            for b in o["backends"]:
                backends[b] = backends.get(b, 0) + 1
            names.append({"contract": j.c.name, "fixed": fx, "label": o["label"], "vcs": o["paths"],
                          "discharged": o["discharged"], "by": o["backends"]})
            if not o["discharged"]:
                failed.append((j.c, j.fx, o["label"], o["fail"]))
    for c in cs:
        if getattr(c, "native_only", False):
            continue
        for lab in sorted(labels_of(c) - got.get(c.name, set())):
            if not any(f[0] is c and f[2] == "<undecided>" for f in failed):
                failed.append((c, {}, lab, "obligation was not generated (unreachable)"))
    ncases = ndist = 0
    samples, nlab = [], {}
    for j in natives:
        r = j.res
        if "error" in r:
            if r["error"] != "no time left":
                failed.append((j.c, {}, "<native run>", r["error"]))
            continue
        ncases += r["n"] - r["skipped"]
        ndist += r["distinct"]
        if r["sample"]:
            samples.append({"contract": j.c.name, "input": r["sample"]})
        for k, v in r["labels"].items():
            nlab[k] = nlab.get(k, 0) + v
        for lab, det, inp in r["fails"]:
            viol.append((j.c, lab, det, inp))
    # ------------------------------------ counter-models, directed search
    if failed and not viol:
        rj = []
        for c, fx, lab, why in failed:
            if isinstance(why, dict) and why.get("model"):
                inp = model_inputs(c, fx, why["model"])
                if inp is not None:
                    j = Job(replay_job, (c, repr(inp)), HANG_S + 20)
                    j.c, j.inp = c, repr(inp)
                    rj.append(j)
        run_jobs(rj[:64], deadline)
        for j in rj[:64]:
            f = (j.res or {}).get("f")
            if f and f != ("assume",) and f[0] != "the call returns":
                viol.append((j.c, f[0], f[1], j.inp))
    if failed and not viol:
        bad = []
        for c, _, _, _ in failed:
            if c.gen and c not in bad:
                bad.append(c)
        others = [c for c in cs if c.gen and c not in bad]
        sj = []
        share = min(SEARCH_S, max(10, deadline - time.time() - 30))
        per = max(10, share * NPROC / max(1, max(NPROC, 2 * len(bad) + len(others))))
        reps = max(1, NPROC // max(1, len(bad) + len(others)))
        for r in range(max(2, reps)):
            for c in bad + (others if r == 0 else []):
                j = Job(native_job, (c, SEED * 1000 + 17 + r, per), per + HANG_S + 20)
                j.c = c
                sj.append(j)
        run_jobs(sj, deadline, stop=lambda j: bool((j.res or {}).get("fails")))
        for j in sj:
            for lab, det, inp in (j.res or {}).get("fails", []):
                viol.append((j.c, lab, det, inp))
    # ----------------------------------------------------------- verdict
    rc, nviol = 0, 0
    kept = []
    for c, lab, det, inp in viol:
        k = [x for x in known if x["contract"] == c.name and x["inputs"] == inp]
        if k:
            continue
        kept.append((c, lab, det, inp))
    for x in known:
        print(f"KNOWN-FINDING: property={pid} {x['what']}")
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    out = []
    if kept:
        c, lab, det, inp = kept[0]
        p = os.path.join(rdir, f"{pid}.json")
        with open(p, "w", encoding="utf-8") as f:
            json.dump({"property": pid, "contract": c.name, "obligation": lab, "detail": det, "inputs": inp,
                       "replay": f"python3-vt /verif/check.py --replay {p}",
                       "failed_obligations": [[q[0].name, q[2], str(q[3])[:1500]] for q in failed[:20]]}, f, indent=1)
        print(f"obligation '{lab}' of contract {c.name} fails on input {inp[:300]}: {det[:300]}")
        out.append(f"VIOLATION property={pid} replay={p}")
        rc, nviol = 1, len(kept)
    elif failed:
        p = os.path.join(rdir, f"{pid}.json")
        with open(p, "w", encoding="utf-8") as f:
            json.dump({"property": pid, "no_failing_input_found": True,
                       "failed_obligations": [{"contract": c.name, "fixed": {k: repr(v) for k, v in fx.items()},
                                               "obligation": lab, "verifier": why}
                                              for c, fx, lab, why in failed[:40]]}, f, indent=1, default=str)
        c, fx, lab, why = failed[0]
        print(f"obligation '{lab}' of contract {c.name} is not discharged: {str(why)[:500]}")
        out.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
        rc, nviol = 1, 1
    bounded = sorted({c.name + ": " + str(c.bounded) for c in cs if c.bounded})
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": LEVELS.get(pid, "proof"),
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"python3-vt /verif/check.py {pid}",
            "trusted_base": ["pyvc (verification condition generator in /verif/pyvc)",
                             "z3 " + z3_version() + ", cvc5 (back ends)",
                             "the CPython semantics of the modelled subset"] + sorted(used),
            "named_obligations": names,
            "contracts": sorted({c.name for c in cs}),
            "functions_under_contract": sorted(funcs),
            "functions_used_by_contract_only": sorted(contracted),
            "backends": backends, "solver_s": round(solver_s, 2), "solver_queries": queries,
            "paths": paths, "loop_invariants": invs,
            "bounded": bounded,
            "evaluations": ncases, "distinct_nontrivial": ndist,
            "rule": "native cross check of the same contracts on generated inputs; distinct inputs that meet "
                    "the precondition",
            "samples": samples[:6],
            "native_labels": nlab,
            "repo": repo_rev(),
        },
        "assumptions": ASSUMPTIONS + sorted(used),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {dis}/{obl} obligations discharged, {paths} paths, {ncases} native cases, "
          f"{time.time() - t0:.1f}s")
    for ln in out:
        print(ln)
    return rc


def z3_version():
    import z3
    return z3.get_version_string()


LEVELS = {}
ASSUMPTIONS = [
    "partial correctness: termination is not proved (a native input that does not return is reported)",
    "integers are mathematical (exact: Python's are)",
    "floats are treated as exact reals in the proofs; IEEE rounding is only cross-checked natively",
    "memory, recursion depth and asynchronous exceptions are not modelled",
]


def main(argv):
    if argv[:1] == ["--list"]:
        for c in load():
            print(",".join(c.pids), c.name)
        return 0
    if argv[:1] == ["--replay"]:
        with open(argv[1], encoding="utf-8") as f:
            d = json.load(f)
        if "inputs" not in d:
            print("no failing input recorded; failed obligations:", json.dumps(d["failed_obligations"], indent=1))
            return 1
        c = [c for c in load() if c.name == d["contract"]][0]
        f = native_one(c, eval_inputs(d["inputs"]))
        print("replay:", f)
        return 1 if f else 0
    try:
        return check(argv[0])
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
