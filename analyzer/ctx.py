"""Obligation book-keeping and helpers shared by the property checks."""
import hashlib
import json
import multiprocessing
import os
import time
import traceback

from . import expr as X
from .expr import E, const, sym
from . import interp as _interp
from .interp import Interp, TimeUp, explore
from .thread import big_stack
from .values import (Arr, Cond, Exc, ExtObj, NT, Num, Obj, Opaque, PyDict, PyList, PyRaise, SStr, Unsupported)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZERNPY_REPO", "/repo")
SRC = os.path.join(REPO, "src")
ALWAYS_MISSING = ("joblib", "skimage")


class Recorder:
    """Collects decided obligations of one unit of analysis."""

    def __init__(self):
        self.okc = {}
        self.viol = []
        self.und = []
        self.known = []
        self.samples = []

    def ok(self, rule, inst=None):
        self.okc[rule] = self.okc.get(rule, 0) + 1
        if inst is not None and len(self.samples) < 3:
            self.samples.append(f"{rule}: {inst}")

    def bad(self, rule, construct, detail, where=None):
        self.viol.append({"rule": rule, "construct": str(construct), "detail": str(detail)[:900], "where": where})

    def undecided(self, rule, inst, why):
        self.und.append({"rule": rule, "instance": str(inst), "why": str(why)[:300]})

    def expect(self, cond, rule, construct, detail, where=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail, where)
        return bool(cond)


class A(Recorder):
    """One analysis context: an abstract interpreter over the current source plus a recorder."""

    def __init__(self, missing=ALWAYS_MISSING, tier="quick", **kw):
        INSTANCES.append(self)
        super().__init__()
        self.tier = tier
        self.missing = tuple(missing)
        self.it = Interp(root=SRC, missing=missing, **kw)
        self.it.fs_default = "absent"
        self.mod = self.it.load("zernpy")
        self.npaths = 0
        self.ncontexts = 0

    # ---------------- access to the analysed package
    def g(self, name):
        v = self.mod.vars.get(name)
        if v is None:
            raise AnchorLost(f"zernpy.{name}")
        return v

    def sub(self, modname, name=None):
        m = self.it.modules.get("zernpy." + modname)
        if m is None:
            raise AnchorLost("zernpy." + modname)
        if name is None:
            return m
        v = m.vars.get(name)
        if v is None:
            raise AnchorLost(f"zernpy.{modname}.{name}")
        return v

    def call(self, f, *args, **kw):
        return self.it.call(f, list(args), kw)

    def m(self, obj, name, *args, **kw):
        return self.it.call(self.it.getattr(obj, name), list(args), kw)

    def at(self, obj, name):
        return self.it.getattr(obj, name)

    def new(self, cls, **kw):
        return self.it.call(self.g(cls), [], kw)

    def zp(self, m, n):
        return self.it.call(self.g("ZernPol"), [], {"m": m, "n": n})

    # ---------------- exploration
    def run(self, drv, max_paths=64, keep_state=False):
        ps = explore(self.it, drv, max_paths, keep_state)
        self.npaths += len(ps)
        self.ncontexts += 1
        return ps

    def one(self, drv, rule, inst, max_paths=64, keep_state=False):
        """Traces of drv that were analysed; undecided ones are recorded."""
        ps = self.run(drv, max_paths, keep_state)
        good = []
        for p in ps:
            if p.error:
                self.undecided(rule, inst, p.error)
            else:
                good.append(p)
        return good

    # ---------------- values
    def fl(self, name, lo=None, hi=None, **kw):
        return Num(sym(name, lo, hi, **kw), "float")

    def it_(self, name, lo=None, hi=None):
        return Num(sym(name, lo, hi, integer=True), "int")

    def arr(self, elems, shape=None, dtype="float64", prov=None):
        es = [e if isinstance(e, E) else const(e) for e in elems]
        return self.it.mkarr(es, tuple(shape) if shape is not None else (len(es),), dtype, prov)

    def e(self, v):
        return self.it.e_of(v)

    def els(self, v):
        """Elements (E) of array or scalar."""
        if isinstance(v, Arr):
            return [self.it.el2e(x) for x in v.elems()]
        return [self.it.e_of(v)]

    def lst(self, items, prov=None):
        o = PyList(list(items), prov or "local", self.it.epoch, "check")
        return o

    def path_where(self, p):
        if p.exc is not None:
            return str(getattr(p.exc, "loc", None) or p.last)
        return str(p.last)

    # ---------------- comparison of normal forms under a trace's assumptions
    def equal(self, p, a, b, tol=None):
        return equal_on(p, a, b, tol)

    def report(self):
        return {"ok": self.okc, "viol": self.viol, "und": self.und, "known": self.known, "samples": self.samples,
                "funcs": dict(self.it.funcs_seen), "calls": [list(c) for c in self.it.calls_seen],
                "paths": self.npaths, "contexts": self.ncontexts, "steps": self.it.steps,
                "sources": {k: v[1] for k, v in self.it.sources.items()}}


class AnchorLost(Exception):
    pass


def cond_holds(p, env):
    memo = {}
    for c, v, _ in p.conds:
        if bool(c.holds(env, memo)) != bool(v):
            return False
    return True


def cond_opaque(p):
    return any(c.op == "opaque" for c, v, _ in p.conds)


def equal_on(p, a, b, tol=None, want=3, tries=60):
    """True / False / None(undecided): a == b for all values admitted by the trace p."""
    if a.t == b.t:
        return True
    tolm = X.mpmath.mpf(10)**-22 if tol is None else X.mpmath.mpf(tol)
    so, sl = dict(X.OVER), dict(X.LINOVER)
    hits = 0
    try:
        if p is not None and p.over:
            X.OVER.clear(); X.OVER.update(p.over[0])
            X.LINOVER.clear(); X.LINOVER.update(p.over[1])
        if a.is_const() and b.is_const() and tol is None:
            return False
        lin = [(c, v) for c, v, _ in p.conds if c.op != "opaque"] if p is not None else []
        if X.is_constant(a) and X.is_constant(b):
            return bool(abs(X.numeric(a) - X.numeric(b)) <= tolm * (1 + abs(X.numeric(b))))
        for s in range(tries):
            env = X.sampler(s)
            try:
                memo = {}
                if any(bool(c.holds(env, memo)) != bool(v) for c, v in lin):
                    continue
                x = X.evalE(a, env, {})
                y = X.evalE(b, env, {})
            except ZeroDivisionError:
                continue
            if X.mpmath.isnan(X._r(x)) and X.mpmath.isnan(X._r(y)):
                hits += 1
            elif not X.mpmath.isfinite(abs(x)) or not X.mpmath.isfinite(abs(y)):
                if x != y:
                    return False
                hits += 1
            elif abs(x - y) > tolm * (1 + max(abs(x), abs(y))):
                return False
            else:
                hits += 1
            if hits >= want:
                return True
        if hits:
            return True
        # no sample satisfies the guards of the trace (it may be infeasible): identity without guards suffices
        return True if X.equal(a, b, 4, None if tol is None else tolm) else None
    finally:
        X.OVER.clear(); X.OVER.update(so)
        X.LINOVER.clear(); X.LINOVER.update(sl)


def env_of(vals):
    """Environment for evaluation at a representative point (dict name -> number)."""
    def env(a):
        n = a.args[0]
        if n in vals:
            v = vals[n]
            if isinstance(v, int):
                return X.mpmath.mpf(v)
            if hasattr(v, "numerator") and not isinstance(v, float):
                return X.mpmath.mpf(v.numerator) / v.denominator
            return X.mpmath.mpf(v)
        return X.sampler(0)(a)
    return env


def pick(paths, vals):
    """Trace of the decision table whose guard conditions hold in the point."""
    env = env_of(vals)
    return [p for p in paths if not p.error and cond_holds(p, env)]


def show(e, limit=8):
    try:
        return X.estr(e, limit)
    except Exception:
        return str(e)


# ------------------------------------------------------------------ parallel execution of units
INSTANCES = []          # contexts created by the running unit
LIMITS = {"quick": 660, "thorough": 5000}


def _unit(job):
    fn, item, missing, tier, end = job
    out = {"item": str(item)[:120]}
    t0 = time.time()
    _interp.DEADLINE = end
    del INSTANCES[:]

    def go():
        a = None
        try:
            a = A(missing=missing, tier=tier)
            fn(a, item)
        except TimeUp:
            out["timeup"] = True
            if a is None:
                return
            a.undecided("unit", str(item)[:120], "time limit of the check")
            for b in INSTANCES:
                if b is not a:
                    a.viol += [v for v in b.viol if v not in a.viol]
        except AnchorLost as e:
            out["anchor"] = str(e)
        except (PyRaise, Unsupported, X.TooBig) as e:
            if a is None:
                raise
            a.undecided("unit", item, f"{type(e).__name__} {getattr(e, 'exc', e)}")
        except Exception as e:      # failure of the analyser: what was decided before stays
            if a is None:
                raise
            out["crash"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
        if a is not None:
            out["rep"] = a.report()
    try:
        big_stack(go)
    except AnchorLost as e:
        out["anchor"] = str(e)
    except PyRaise as e:
        out["loadfail"] = f"loading the package raises {e.exc!r}"
    except Unsupported as e:
        out["loaderr"] = f"{e}"
    except BaseException as e:  # analysis failure, reported as check error
        out["crash"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    out["t"] = time.time() - t0
    return out


class Check:
    def __init__(self, pid, tier, rule_text, floor, level="other", assumptions=()):
        self.pid, self.tier, self.rule_text, self.floor, self.level = pid, tier, rule_text, floor, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.ok = {}
        self.viol, self.und, self.samples = [], [], []
        self.funcs, self.calls, self.sources = {}, set(), {}
        self.paths = self.contexts = self.steps = 0
        self.errors = []
        self.extra = {}
        self.start = time.monotonic()
        self.cut = 0            # units which were not analysed in the time limit

    def units(self, fn, items, missing=ALWAYS_MISSING, procs=8):
        """Analyse fn(a, item) for all items, in parallel processes."""
        items = list(items)
        end = self.start + LIMITS[self.tier]
        jobs = [(fn, i, tuple(missing), self.tier, end) for i in items]
        if procs > 1 and len(jobs) > 1:
            ctx = multiprocessing.get_context("fork")
            found = 0
            with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=4) as pool:
                outs, it = [], pool.imap_unordered(_unit, jobs, chunksize=1)
                for _ in jobs:
                    # after a found violation the rest gets a short time only; everything ends before the limit
                    stop = min(end + 40, max(found + 60, self.start + 150)) if found else end + 40
                    try:
                        o = it.next(max(stop - time.monotonic(), 0.5))
                    except multiprocessing.TimeoutError:
                        self.cut += len(jobs) - len(outs)
                        break
                    outs.append(o)
                    if not found and o.get("rep") and o["rep"]["viol"]:
                        found = time.monotonic()
                pool.terminate()
        else:
            outs = [_unit(j) for j in jobs]
        if os.environ.get("VERIF_PROFILE"):
            for o in sorted(outs, key=lambda o: -o.get("t", 0))[:12]:
                print(round(o.get("t", 0), 2), o["item"])
        for o in outs:
            self.merge(o)

    def merge(self, o):
        self.cut += bool(o.get("timeup"))
        if "anchor" in o:
            self.errors.append("anchor vanished: " + o["anchor"])
        if "crash" in o:
            self.und.append({"rule": "unit", "instance": o.get("item", ""), "why": "analysis crashed: " + o["crash"]})
        if "loaderr" in o:
            self.errors.append("package cannot be analysed: " + o["loaderr"])
        if "loadfail" in o:
            self.viol.append({"rule": "load", "construct": "import zernpy", "detail": o["loadfail"], "where": None})
        r = o.get("rep")
        if not r:
            return
        for k, v in r["ok"].items():
            self.ok[k] = self.ok.get(k, 0) + v
        self.viol += r["viol"]
        self.und += r["und"]
        self.samples += r["samples"][:2]
        self.funcs.update(r["funcs"])
        self.calls.update(tuple(c) for c in r["calls"])
        self.sources.update(r["sources"])
        self.paths += r["paths"]
        self.contexts += r["contexts"]
        self.steps += r["steps"]

    def finish(self):
        import sys
        known = load_known(self.pid)
        new, kn = {}, {}
        for v in self.viol:
            key = (v["rule"], v["construct"])
            hit = next((k for k in known if k["rule"] == v["rule"] and k["construct"] == v["construct"]), None)
            (kn if hit else new).setdefault(key, v)
        decided = sum(self.ok.values()) + len(self.viol)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": self.level,
            "coverage": {
                "explanation": self.rule_text,
                "obligations_decided_holding": dict(sorted(self.ok.items())),
                "obligations_total_decided": decided,
                "obligations_undecided": len(self.und), "units_cut_by_time_limit": self.cut,
                "undecided_samples": self.und[:8],
                "confirmed_floor": self.floor,
                "analysed_contexts": self.contexts, "abstract_traces": self.paths, "ast_steps": self.steps,
                "functions_analysed": sorted(f"{f} ({os.path.basename(p)})" for f, p in self.funcs.items())[:200],
                "functions_analysed_count": len(self.funcs),
                "call_sites_resolved": len(self.calls),
                "sources": self.sources,
                "samples": self.samples[:12] or ["none"],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": [{"rule": k[0], "construct": k[1], **{x: v[x] for x in ("detail", "where")}} for k, v in list(new.items())[:50]],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid}: {decided} obligations decided ({len(self.und)} undecided), {self.contexts} contexts, "
              f"{self.paths} traces, {len(self.funcs)} functions, {len(self.calls)} call sites, {ev['wall_s']} s")
        for k, v in kn.items():
            print(f"KNOWN-FINDING: property={self.pid} {v['rule']} {v['construct']}: {v['detail']}")
        if new:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.json")
            with open(rp, "w") as f:
                json.dump(ev["violations"], f, indent=1, default=str)
            for k, v in list(new.items())[:10]:
                print(f"  [{k[0]}] {k[1]}: {v['detail']} (at {v['where']})")
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.stdout.flush()
            return 1
        for u in self.und[:5]:
            print(f"  undecided [{u['rule']}] {u['instance']}: {u['why']}")
        if self.errors:
            for e in self.errors[:5]:
                print("  error:", e)
            return 2
        if self.cut:
            print(f"  time limit: {self.cut} units are not analysed completely")
        elif decided < self.floor:
            print(f"  error: only {decided} obligations decided, confirmed floor is {self.floor}")
            return 2
        return 0


def load_known(pid):
    r = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("finding: property=" + pid + " "):
                d = json.loads(line.split(" ", 2)[2])
                r.append(d)
    return r
