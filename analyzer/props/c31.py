"""C31: the library can be imported and used with the same outcomes under each set of missing optional packages."""
import ast
import itertools
import os

from ..ctx import A, Check, SRC
from ..values import Obj, PyRaise
from . import ops as O

OPTIONAL = ("numba", "joblib", "skimage")
SETS = [s for k in range(4) for s in itertools.combinations(OPTIONAL, k)]
REFERENCE = ("joblib", "skimage")
BROKEN = ("ImportError", "ModuleNotFoundError", "NameError", "UnboundLocalError", "AttributeError")
PUBLIC = ("ZernPol", "ZernPSF", "generate_polynomials", "fit_polynomials", "generate_random_phases", "fit_polynomials_vectors", "generate_phases_image",
          "force_get_psf_compilation")
CHUNK = 23


def outcomes(a, o, rule, env):
    """[(trace, exception name or canonical result)] of an operation."""
    out = []

    def drv(it):
        d = o.make(a)
        r = o.run(a, d)
        return O.canon(a, r)
    for p in a.one(drv, rule, f"{o.name} {env}", 48):
        out.append((p, p.exc.name if p.exc is not None else None))
    return out


def paired(p, q):
    """Traces under compatible assumptions: the same guards decided in the same way (or no guards at all)."""
    f = lambda x: [(str(c), bool(v)) for c, v, _ in x.conds]
    return f(p) == f(q)


def warn_texts(p):
    return sorted(str(e) for e in p.warns())


def environment(a, missing, env):
    """Interpreter for the environment; a failing import is a violation."""
    try:
        return A(missing=missing, tier=a.tier)
    except PyRaise as e:
        a.bad("import", f"import of zernpy {env}", f"raises {e.exc!r}", str(getattr(e.exc, "loc", None)))
        return None


def unit(a, item):
    kind, missing, idx = item
    env = "without " + (", ".join(missing) or "nothing") if missing else "with all optional packages"
    b = a if tuple(sorted(missing)) == tuple(sorted(a.missing)) else environment(a, missing, env)
    if b is None:
        return None
    if kind == "import":
        for nm in PUBLIC:
            a.expect(b.mod.vars.get(nm) is not None, "import", f"{nm} {env}", "isn't available after the import", None)
        return merge(a, b)
    nonumba = "numba" in missing
    O.hooks(a); O.small_mesh(a)
    if b is not a:
        O.hooks(b); O.small_mesh(b)
    allops = O.all_ops()
    for o in (allops[i] for i in idx):
        got = outcomes(b, o, "operation", env)
        extra = 0
        if nonumba and o.tags & {"compile"}:
            for p, x in got:
                ok = x is None and p.result is None
                a.expect(ok, "compilation", f"{o.name} {env}", f"{'raises ' + repr(p.exc) if x else 'returns ' + str(p.result)[:80]} instead of None", b.path_where(p))
                if ok:
                    a.expect(bool(p.warns()), "compilation-warning", f"{o.name} {env}", "no warning about missing numba", b.path_where(p))
            continue
        same = o
        if nonumba and o.plain is not None:
            same = o.plain
            extra = int("accelerated=True" in o.name and "verbose=False" in o.name)
        ref = outcomes(a, same, "reference", "in the reference environment")
        for p, x in got:
            inst = f"{o.name} {env}"
            if x in BROKEN and not any(y == x for _, y in ref):
                a.bad("available", inst, f"fails with {p.exc!r}", b.path_where(p))
                continue
            a.ok("available")
            qs = [(q, y) for q, y in ref if paired(p, q)]
            if not qs:
                a.undecided("outcome", inst, "guards differ from the reference environment")
                continue
            q, y = qs[0]
            if x != y:
                a.bad("outcome", inst, f"{'raises ' + repr(p.exc) if x else 'returns'} instead of {'raising ' + y if y else 'returning a value'}", b.path_where(p))
                continue
            d = None if x else O.same(a, p, q.result, p.result)
            a.expect(d is None, "value", inst, f"differs from the reference environment: {d}", b.path_where(p))
            w, v = len(p.warns()), len(q.warns())
            if extra:
                a.expect(w > v, "fallback-warning", inst, "acceleration isn't possible but there's no warning", b.path_where(p))
            else:
                a.expect(w == v, "warnings", inst, f"{w} warnings instead of {v}", b.path_where(p))
    merge(a, b)


def merge(a, b):
    if b is a:
        return
    a.und += b.und
    a.npaths += b.npaths
    a.ncontexts += b.ncontexts
    a.it.steps += b.it.steps
    a.it.funcs_seen.update(b.it.funcs_seen)
    a.it.calls_seen.update(b.it.calls_seen)


# ---------------------------------------------------------------- imports of optional packages are guarded
def optional_imports(a, item):
    """Every module reachable from the package loads in the environment, so its unguarded imports are available ones."""
    b = environment(a, item, f"without {', '.join(item) or 'nothing'}")
    if b is None:
        return
    for name, m in sorted(b.it.modules.items()):
        a.expect(m.loaded, "module", f"{name} without {item}", "isn't loaded completely", None)
    merge(a, b)


def work(a, item):
    return {"mod": lambda: optional_imports(a, item[1]), "op": lambda: unit(a, item[1])}[item[0]]()


def check(tier):
    ck = Check("C31", tier, "module loading and outcomes (exception / canonical value / warnings) of every catalogued public operation under each of the 8 sets of missing "
               "{numba, joblib, skimage}, compared with the reference environment; without numba kernels equal the ones of accelerated=False, acceleration requests "
               "warn and forced compilation gives None with a warning", floor=3000,
               assumptions=["a missing package raises ModuleNotFoundError on import", "no third optional package exists"])
    n = len(O.all_ops())
    allops = O.all_ops()
    items = [("mod", s) for s in SETS] + [("op", ("import", s, ())) for s in SETS]
    for s in SETS:
        if "numba" in s or tier == "thorough":
            idx = list(range(n))
        else:       # numba is available: only operations of PSFs can depend on the remaining packages
            idx = [i for i, o in enumerate(allops) if o.tags & {"psf", "compile", "file", "plot"}]
        items += [("op", ("ops", s, tuple(idx[i::len(idx) // CHUNK + 1]))) for i in range(len(idx) // CHUNK + 1)]
    ck.units(work, items, missing=REFERENCE)
    return ck.finish()
