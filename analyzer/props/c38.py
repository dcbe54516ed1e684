"""C38: import and public operations have only their documented effects on the process and its environment."""
import ast

from ..ctx import A, Check
from ..values import PyRaise
from . import c29
from . import c31
from . import ops as O

#: calls changing settings of the whole process (dotted names after resolving import aliases)
SETTINGS = {
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "warnings.warn.__kwdefaults__", "numpy.seterr", "numpy.seterrcall", "numpy.setbufsize",
    "numpy.set_printoptions", "numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate", "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "os.nice",
    "os.chroot", "os.setuid", "os.setgid", "os.sched_setaffinity", "sys.setrecursionlimit", "sys.setswitchinterval", "sys.settrace", "sys.setprofile", "multiprocessing.set_start_method",
    "multiprocessing.set_executable", "multiprocessing.set_forkserver_preload", "matplotlib.use", "matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.style.use",
    "matplotlib.pyplot.rc", "matplotlib.pyplot.rcdefaults", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.style.use", "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update",
    "matplotlib.interactive", "locale.setlocale", "signal.signal", "logging.basicConfig", "logging.disable", "logging.captureWarnings", "gc.disable", "gc.set_threshold", "gc.freeze",
    "numba.set_num_threads", "numba.config.reload_config", "faulthandler.enable", "time.tzset", "socket.setdefaulttimeout", "os.environ.update", "os.environ.setdefault", "os.environ.pop",
    "os.environ.clear", "sys.path.append", "sys.path.insert", "sys.path.extend", "sys.path.remove", "sys.path.clear", "sys.exit", "os._exit", "os.abort", "os.kill", "os.killpg", "os.system", "os.remove",
    "os.rmdir", "os.removedirs", "shutil.rmtree", "os.fork", "multiprocessing.active_children",
}
#: process-wide objects which may not be assigned to (items or attributes), and modules whose attributes may not be replaced
SHARED = ("os.environ", "sys.path", "sys.modules", "sys.stdout", "sys.stderr", "sys.stdin", "sys.argv", "matplotlib.rcParams", "matplotlib.pyplot.rcParams", "numba.config", "warnings.filters",
          "sys.excepthook", "sys.displayhook", "builtins", "numpy", "warnings", "random", "math", "os", "matplotlib", "scipy", "multiprocessing", "json", "time")
DRAW = ("matplotlib", "mpl_toolkits")
PRINTS_ALWAYS = ("get_kernel_parallel", "save_json", "set_calculation_props", "ready")


# ---------------------------------------------------------------- syntactic pass
def aliases(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for x in n.names:
                out[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            for x in n.names:
                out[x.asname or x.name] = f"{n.module}.{x.name}"
    return out


def dotted(e, al):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id in al:
        return ".".join([al[e.id]] + parts[::-1])
    return None


def local_names(fn):
    """Names bound in the function itself (they hide imported ones unless imported there)."""
    a = fn.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    if not isinstance(fn, ast.Lambda):
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
    return names


def scan(a, tree, al, rel, restored=False, hidden=frozenset()):
    """Visit everything except blocks of scripts; `restored`: inside of a context restoring warning filters."""
    for n in ast.iter_child_nodes(tree):
        if isinstance(n, ast.If) and c29.is_main_guard(n):
            for s in n.orelse:
                scan(a, ast.Module([s], []), al, rel, restored, hidden)
            continue
        hid = hidden | (local_names(n) - set(aliases(n))) if isinstance(n, c29.FUNCS) else hidden
        al2 = {k: v for k, v in al.items() if k not in hid} if hid else al
        if isinstance(n, ast.With) and any((dotted(i.context_expr.func if isinstance(i.context_expr, ast.Call) else i.context_expr, al2) or "") in
                                           ("warnings.catch_warnings", "numpy.errstate", "numpy.printoptions", "matplotlib.rc_context", "matplotlib.pyplot.rc_context") for i in n.items):
            for s in n.body:
                scan(a, ast.Module([s], []), al, rel, True, hid)
            continue
        where = f"{rel}:{getattr(n, 'lineno', 0)}"
        if isinstance(n, ast.Call):
            d = dotted(n.func, al2)
            if d is not None:
                bad = d in SETTINGS and not (restored and d.split(".")[0] in ("warnings", "matplotlib", "numpy"))
                a.expect(not bad, "settings", f"call of {d} in {rel}", f"changes the whole process ({d})", where)
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                    d = dotted(x, al2) if isinstance(x, ast.Attribute) else None
                    b = dotted(x.value, al2)
                    hit = next((s for s in (d, b) if s in SHARED), None)
                    a.expect(hit is None, "settings", f"assignment in {rel}", f"replaces a part of {hit}, shared by the whole process", where)
        scan(a, n, al, rel, restored, hid)


def syntax(a, _):
    for mod, path in c29.module_files():
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
        scan(a, tree, aliases(tree), mod)


# ---------------------------------------------------------------- effects of traces
def effect(e):
    """Class of the effect of an event and its text, None - no effect."""
    k, d = e.kind, e.data
    if k == "fs":
        return ("read" if d[0] in ("read", "exists", "stat") else "write"), f"{d[0]} of {d[1]}"
    if k == "extcall":
        nm = str(d[0])
        if nm.startswith(DRAW):
            return ("draw", nm) if not nm.endswith((".isinteractive", ".get_backend", ".get_fignums")) else None
        return None
    if k == "opaquecall":
        t = str(d[0])
        return ("draw", t[:80]) if "fig" in t or "axes" in t or "mpl" in t or "matplotlib" in t else None
    if k == "mp_new":
        return ("process", str(d[0])) if str(d[0]) in ("Process", "Pool", "Thread", "ProcessPoolExecutor", "ThreadPoolExecutor") else ("queue", str(d[0]))
    if k == "mp":
        return "process", f"{d[0]}.{d[1]}"
    if k == "random":
        return ("seed" if d[0] == "seed" else "random"), f"{d[0]}"
    if k == "warnfilter":
        return "filter", "warning filters"
    if k == "print":
        return "print", str(d[0])[:100] if d else ""
    if k == "atexit":
        return "atexit", ""
    return None


#: effects of each class of operations
def allowed(o):
    t = o.tags
    out = set()
    nm = o.name
    if "plot" in t:
        out |= {"draw"}
    if "file" in t:
        out |= {"read"} | ({"write"} if nm.startswith("save_json") else set())
    if nm.startswith("read_json"):
        out |= {"read"}
    if "random" in t or nm.startswith("generate_random_phases"):
        out |= {"random"}
    if nm.startswith(("initialize_parallel_workers", "get_psf_point_r_parallel", "get_kernel_parallel", "deinitialize_workers")):
        out |= {"process", "queue", "atexit"}
    if "verbose=True" in nm or nm == "force_get_psf_compilation True" or nm.startswith(("get_kernel_parallel", "save_json", "set_calculation_props", "initialize_parallel_workers")):
        out |= {"print"}
    return out


def must_print(o):
    return "verbose=True" in o.name or o.name == "force_get_psf_compilation True"


def unit(a, item):
    kind, arg = item
    if kind == "syntax":
        return syntax(a, arg)
    if kind == "import":
        return imported(a, arg)
    O.hooks(a)
    O.small_mesh(a)
    allops = O.all_ops()
    for o in (allops[i] for i in arg):
        ok = allowed(o)

        def drv(it):
            d = o.make(a)
            it.event("begin")
            return o.run(a, d)
        for p in a.one(drv, "effects", o.name, 48):
            i = next((k for k, e in enumerate(p.events) if e.kind == "begin"), None)
            if i is None:
                a.undecided("effects", o.name, f"preparation fails: {p.exc!r}")
                continue
            seen = set()
            for e in p.events[i + 1:]:
                x = effect(e)
                if x is None or o.name.startswith("read_json") and "save_json" in str(e.stack):
                    continue        # the file was prepared by saving
                seen.add(x[0])
                a.expect(x[0] in ok, "effect-" + x[0], o.name, f"has the effect not documented for it: {x[0]} {x[1]}", str(e.loc))
            a.ok("effects")
            if must_print(o) and p.exc is None:
                a.expect("print" in seen, "verbose", o.name, "prints nothing although it was requested", a.path_where(p))


def imported(a, missing):
    env = "without " + (", ".join(missing) or "nothing")
    try:
        b = A(missing=missing, tier=a.tier)
    except PyRaise as e:
        return a.bad("import", f"import {env}", f"raises {e.exc!r}")
    for e in getattr(b.it, "import_events", b.it.events):
        x = effect(e)
        a.expect(x is None, "import-effect", f"import {env}", f"has the effect {x}", str(e.loc))
    a.ok("import")
    c31.merge(a, b)


def check(tier):
    ck = Check("C38", tier, "effect analysis: classes of effect events (files, drawing, processes, random draws, printing, process-wide settings) of all traces of catalogued operations and of the import against the documented ones; pass over all syntax trees for calls / assignments changing process-wide settings", 900)
    n = len(O.all_ops())
    step = 40
    items = [("syntax", None)] + [("import", m) for m in c31.SETS]
    items += [("ops", list(range(i, n, step))) for i in range(step)]
    ck.units(unit, items)
    return ck.finish()
