"""C25: the worker pool returns results in the order of parameters for every completion order and can be reused and released."""
from fractions import Fraction as F

from ..ctx import Check
from ..expr import sym
from ..procs import World
from . import kernel as K
from ..values import ExtRef, Num, PyList, PyRaise
from .. import expr as X

DM = ("utils.intmproc", "DispenserManager")


def func(a):
    """A computing function of the check: f(x) = x^2 + 1."""
    a.it.ext_hooks["check.compute"] = lambda it, args, kw: Num(X.add(X.mul(it.e_of(args[0]), it.e_of(args[0])), X.const(1)), "float")
    return ExtRef("check.compute")


def params(a, tag, k):
    return [a.fl(f"c25_{tag}{i}", 1, 2) for i in range(k)]


def traces(a, drv, rule, inst, max_paths):
    """Analysed traces; a trace on which a process waits for ever is a violation."""
    good = []
    for p in a.run(drv, max_paths):
        if p.error and p.error.startswith("Hang"):
            a.bad(rule, inst, p.error[6:], p.last)
        elif p.error and p.error.startswith("more than"):
            continue
        elif p.error:
            a.undecided(rule, inst, p.error)
        else:
            good.append(p)
    return good


def warned(a, fn):
    n = len(a.it.events)
    r = fn()
    return r, any(e.kind == "warn" for e in a.it.events[n:])


def check_results(a, p, rule, inst, res, ps):
    if isinstance(res, PyList):
        res = list(res.items)
    if not isinstance(res, (list, tuple)) or len(res) != len(ps):
        return a.bad(rule, inst, f"{len(ps)} parameters give {res if not isinstance(res, (list, tuple)) else len(res)} results", a.path_where(p))
    for i, (r, q) in enumerate(zip(res, ps)):
        want = X.add(X.mul(a.e(q), a.e(q)), X.const(1))
        ok = isinstance(r, Num) and a.equal(p, r.e, want)
        if not ok:
            return a.bad(rule, inst, f"result {i} isn't the one of parameter {i}: {r!r}"[:200], a.path_where(p))
    a.ok(rule, inst)


def start(a, ps, n, **kw):
    return a.call(a.sub(*DM), compute_func=func(a), params_list=a.lst(ps), n_workers=n, **kw)


def pool_history(a, item):
    """compute, compute again, update (other number), compute, close, further requests, second close, new pool."""
    mode, n, lens, verbose = item
    inst = f"{n} workers, {mode} schedule, {'/'.join(map(str, lens))} parameters{', verbose' if verbose else ''}"
    vectors = [params(a, f"v{j}_", k) for j, k in enumerate(lens)]

    def drv(it):
        w = World(it, mode)
        out = []
        try:
            m = start(a, vectors[0], n, verbose_info=verbose)
            for j, v in enumerate(vectors):
                if j:
                    a.m(m, "update_params", a.lst(v))
                r = a.m(m, "compute")
                out.append(("result", j, list(r.items) if isinstance(r, PyList) else r))
                k = sum(1 for p in w.procs if p.status == "done")
                out.append(("alive", j, k))
            started = len(w.procs)
            if mode == "eager":
                r = a.m(m, "compute")
                out.append(("again", len(vectors) - 1, list(r.items) if isinstance(r, PyList) else r))
            a.m(m, "close")
            for p in w.procs:
                w.run_out(p)
            out.append(("closed", started, [p.status for p in w.procs], [repr(p.exc) for p in w.procs if p.exc]))
            r, s = warned(a, lambda: a.m(m, "compute"))
            out.append(("after", r, s))
            if mode == "eager":
                try:
                    a.m(m, "update_params", a.lst(vectors[0]))
                    r, s = warned(a, lambda: a.m(m, "compute"))
                    out.append(("after", r, s))
                    a.m(m, "close")
                    out.append(("close twice", None))
                except PyRaise as e:
                    out.append(("close twice", e.exc))
                m2 = start(a, vectors[-1], n)
                r = a.m(m2, "compute")
                out.append(("new pool", len(vectors) - 1, list(r.items) if isinstance(r, PyList) else r))
                a.m(m2, "close")
                for p in w.procs:
                    w.run_out(p)
                out.append(("closed", len(w.procs), [p.status for p in w.procs], [repr(p.exc) for p in w.procs if p.exc]))
        finally:
            w.kill()
        return out
    for p in traces(a, drv, "pool", inst, 1500 if a.tier == "quick" else 8000):
        if p.exc is not None:
            a.bad("pool", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        for x in p.result:
            if x[0] in ("result", "again", "new pool"):
                check_results(a, p, x[0], inst, x[2], vectors[x[1]])
            elif x[0] == "alive":
                a.expect(x[2] == 0, "workers stay", inst, f"{x[2]} workers ended before releasing", a.path_where(p))
            elif x[0] == "closed":
                a.expect(x[1] > 0 and all(s == "done" for s in x[2]) and not x[3], "workers stopped", inst, f"after releasing the workers are {x[2]} {x[3]}", a.path_where(p))
            elif x[0] == "after":
                a.expect(x[1] is None and x[2], "released pool", inst, f"computation after releasing gives {x[1]!r} and {'a' if x[2] else 'no'} warning", a.path_where(p))
            else:
                a.expect(x[1] is None, "released pool", inst, f"releasing twice raises {x[1]!r}", a.path_where(p))


def rejected(a, item):
    """Parameter lists that are empty or shorter than the number of workers."""
    n, k, where = item
    inst = f"{k} parameters for {n} workers in {where}"
    v0 = params(a, "w", n + 1)
    bad = params(a, "x", k)

    def drv(it):
        w = World(it, "eager")
        try:
            if where == "constructor":
                try:
                    start(a, bad, n)
                except PyRaise as e:
                    return e.exc, None, len(w.procs)
                return None, None, len(w.procs)
            m = start(a, v0, n)
            exc = None
            try:
                a.m(m, "update_params", a.lst(bad))
            except PyRaise as e:
                exc = e.exc
            r = a.m(m, "compute")
            return exc, list(r.items) if isinstance(r, PyList) else r, 0
        finally:
            w.kill()
    for p in traces(a, drv, "rejected", inst, 64):
        if p.exc is not None:
            a.bad("rejected", inst, f"raises {p.exc!r} in a valid operation", a.path_where(p))
            continue
        exc, r, nw = p.result
        if k >= n:
            a.expect(exc is None, "accepted", inst, f"raises {exc!r}", a.path_where(p))
            if where != "constructor":
                check_results(a, p, "accepted", inst, r, bad)
            continue
        a.expect(exc is not None and isinstance(getattr(exc.cls, "t", None), type) and issubclass(exc.cls.t, (TypeError, ValueError)), "rejected", inst, f"list is accepted or fails otherwise: {exc!r}", a.path_where(p))
        a.expect(nw == 0, "rejected", inst, "workers are started for a rejected list", a.path_where(p))
        if where != "constructor":
            check_results(a, p, "rejected keeps", inst, r, v0)


def two_pools(a, item):
    """Two pools in use at the same time, the first one is released before the second computes."""
    mode, order = item
    inst = f"two pools, {mode}, {order}"
    v1, v2, v3 = params(a, "p", 3), params(a, "q", 4), params(a, "s", 2)

    def drv(it):
        w = World(it, mode)
        out = []
        try:
            m1 = start(a, v1, 2)
            m2 = start(a, v2, 2)
            for o in order:
                if o == "1":
                    out.append((v1, a.m(m1, "compute")))
                elif o == "2":
                    out.append((v2, a.m(m2, "compute")))
                elif o == "u":
                    a.m(m1, "update_params", a.lst(v3))
                elif o == "3":
                    out.append((v3, a.m(m1, "compute")))
                elif o == "c":
                    a.m(m1, "close")
            return [(v, list(r.items) if isinstance(r, PyList) else r) for v, r in out]
        finally:
            w.kill()
    for p in traces(a, drv, "two pools", inst, 64):
        if p.exc is not None:
            a.bad("two pools", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        for v, r in p.result:
            check_results(a, p, "two pools", inst, r, v)


def psf_pool(a, item):
    """Workers of a PSF object: initialize, kernels with changing parameters, release, requests afterwards, new workers."""
    seq, mode = item
    pol = (-2, 2)
    inst = f"PSF object, {' '.join(seq)}, {mode}"
    other = [sym("c25_other", F(61, 1000), F(63, 1000))]
    nr, nphi = 2, 10

    def drv(it):
        w = World(it, mode)
        out = []
        try:
            z = K.psf(a, [pol])
            K.setn(a, z, 3, nr, nphi)
            co, n = K.CO[:1], nphi
            for s in seq:
                if s == "init":
                    a.m(z, "initialize_parallel_workers")
                elif s == "kernel":
                    r = a.m(z, "get_kernel_parallel", normalize_values=False)
                    out.append(("kernel", a.els(r), list(co), n, sum(p.status != "done" for p in w.procs)))
                elif s == "props":
                    co = other
                    a.m(z, "set_physical_props", NA=K.fl(K.NA), wavelength=K.fl(K.WL), expansion_coeff=K.fl(co[0]), pixel_physical_size=K.fl(K.PX))
                    K.setn(a, z, 3, nr, n)
                elif s == "points":
                    n = 14
                    K.setn(a, z, 3, nr, n)
                elif s == "release":
                    a.m(z, "deinitialize_workers")
                    for p in w.procs:
                        w.run_out(p)
                    out.append(("released", [p.status for p in w.procs], [repr(p.exc) for p in w.procs if p.exc]))
            return out
        finally:
            w.kill()
    for p in traces(a, drv, "psf workers", inst, 64):
        if p.exc is not None:
            a.bad("psf workers", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        for k, x in enumerate(p.result):
            if x[0] == "released":
                a.expect(all(s == "done" for s in x[1]) and not x[2], "psf workers stopped", inst, f"after releasing the workers are {x[1]} {x[2]}", a.path_where(p))
                continue
            al = K.alphas(1, coeffs=x[2])
            for i in range(3):
                for j in range(3):
                    want = K.point([pol], al, K.distance(3, i, j), K.geometry(3, i, j)[1], nr, x[3])
                    a.expect(a.equal(p, x[1][3 * i + j], want), "psf workers", inst, f"pixel {(i, j)} of kernel {k} isn't the value of the set parameters", a.path_where(p))


def unit(a, item):
    {"psf": lambda a, i: psf_pool(a, i[0]), "pool": pool_history, "rejected": rejected, "two": two_pools}[item[0]](a, item[1:] if item[0] != "two" else item[1:])


def check(tier):
    c = Check("C25", tier, "manager and worker processes are interpreted together; how far each worker has progressed when the manager observes it is enumerated; "
              "results, order, release and reuse are judged on every trace", 100,
              assumptions=["multiprocessing queues deliver items in order", "worker processes are started by fork", "worker processes aren't killed from outside"])
    items = [("pool", m, n, ls, v) for m, n, ls, v in [
        ("eager", 2, (2, 5, 3), False), ("eager", 2, (5, 2), True), ("eager", 3, (7, 3, 4), False), ("eager", 4, (4, 9), False), ("eager", 8, (8, 11), True),
        ("lazy", 2, (5, 3), False), ("lazy", 3, (4, 7), True), ("lazy", 4, (10, 4), False), ("coarse", 2, (5,), False), ("coarse", 2, (2, 4), False),
        ("coarse", 3, (4,), False), ("fine", 2, (3,), False), ("fine", 2, (2, 3), False)]]
    items += [("pool", m, n, ls, v) for m, n, ls, v in [("eager", 5, (23, 7, 41), False), ("lazy", 6, (25, 13), True), ("eager", 12, (30, 12), False), ("eager", 3, (64,), False),
                                                        ("lazy", 2, (40,), False), ("eager", 2, (3, 4, 5, 6, 7, 8), False), ("lazy", 3, (6, 6, 6, 6), False)]]
    items += [("rejected", n, k, w) for n in (2, 4) for k in (0, 1, n - 1, n) for w in ("constructor", "update")]
    items += [("two", m, o) for m in ("eager", "lazy") for o in ("12", "21", "1c2", "u23", "2u3c2", "u3u2c2")]
    items += [("psf", (s.split(), m)) for m, s in (
        ("eager", "init kernel release"), ("lazy", "init kernel kernel release release"), ("eager", "init kernel props kernel release kernel"),
        ("lazy", "init init kernel points kernel release init kernel release"), ("eager", "release kernel init kernel points props kernel release"))]
    c.units(unit, items)
    return c.finish()
