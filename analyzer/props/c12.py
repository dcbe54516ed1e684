"""C12: provided containers are neither modified nor retained."""
from ..ctx import Check
from ..values import Buf, Obj
from . import ops as O

KINDS = ("Buf", "PyList", "PyDict", "PySet")


def unit(a, idx):
    O.hooks(a)
    O.small_mesh(a)
    allops = O.all_ops()
    for o in (allops[i] for i in idx):
        box = {}

        def drv(it):
            d = o.make(a)
            box["d"] = d
            for v in d.values():
                O.mark(v, "input")
            before = {k: O.content(v) for k, v in d.items()}
            r = o.run(a, d)
            return d, before, r
        for p in a.one(drv, "operation", o.name, 64):
            w = a.path_where(p)
            muts = [e for e in p.events if e.kind == "mutate" and e.data[0] == "input" and e.data[1] in KINDS]
            a.expect(not muts, "not-modified", o.name, f"a provided {muts[0].data[1] if muts else ''} is modified at {muts[0].loc if muts else ''}", muts[0].loc if muts else None)
            if p.exc is not None:
                continue
            d, before, r = p.result
            for k, v in d.items():
                a.expect(O.content(v) == before[k], "content", f"{o.name}: {k}", "content of the provided argument is changed", w)
            res = O.reach(r)
            for k, v in d.items():
                mine = {i: x for i, x in O.reach(v).items() if not isinstance(x, Obj)}
                inner = set()
                for x in O.reach(v).values():      # objects belong to the caller as a whole
                    if isinstance(x, Obj):
                        inner |= set(O.reach(list(x.attrs.values())))
                hit = [x for i, x in mine.items() if i in res and i not in inner]
                a.expect(not hit, "not-retained", f"{o.name}: {k}", f"result shares the {type(hit[0]).__name__ if hit else ''} of the provided argument", w)


def check(tier):
    ck = Check("C12", tier,
               "Every operation of the public catalogue is interpreted with its arguments' containers marked as provided by the caller: no store into a marked list / array buffer may occur on any trace, "
               "and no container reachable from the result (or from the created object) may be one of the marked ones.",
               1500, "other", ["catalogue of operations and argument kinds listed in analyzer/props/ops.py", "numpy functions return copies or views as modelled"])
    n = len(O.all_ops())
    ck.units(unit, [list(range(i, n, 32)) for i in range(32)])
    return ck.finish()
