"""C21: files are written by saving only, into the requested place, and existing ones are replaced with permission only."""
from fractions import Fraction as F

from ..ctx import Check
from ..expr import sym
from ..values import SStr, PyRaise
from .. import expr as X
from . import kernel as K
from . import ops as O

c = O.c
POLS = {"single": ((1, 3),), "piston": ((0, 0),), "several": ((0, 2), (-1, 1)), "sequence of one": ((-2, 2),)}
CHANGES = ("write", "mkdir", "delete", "replace", "rename", "chmod", "symlink_to", "hardlink_to")


def plain(it, s):
    """Text of a path; several notations of the same path are unified."""
    if isinstance(s, SStr):
        s = "".join(q if isinstance(q, str) else "<" + repr(q).replace("/", ":") + ">" for q in s.parts)
    if not isinstance(s, str):
        return s
    s = s if s.startswith("/") else "/cwd/" + s
    out = []
    for q in s.split("/"):
        if q in ("", "."):
            continue
        if q == ".." and out:
            out.pop()
        else:
            out.append(q)
    return "/" + "/".join(out)


def make(a, kind, tag, co=F(1, 25)):
    pols = POLS[kind]
    zs = [a.zp(*x) for x in pols]
    z = a.new("ZernPSF", zernpol=zs[0] if kind in ("single", "piston") else tuple(zs))
    cs = [c(co / (i + 1)) for i in range(len(pols))]
    O.setp(a, z, cs[0] if len(cs) == 1 else a.lst(cs))
    O.small(a, z)
    a.it.setattr(z, "kernel", a.arr([sym(f"k21{tag}{i}", 0, 1) for i in range(9)], (3, 3)))
    return z


def diff(it, before, after):
    """(created files, changed files, vanished, created folders)"""
    new, chg, gone, dirs = [], [], [], []
    for k in set(before) | set(after):
        u, v = before.get(k), after.get(k)
        if u is None and v is not None:
            (dirs if v == "dir" else new).append(k)
        elif u is not None and v is None:
            gone.append(k)
        elif u is not None and not eqc(u, v):
            chg.append(k)
    return [[plain(it, k) for k in x] for x in (new, chg, gone, dirs)]


def eqc(u, v):
    return u is v or (type(u) is type(v) and repr(u) == repr(v))


def parent(p):
    return p.rpartition("/")[0]


def saving(a, item):
    """Save once, then save another object of the same polynomials (same file name) with the overwrite option."""
    kind, where, as_path, over, pkg, dflt = item
    inst = f"{kind} into {where!r}{' as Path' if as_path else ''}, overwrite={over}, package folder {'exists' if pkg else 'absent'}, default folder {'exists' if dflt else 'absent'}"

    def drv(it):
        fs = it.fs
        for d in ("/", "/cwd", "/data", "/data/sub", "/cwd/rel", "/other"):
            fs[d] = "dir"
        fs["/data/file.txt"] = ("text", "user data")
        fs["/data/notes.json"] = ("text", "{}")
        z = make(a, kind, "a")
        home = plain(it, a.at(z, "json_file_path"))
        fs[home] = "dir"
        if pkg:
            fs[home + "/saved_psfs"] = "dir"
        if dflt:
            fs["/cwd/saved_psfs"] = "dir"
        arg = where
        if as_path:
            arg = it.models["pathlib.Path"](it, [where], {})
        args = [] if where == "-" else [arg]
        out = []
        for step, z in enumerate((z, make(a, kind, "b"), make(a, kind, "c"))):
            kw = {} if over is None or step == 0 else {"overwrite": over}
            ref = None
            if step:        # what this object stores in an empty folder
                f0 = dict(fs)
                z2 = make(a, kind, "_bc"[step])
                a.m(z2, "save_json", "/other")
                n = diff(it, f0, it.fs)[0]
                ref = [it.fs[k] for k in it.fs if plain(it, k) in n]
                for k in [k for k in it.fs if plain(it, k) in n]:
                    it.fs[k] = None
            f0, ne = dict(it.fs), len(it.events)
            a.m(z, "save_json", *args, **kw)
            warn = [e for e in it.events[ne:] if e.kind == "warn"]
            out.append((diff(it, f0, it.fs), plain(it, a.at(z, "json_file_path")), bool(warn), {plain(it, k): v for k, v in it.fs.items() if v is not None}, ref))
        return home, out

    for p in a.one(drv, "saving", inst, 32):
        w = a.path_where(p)
        if p.exc is not None:
            a.bad("saving", inst, f"raises {p.exc!r}", w)
            continue
        home, out = p.result
        dflts = {home + "/saved_psfs", "/cwd/saved_psfs"}
        real = {"/data", "/data/sub", "/cwd/rel"}
        target = plain(a.it, where) if where not in ("-", "") else None
        folders = {target} if target in real else dflts
        (new, chg, gone, dirs), path, warn, fs, _ = out[0]
        a.expect(len(new) == 1 and not chg and not gone, "one file", inst, f"first saving creates {new}, changes {chg}, deletes {gone}", w)
        a.expect(all(d in dflts for d in dirs) and (not dirs or folders is dflts), "folders", inst, f"creates folders {dirs}", w)
        if len(new) != 1:
            continue
        f = new[0]
        a.expect(f.endswith(".json") and parent(f) in folders, "place", inst, f"file {f} isn't in {sorted(folders)}", w)
        a.expect(path == f, "reported path", inst, f"reports {path} instead of {f}", w)
        for k, ((new, chg, gone, dirs), path, warn, fs, ref) in enumerate(out[1:]):
            step = f"{inst}: saving {k + 2}"
            a.expect(not new and not gone and not dirs, "one file", step, f"creates {new} {dirs}, deletes {gone}", w)
            a.expect(path == f, "reported path", step, f"reports {path} instead of {f}", w)
            if over:
                a.expect(chg == [f] and len(ref) == 1 and eqc(fs[f], ref[0]), "replaced", step, f"changes {chg}, content {'differs from' if chg == [f] else 'is not'} the one of the saved object", w)
            else:
                a.expect(not chg, "untouched", step, f"existing file {chg} is changed without permission", w)
                a.expect(warn, "announced", step, "no warning about the existing file", w)


def sequence(a, item):
    """Several savings of one object with changed parameters / after loading: other files are never touched."""
    kind, steps = item
    inst = f"{kind}: {' '.join(steps)}"

    def drv(it):
        fs = it.fs
        for d in ("/", "/cwd", "/data", "/other"):
            fs[d] = "dir"
        z = make(a, kind, "a")
        out = []
        for s in steps:
            if s == "amplitude":
                pols = POLS[kind]
                cs = [c(F(3, 50) / (i + 1)) for i in range(len(pols))]
                O.setp(a, z, cs[0] if len(cs) == 1 else a.lst(cs))
                O.small(a, z)
                continue
            f0, ne = dict(it.fs), len(it.events)
            if s == "read":
                a.m(z, "read_json")
            elif s == "readother":
                a.m(z, "read_json", "/other/absent.json")
            elif s == "crop":
                a.m(z, "crop_kernel", c(F(1, 5)))
            else:
                a.m(z, "save_json", *([] if s in ("default", "default+") else ["/" + s.strip("+")]), **({"overwrite": True} if s.endswith("+") else {}))
            out.append((s, diff(it, f0, it.fs), plain(it, a.at(z, "json_file_path")), [k for k in f0 if f0[k] not in (None, "dir")]))
        return out
    for p in a.one(drv, "sequence", inst, 48):
        if p.exc is not None:
            a.bad("sequence", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        w = a.path_where(p)
        for k, (s, (new, chg, gone, dirs), path, old) in enumerate(p.result):
            where = f"{inst}: step {k} ({s})"
            if s in ("read", "readother", "crop"):
                a.expect(not (new or chg or gone or dirs), "reading", where, f"changes files {new + chg + gone + dirs}", w)
                continue
            a.expect(len(new) + len(chg) <= 1 and not gone, "one file", where, f"creates {new}, changes {chg}, deletes {gone}", w)
            if not s.endswith("+"):
                a.expect(not chg, "untouched", where, f"changes {chg} without permission", w)
            for f in new + chg:
                a.expect(f == path, "reported path", where, f"reports {path} instead of {f}", w)


def others(a, idx):
    """No other operation changes files."""
    O.hooks(a)
    O.small_mesh(a)
    allops = O.all_ops()
    for o in (allops[i] for i in idx):
        saves = "file" in o.tags

        def drv(it):
            d = o.make(a)
            f0 = dict(it.fs)
            r = None
            try:
                o.run(a, d)
            except PyRaise as e:
                r = e.exc
            return diff(it, f0, it.fs)
        for p in a.one(drv, "operation", o.name, 48):
            if p.exc is not None:
                a.bad("operation", o.name, f"raises {p.exc!r}", a.path_where(p))
                continue
            ev = [e for e in p.events if e.kind == "fs" and e.data[0] in CHANGES]
            ext = [e for e in p.events if e.kind == "extcall" and str(e.data[0]).rpartition(".")[2] in ("savefig", "save", "savez", "savetxt", "tofile", "dump", "imsave", "to_csv", "write_bytes", "copyfile", "makedirs", "mkdtemp", "system", "Popen")]
            if saves:
                a.expect(not [e for e in ev if e.data[0] in ("delete",)], "operation", o.name, "deletes files", a.path_where(p))
                continue
            a.expect(not ev and not ext, "no file effects", o.name, f"{(ev + ext)[0].kind if ev + ext else ''} {(ev + ext)[0].data[:2] if ev + ext else ''}", (ev + ext)[0].loc if ev + ext else None)
            a.expect(not any(p.result), "no file effects", o.name, f"file system differs: {p.result}", a.path_where(p))


def unit(a, item):
    {"s": saving, "q": sequence, "o": others}[item[0]](a, item[1])


def check(tier):
    ck = Check("C21", tier,
               "save_json is interpreted over a modelled file system for all combinations of the folder argument, existing folders and files and the overwrite option; the difference of the file systems before and after is judged. "
               "All other catalogue operations and the import of the package must have no write, delete, rename or folder-creating effects on any trace.",
               1500, "other", ["operations listed in analyzer/props/ops.py", "effects are recognised for open / os / pathlib / shutil / json / numpy / matplotlib calls"])
    items = []
    for kind in POLS:
        for where in ("/data", "/data/", "rel", "/data/sub", "-", "", "/absent", "/data/file.txt", "/absent/deeper"):
            for as_path in (False, True):
                if as_path and where in ("-", ""):
                    continue
                for over in (None, False, True):
                    full = kind in ("single", "several")
                    for pkg, dflt in ((False, False), (True, False), (False, True), (True, True)):
                        if (not full or where in ("/data/", "rel", "/data/sub", "/absent/deeper")) and (pkg, dflt) != (False, False):
                            continue
                        items.append(("s", (kind, where, as_path, over, pkg, dflt)))
    for kind in POLS:
        for st in ("data amplitude data", "data amplitude data+ data+", "default default+ amplitude default", "data read other amplitude other+", "data readother data+ crop data", "default read amplitude default+ data", "other data+ read data"):
            items.append(("q", (kind, st.split())))
    n = len(O.all_ops())
    items += [("o", list(range(i, n, 24))) for i in range(24)]
    ck.units(unit, items)
    return ck.finish()
