"""Completeness audit (not a check): which statements of the package no analysis of a property interprets.

python3-vt tools/cov.py C01 C02 ... : statements interpreted by the checks are collected under /tmp/cov/<id>;
python3-vt tools/cov.py report      : statements of the package missing in all collected sets.
"""
import ast
import glob
import importlib
import os
import pickle
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = "/tmp/cov"
SRC = "/repo/src/zernpy"


def collect(pid):
    from analyzer import ctx, interp
    seen = set()
    old = interp.Interp.stmt

    def stmt(self, s, cell):
        seen.add((self.frames[-1].file, s.lineno))
        return old(self, s, cell)
    interp.Interp.stmt = stmt
    unit = ctx._unit

    def cov_unit(job):
        r = unit(job)
        with open(f"{OUT}/{pid}.{os.getpid()}.{len(os.listdir(OUT))}", "wb") as f:
            pickle.dump(seen, f)
        return r
    cov_unit.__name__ = cov_unit.__qualname__ = "_unit"
    cov_unit.__module__ = "analyzer.ctx"
    ctx._unit = cov_unit
    importlib.import_module("analyzer.props." + pid.lower()).check("quick")


def report():
    seen = set()
    for f in glob.glob(OUT + "/C*"):
        seen |= pickle.load(open(f, "rb"))
    files = {os.path.basename(f) for f, _ in seen}
    for root, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if f.endswith(".py") and "tests" not in root and f in files:
                src = open(os.path.join(root, f)).read()
                t = ast.parse(src)
                hit = {l for g, l in seen if os.path.basename(g) == f}
                skip = [n for n in t.body if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test)]
                for fn in [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]:
                    body = [s for b in fn.body for s in ast.walk(b) if isinstance(s, ast.stmt)]
                    if not any(s.lineno in hit for s in body):
                        continue
                    for s in body:
                        if s.lineno not in hit and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            print(f"{f}:{s.lineno} {fn.name}: {ast.unparse(s).splitlines()[0][:110]}")


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "report":
        report()
    else:
        for p in sys.argv[1:]:
            if os.fork() == 0:
                sys.stdout = open(os.devnull, "w")
                collect(p)
                os._exit(0)
            os.wait()
