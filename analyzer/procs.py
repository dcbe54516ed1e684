"""Abstract co-execution of worker processes: their bodies are interpreted step-wise between the operations of the manager.

A worker is advanced by one operation on a shared object (event, queue) at a time; how far it has progressed when the manager
observes something of it is a choice point, so the traces cover the relative speeds of the workers.
"""
import threading

from .values import Arr, Bound, Cond, Exc, NOTIMPL, Obj, PyDict, PyList, PyRaise, Unsupported

FIELDS = ("frames", "cur_prov", "yields", "exc_stack", "recursion")


class Hang(Unsupported):
    """The manager (or a worker) waits for ever on this trace."""


class _Kill(BaseException):
    pass


class Proc:
    def __init__(self, world, obj):
        self.w, self.obj = world, obj
        self.sem = threading.Semaphore(0)
        self.status = "ready"       # ready / blocked / done
        self.exc = self.error = None
        self.killed = False
        self.ctx = {"frames": [], "cur_prov": None, "yields": [], "exc_stack": [], "recursion": {}}
        self.waiting = None
        self.ops = []
        old = threading.stack_size(128 * 1024 * 1024)
        self.t = threading.Thread(target=self.body, daemon=True)
        self.t.start()
        threading.stack_size(old)

    def body(self):
        self.sem.acquire()
        try:
            if not self.killed:
                it = self.w.it
                it.call(it.getattr(self.obj, "run"), [], {})
        except PyRaise as e:
            self.exc = e.exc
        except _Kill:
            pass
        except BaseException as e:      # reported in the manager's context
            self.error = e
        self.status = "done"
        self.w.sem.release()

    def pause(self):
        self.w.sem.release()
        self.sem.acquire()
        if self.killed:
            raise _Kill()


class Item:
    def __init__(self, v, by):
        self.v, self.by, self.seen, self.missed = v, by, False, False


class World:
    """mp_env of an interpreter for one trace."""

    def __init__(self, it, mode="eager", defer=1, owners_only=True):
        self.it, self.mode, self.defer = it, mode, defer
        self.sem = threading.Semaphore(0)
        self.procs = []
        self.cur = None
        self.idle = 0
        self.deferred = {}
        self.n = 0
        self.slept = 0
        it.mp_env = self

    # ---------------------------------------------------------------- switching
    def resume(self, p):
        it = self.it
        saved = {k: getattr(it, k) for k in FIELDS}
        for k, v in p.ctx.items():
            setattr(it, k, v)
        self.cur = p
        p.sem.release()
        self.sem.acquire()
        self.cur = None
        p.ctx = {k: getattr(it, k) for k in FIELDS}
        for k, v in saved.items():
            setattr(it, k, v)
        if p.error is not None:
            raise p.error

    def runnable(self, p):
        return p.status == "ready" or (p.status == "blocked" and p.waiting())

    def sleep(self):
        """Pauses of the manager without any effect on (or of) the workers in between."""
        if self.cur is None:
            self.slept += 1
            if self.slept > 5000:
                raise Hang(f"waiting for ever at {self.it.loc()}")

    def step(self, p):
        self.idle = self.slept = 0
        p.status = "ready"
        self.resume(p)

    def run_out(self, p):
        k = 0
        while self.runnable(p):
            self.step(p)
            k += 1
            if k > 100000:
                raise Hang("worker process never waits")

    def kill(self):
        for p in self.procs:
            if p.status != "done":
                p.killed = True
                p.sem.release()
                p.t.join(5)
        self.it.mp_env = None

    # ---------------------------------------------------------------- choices
    def choose(self, what):
        self.n += 1
        return self.it.decide(Cond("opaque", ("schedule", what, self.n)))

    def observe(self, o):
        """The manager looks at something of the workers which use o."""
        ps = [p for p in self.procs if o is None or p.obj is o or uses(p.obj, o)]
        act = False
        for p in ps:
            if not self.runnable(p):
                continue
            act = True
            i = self.procs.index(p)
            if self.mode == "eager":
                self.run_out(p)
            elif self.mode == "lazy":
                if self.deferred.get(i, 0) >= self.defer:
                    self.run_out(p)
                    self.deferred[i] = 0
                else:
                    self.deferred[i] = self.deferred.get(i, 0) + 1
            elif self.deferred.get(i, 0) >= self.defer:
                self.run_out(p)
                self.deferred[i] = 0
            elif self.mode == "coarse":
                if self.choose(f"worker {i} is finished"):
                    self.run_out(p)
                    self.deferred[i] = 0
                else:
                    self.deferred[i] = self.deferred.get(i, 0) + 1
            else:               # fine
                self.deferred[i] = self.deferred.get(i, 0) + 1
                while self.runnable(p) and self.choose(f"worker {i} makes one more step"):
                    self.step(p)
                if not self.runnable(p):
                    self.deferred[i] = 0
        if not act:
            self.idle += 1
            if self.idle > 3000:
                raise Hang(f"waiting for ever at {self.it.loc()}")

    def wait_for(self, cond, o, what):
        """The manager blocks until cond()."""
        k = 0
        while not cond():
            ps = [p for p in self.procs if self.runnable(p) and (o is None or uses(p.obj, o))] or [p for p in self.procs if self.runnable(p)]
            if not ps:
                raise Hang(f"{what} waits for ever at {self.it.loc()}")
            self.step(ps[0])
            k += 1
            if k > 100000:
                raise Hang(f"{what} waits for ever at {self.it.loc()}")

    # ---------------------------------------------------------------- interface used by the models
    def created(self, it, o):
        pass

    def process_method(self, it, o, name, args, kw):
        if name == "__init__":
            return None
        if name == "start":
            self.procs.append(Proc(self, clone(it, o)))
            self.procs[-1].orig = o
            return None
        p = next((q for q in self.procs if q.orig is o), None)
        if name in ("is_alive", "join", "terminate", "kill", "close"):
            if p is None:
                if name == "is_alive":
                    return False
                it.rz("AssertionError", "can only join a started process")
            if name == "is_alive":
                self.observe(p.obj)
                return p.status != "done"
            if name == "join":
                self.run_out(p)
                if p.status != "done" and not args and kw.get("timeout") is None:
                    self.wait_for(lambda: p.status == "done", None, "join")
                return None
            if name in ("terminate", "kill"):
                if p.status != "done":
                    p.killed = True
                    p.sem.release()
                    p.t.join(5)
                    self.sem.acquire(blocking=False)
                    p.status = "done"
                return None
            return None
        return NOTIMPL

    def method(self, it, o, name, args, kw):
        d = o.data
        me = self.cur
        if me is None and name in ("set", "clear", "put", "put_nowait", "get"):
            self.slept = 0
        timeout = kw.get("timeout", args[0] if name in ("wait",) and args else (args[1] if name == "get" and len(args) > 1 else None))
        if o.typ == "mp.Event":
            if name not in ("set", "clear", "is_set", "wait"):
                return NOTIMPL
            self.sched(me, o, name in ("is_set", "wait"))
            if name == "set":
                d["set"] = True
                return None
            if name == "clear":
                d["set"] = False
                return None
            if name == "is_set":
                return d["set"]
            if timeout is None:
                self.block(me, lambda: d["set"], o, "Event.wait")
                return True
            return d["set"]
        if o.typ in ("mp.Queue", "mp.SimpleQueue"):
            if name in ("put", "put_nowait"):
                self.sched(me, o, False)
                d["items"] = d["items"] + [Item(copyv(it, args[0]), me)]
                return None
            if name in ("get", "get_nowait"):
                self.sched(me, o, name == "get_nowait")
                nowait = name == "get_nowait" or timeout is not None or (args and args[0] is False) or kw.get("block") is False
                if nowait and not self.arrived(d["items"]):
                    it.rz("Exception", "queue.Empty")
                if not d["items"]:
                    self.block(me, lambda: bool(d["items"]), o, "Queue.get")
                x = d["items"][0]
                d["items"] = d["items"][1:]
                return x.v
            if name in ("empty", "qsize"):
                self.sched(me, o, True)
                return not self.arrived(d["items"]) if name == "empty" else len(d["items"])
            return None
        return NOTIMPL

    def arrived(self, items):
        """Items are written to the pipe by a background thread: not waiting calls may come before it."""
        if not items:
            return False
        x = items[0]
        if not x.seen:
            if self.mode == "eager":
                x.seen = True
            elif self.mode == "lazy" or not self.choose("item has arrived"):
                x.seen = x.missed
                x.missed = True
            else:
                x.seen = True
        return x.seen

    def sched(self, me, o, observing):
        if me is not None:
            me.ops.append(o)
            me.pause()
        elif observing:
            self.observe(o)

    def block(self, me, cond, o, what):
        if me is None:
            return self.wait_for(cond, o, what)
        while not cond():
            me.status, me.waiting = "blocked", cond
            me.pause()
        me.status = "ready"


def uses(obj, o, depth=0):
    vs = obj.attrs.values() if isinstance(obj, Obj) else obj.items if isinstance(obj, PyList) else obj if isinstance(obj, (tuple, list)) else [x for _, x in obj.d.values()] if isinstance(obj, PyDict) else ()
    for v in vs:
        if v is o:
            return True
        if depth < 3 and isinstance(v, (Obj, PyList, tuple, PyDict)) and uses(v, o, depth + 1):
            return True
    return False


def copyv(it, v, memo=None):
    """What arrives in another process."""
    if isinstance(v, PyList):
        return PyList([copyv(it, x) for x in v.items], "local", it.epoch, it.loc())
    if isinstance(v, Arr):
        return it.mkarr(list(v.elems()), v.shape, v.dtype)
    if type(v) is tuple:
        return tuple(copyv(it, x) for x in v)
    if isinstance(v, PyDict):
        r = it.mkdict([])
        r.d = {k: (a, copyv(it, b)) for k, (a, b) in v.d.items()}
        return r
    if type(v) is Obj:
        return clone(it, v)
    return v


def clone(it, o):
    r = Obj(o.cls, "local", it.epoch, it.loc())
    r.attrs = {k: copyv(it, v) for k, v in o.attrs.items()}
    return r
