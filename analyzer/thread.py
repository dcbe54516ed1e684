import sys
import threading


def big_stack(fn, *args):
    """Run fn in a thread with a large stack (deep recursion of the interpreter)."""
    sys.setrecursionlimit(200000)
    threading.stack_size(768 * 1024 * 1024)
    out = {}

    def go():
        try:
            out["r"] = fn(*args)
        except BaseException as e:  # noqa: B036 - reraised in the caller
            out["e"] = e
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if "e" in out:
        raise out["e"]
    return out.get("r")
