"""Failing allocations: MemoryError at the k-th numerical library call."""

import sys

NUM = ("/numpy/", "/quaternion/", "/scipy/", "/pandas/", "/xarray/")


class Alloc:
    """Context manager; ``k`` counts numerical calls made inside (from 1)."""

    def __init__(self, k):
        self.k = k
        self.n = 0
        self.fired = False

    def _prof(self, frame, event, arg):
        if self.fired:
            return
        if event == "call":
            fn = frame.f_code.co_filename
            if not any(x in fn for x in NUM):
                return
        elif event == "c_call":
            mod = getattr(arg, "__module__", None) or ""
            if not (
                mod.startswith("numpy") or mod.startswith("quaternion")
            ):
                s = getattr(arg, "__self__", None)
                if s is None or type(s).__module__ != "numpy":
                    return
        else:
            return
        self.n += 1
        if self.n == self.k:
            self.fired = True
            raise MemoryError("injected allocation failure")

    def __enter__(self):
        sys.setprofile(self._prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        return False
