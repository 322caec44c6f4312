"""Faults and crash points at file system calls (shim/faultfs.c).

A victim is a forked process executing one piece of code; the harness that
started it stays outside of the faults.
"""

import ctypes
import errno
import json
import os
import signal
import subprocess
import sys
import traceback

from . import core, patch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO = os.path.join(VERIF, "build", "faultfs.so")
SRC = os.path.join(VERIF, "shim", "faultfs.c")
ACTIONS = {"crash": 1, "torn": 2, "err": 3, "sticky": 4, "short": 5, "interrupt": 6}
CLS = {"any": 0, "r": 1, "w": 2}
OPS = ["", "open", "create", "read", "write", "truncate", "sync", "close",
       "rename", "unlink", "mkdir", "other"]
CRASHED = "crashed"
SEED = [0, 0]  # of the run, number of victims so far


def build():
    """Compile the shim unless it is up to date."""
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(SRC):
        return
    os.makedirs(os.path.dirname(SO), exist_ok=True)
    tmp = f"{SO}.{os.getpid()}"
    subprocess.run(
        ["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"], check=True
    )
    os.replace(tmp, SO)


def env():
    return {"LD_PRELOAD": SO}


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.ffs_present  # raises if the shim is not loaded
        _lib.ffs_begin.argtypes = [ctypes.c_char_p, ctypes.c_long]
        _lib.ffs_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.ffs_count.restype = ctypes.c_long
        _lib.ffs_op.argtypes = [ctypes.c_long]
    return _lib


class Result:
    def __init__(self):
        self.end = None  # "ok", "raised", "crashed", "op-cap", "died"
        self.value = None
        self.exc = None  # exception class name
        self.msg = ""
        self.n_ops = 0
        self.fired = 0
        self.fired_op = ""
        self.open_fds = 0
        self.viol = None
        self.ops = []

    def n(self, cls):
        """Operations of a class."""
        w = {"r": ("open", "read"), "w": ("create", "write", "truncate", "sync", "rename", "mkdir")}
        return len([o for o in self.ops if cls == "any" or o in w[cls]])

    def place(self, f):
        """The fault at the operation that it asks for, if there is one."""
        at = [j for j, o in enumerate(self.ops) if o == f.get("op")]
        if at:
            return [dict(f, cls="any", k=1 + at[min(int(f["frac"] * len(at)), len(at) - 1)])]
        c = self.n(f["cls"])
        return [dict(f, k=1 + int(f["frac"] * c))] if c else []

    def __repr__(self):
        return f"{self.end} {self.exc or ''} {self.msg[:200]}"


def _arm(prefix, faults, cap):
    L = lib()
    L.ffs_begin(prefix.encode(), cap)
    for f in faults or ():
        L.ffs_fault(f["k"], ACTIONS[f["do"]], f.get("arg", 0), CLS[f.get("cls", "any")])


# Python code that takes and gives back the locks of xarray, which leaks them
# when it is interrupted itself
LOCKING = {"locks.py", "contextlib.py", "file_manager.py"}


def _locking(frame):
    for _ in range(5):
        if frame is None:
            break
        if os.path.basename(frame.f_code.co_filename) in LOCKING:
            return True
        frame = frame.f_back
    return False


def _ctrlc(sig, frame):
    """Ctrl-C, held back while a lock of xarray changes hands."""
    if frame is None or not _locking(frame):
        raise KeyboardInterrupt

    def later(frame, event, arg):
        if not _locking(frame):
            sys.setprofile(None)
            raise KeyboardInterrupt

    sys.setprofile(later)


def land(fn, *args):
    """fn(*args); an interrupt that is still pending arrives in here."""
    try:
        return fn(*args)
    finally:
        os.getpid()


def _in_victim(fn, prefix, faults, cap, gate, wfd):
    L = lib()
    if gate:
        # first turn
        if os.read(gate[1], 1) != b"g":
            os._exit(77)
        L.ffs_gate(gate[0], gate[1])
    out = {}
    if os.environ.get("VERIF_DEBUG"):
        import faulthandler
        faulthandler.dump_traceback_later(15, file=open("/tmp/hang.txt","a"))
    patch.seed_everything(core.keyed(SEED[0], "victim", SEED[1]).randrange(1 << 40))
    signal.signal(signal.SIGINT, _ctrlc)
    try:
        _arm(prefix, faults, cap)
        try:
            out["value"] = land(fn)
            out["end"] = "ok"
        finally:
            L.ffs_end()
            L.ffs_gate(-1, -1)
    except core.Violation as v:
        out.update(end="violation", viol=[v.cls, v.msg])
    except BaseException as e:  # noqa
        out.update(end="raised", exc=type(e).__name__, msg=str(e)[:500],
                   mro=[c.__name__ for c in type(e).__mro__],
                   tb="".join(traceback.format_exception(e))[-1500:])
    n = L.ffs_count()
    out.update(n_ops=n, ops=[OPS[L.ffs_op(i)] for i in range(min(n, 20000))], fired=L.ffs_fired(),
               fired_op=OPS[L.ffs_fired_op()], open_fds=L.ffs_open_fds())
    data = json.dumps(out, default=repr).encode()
    while data:
        data = data[os.write(wfd, data):]


class Victim:
    def __init__(self, fn, prefix, faults=None, cap=20000, gated=False):
        self.res = Result()
        self.done = False
        SEED[1] += 1
        r, w = os.pipe()
        gate = None
        if gated:
            self.req_r, req_w = os.pipe()
            go_r, self.go_w = os.pipe()
            gate = (req_w, go_r)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                if gated:
                    os.close(self.req_r)
                    os.close(self.go_w)
                _in_victim(fn, prefix, faults, cap, gate, w)
            except BaseException:
                traceback.print_exc()
                os._exit(80)
            finally:
                os._exit(0)
        os.close(w)
        self.pid, self.r, self.gated = pid, r, gated
        if gated:
            os.close(req_w)
            os.close(go_r)

    def step(self, kill=False):
        """Go on up to the next operation. False when it has ended."""
        os.write(self.go_w, b"K" if kill else b"g")
        b = os.read(self.req_r, 1)
        if not b:
            self.finish()
            return False
        self.at = OPS[b[0]]
        return True

    def finish(self):
        buf = b""
        while True:
            d = os.read(self.r, 1 << 20)
            if not d:
                break
            buf += d
        os.close(self.r)
        if self.gated:
            os.close(self.req_r)
            os.close(self.go_w)
        _, st = os.waitpid(self.pid, 0)
        self.done = True
        res = self.res
        code = os.waitstatus_to_exitcode(st)
        if code == 77:
            res.end = CRASHED
            res.fired = 1
        elif code == 78:
            res.end = "op-cap"
        elif code == 0 and buf:
            for k, v in json.loads(buf).items():
                setattr(res, k, v)
        else:
            res.end = "died"
            res.msg = f"exit code {code}"
        return res


def run(fn, prefix, faults=None, cap=20000):
    """Execute fn in a victim process."""
    v = Victim(fn, prefix, faults, cap)
    res = v.finish()
    if res.end == "violation":
        raise core.Violation(*res.viol)
    return res


def interleave(fns, prefix, rng, p, at_op, faults=None, kill=None, cap=20000):
    """Execute several victims, one operation at a time.

    ``at_op(n)`` is called between any two operations.  ``kill`` maps a victim
    to the number of its operation before which it is killed.
    """
    vs = [Victim(f, prefix, (faults or {}).get(i), cap, gated=True) for i, f in enumerate(fns)]
    live = list(range(len(vs)))
    taken = []
    cur = live[rng.randrange(len(live))] if live else None
    steps = [0] * len(vs)
    switches = 0
    while live:
        if cur not in live or rng.random() < p:
            new = live[rng.randrange(len(live))]
            switches += new != cur
            cur = new
        v = vs[cur]
        k = bool(kill) and kill.get(cur) == steps[cur]
        steps[cur] += 1
        if not v.step(k):
            live.remove(cur)
        taken.append((cur, getattr(v, "at", "")))
        at_op(len(taken))
    for v in vs:
        if v.res.end == "violation":
            raise core.Violation(*v.res.viol)
    return [v.res for v in vs], taken, switches


ERR = {k: getattr(errno, k) for k in ("EIO", "ENOSPC", "EINTR", "EACCES", "EDQUOT", "EMFILE", "ESTALE", "EROFS", "EAGAIN", "ENOENT")}


def kinds(do, arg=0):
    if do in ("err", "sticky"):
        for k, v in ERR.items():
            if v == arg:
                return f"fault.{k}-{'until-the-end' if do == 'sticky' else 'once'}"
    return f"fault.{do}"


def aim(rng, f):
    """Aim a fault at a kind of system call that happens only once or twice."""
    op = rng.choice(["rename", "rename", "create", "create", "mkdir", "open", "truncate", "sync", "unlink", "close"])
    f = dict(f, op=op)
    if f["do"] in ("err", "sticky"):
        f["arg"] = ERR[rng.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT"] if op != "open" else ["EIO", "EMFILE", "ESTALE"])]
    elif f["do"] in ("short", "torn"):
        f["do"] = "crash"
        del f["arg"]
    return f
