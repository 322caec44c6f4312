"""Worker process: boots once, then forks one child per simulated run."""

import importlib
import json
import os
import select
import signal
import sys
import time
import traceback

_real_time = time.monotonic


class Ctx:
    """What a property's execute() reports back."""

    def __init__(self, sc):
        self.sc = sc
        self.stats = {}
        self.sims = []
        self.scratch = None
        self.extra_hash = ""
        self.probes = {}
        self.nontrivial = None
        self.known = []

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n


def raised_in_package(e):
    from .boot import PKG

    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKG + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_child(prop, sc, wfd):
    from . import core, patch

    out = {"status": "ok"}
    ctx = Ctx(sc)
    try:
        patch.seed_everything(sc.get("seed", 0))
        os.environ["TZ"] = sc.get("tz", "UTC")
        time.tzset()
        try:
            prop.execute(sc, ctx)
        except core.Violation as v:
            out.update(status="violation", cls=v.cls, msg=v.msg)
    except Exception as e:
        # an error the property did not expect from the code under test
        if raised_in_package(e):
            out.update(
                status="violation",
                cls="unexpected-" + type(e).__name__,
                msg=f"{e} | " + "".join(traceback.format_exception(e))[-1500:],
            )
        elif isinstance(e, (TypeError, AttributeError, ValueError, LookupError, ArithmeticError)):
            # what the code handed out was nothing the client could use
            # (reported only if it happens again in a second execution)
            out.update(
                status="violation",
                cls="unusable-result-" + type(e).__name__,
                msg=f"{e} | " + "".join(traceback.format_exception(e))[-1500:],
            )
        else:
            out.update(
                status="error",
                cls=type(e).__name__,
                msg="".join(traceback.format_exception(e))[-3000:],
            )
    except BaseException as e:  # noqa
        out.update(
            status="error",
            cls=type(e).__name__,
            msg="".join(traceback.format_exception(e))[-3000:],
        )
    s = core.SIM
    if s is not None:
        out["taken"] = s.taken
        out["hash"] = s.hash.hexdigest()[:24] + ctx.extra_hash
        out["sim_ns"] = s.now
        out["steps"] = s.steps
        out["lines"] = s.lines
        out["preemptions"] = s.preemptions
        out["line_switches"] = s.line_switches
        out["end"] = s.end
        st = dict(s.stats)
        for k, v in ctx.stats.items():
            st[k] = st.get(k, 0) + v
        out["stats"] = st
        if out["status"] != "ok" or sc.get("trace"):
            out["events"] = [repr(e)[:300] for e in s.events[-400:]]
    else:
        out["stats"] = ctx.stats
        out["hash"] = ctx.extra_hash
    if ctx.nontrivial is not None:
        out["nontrivial"] = bool(ctx.nontrivial)
    if ctx.known:
        out["known"] = ctx.known
    data = json.dumps(out, default=repr).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]


def run_one(prop, sc, timeout):
    r, w = os.pipe()
    scratch = None
    if getattr(prop, "SCRATCH", False):
        import tempfile

        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        scratch = os.path.join(base, f"vf-{os.getpid()}")
        _clean(scratch)
        os.makedirs(scratch)
        sc = dict(sc, _scratch=scratch)
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            run_child(prop, sc, w)
        finally:
            os._exit(0)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    os.close(w)
    buf = b""
    end = _real_time() + timeout
    timed_out = False
    while True:
        left = end - _real_time()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if scratch:
        _clean(scratch)
    if timed_out:
        return {"status": "timeout", "cls": "timeout", "msg": "wall timeout"}
    try:
        return json.loads(buf)
    except ValueError:
        return {
            "status": "error",
            "cls": "child-died",
            "msg": f"wait status {status}, output {buf[-500:]!r}",
        }


def _clean(path):
    import shutil

    assert "/vf-" in path
    shutil.rmtree(path, ignore_errors=True)


ZONES = ["UTC", "UTC", "EST5EDT", "IST-5:30", "NZST-12NZDT"]


def main():
    sys.setrecursionlimit(5000)
    prop = importlib.import_module("props." + sys.argv[1].lower())
    prop.boot()
    import gc

    gc.collect()
    gc.disable()
    gc.freeze()
    inp = sys.stdin.buffer
    out = os.fdopen(os.dup(1), "wb", 0)
    # nothing the code prints may reach the protocol channel
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(devnull, 2)
    out.write(b'{"ready": 1}\n')
    for line in inp:
        job = json.loads(line)
        sc = job.get("sc")
        if sc is None:
            sc = prop.plan(job["seed"], job["i"], job["tier"])
            sc.setdefault("seed", job["seed"])
            # nothing depends on the local time zone
            sc.setdefault("tz", ZONES[job["seed"] // 7 % len(ZONES)])
        res = run_one(prop, sc, job.get("timeout", 60))
        res["id"] = job["id"]
        if res["status"] != "ok" or job.get("want_sc"):
            res["sc"] = sc
        out.write(json.dumps(res).encode() + b"\n")


if __name__ == "__main__":
    main()
