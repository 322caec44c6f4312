"""Frame trees for the ROS properties, with their expected samples."""

import numpy as np

from . import model
from .core import Violation, keyed
from .world import rbm

GMUL = {"ns": 4000, "us": 32, "ms": 1, "s": 1, "float": 4}


def gen_tree(rng, family, n, nmin=3, nmax=10, kinds=("static", "moving", "discrete"),
             base=None, t0=0):
    """Connected tree of n frames; names are unique, all are registered."""
    frames = []
    for k in range(n):
        parent = None if k == 0 else rng.randrange(max(0, k - 3), k)
        f = {"key": k, "name": f"f{k}", "parent": parent,
             "kind": "root" if k == 0 else rng.choice(list(kinds))}
        if f["kind"] in ("moving", "discrete"):
            u = family if family != "mixed" else rng.choice(["ns", "us", "ms", "s"])
            f["unit"] = u
            m = rng.randrange(nmin, nmax + 1)
            gm = GMUL[u]
            if family == "mixed":
                # comparable spacing whatever the unit
                gm = {"ns": 3_906_250, "us": 31_250, "ms": 250, "s": 1}[u]
            f["ts"] = model.gen_ts(rng, u, m, t0, gmul=gm, base=base)
        if k:
            x = rng.random()
            if x < 0.08:
                f["no_t"] = 1
            elif x < 0.16:
                f["no_r"] = 1
            if rng.random() < 0.2:
                f["inverse"] = 1
        frames.append(f)
    return frames


def models(seed, frames):
    out = []
    for f in frames:
        p = out[f["parent"]] if f["parent"] is not None else None
        out.append(model.MFrame(f, model.frame_args(seed, f), p))
    return out


def pairs(seed, frames, want_moving=True, nmin=2):
    """(frame, base) index pairs whose transform has at least nmin samples."""
    ms = models(seed, frames)
    out = []
    for a in range(len(ms)):
        for b in range(len(ms)):
            if a == b:
                continue
            ts = model.sampling(model.path(ms[a], ms[b]))
            if want_moving and ts is not None and len(ts) >= nmin:
                out.append([a, b])
            if not want_moving and ts is None:
                out.append([a, b])
    return out


def build(seed, frames):
    """Real frames, registered."""
    R = rbm()
    R.clear_registry()
    real = []
    for f in frames:
        args = model.frame_args(seed, f)
        p = real[f["parent"]] if f["parent"] is not None else None
        fr = R.ReferenceFrame(f["name"], p, **args)
        fr.register()
        real.append(fr)
    return real


def twist(t, q, ts, cutoff=None):
    """Expected velocities: linear in the base, turned into the frame; angular
    in the frame."""
    from quaternion import as_float_array, as_quat_array, derivative

    s = np.array([(x - ts[0]) / 1e9 for x in ts])
    lin = np.gradient(t, s, axis=0)
    dq = derivative(q, s, axis=0)
    ang = 2 * model.qmul(model.qconj(q), dq)[:, 1:]
    if cutoff:
        from scipy.signal import butter, filtfilt

        lin, ang = (filtfilt(*butter(7, cutoff), x, axis=0) for x in (lin, ang))
    lin = model.rot(model.qconj(q), lin)
    return lin, ang


def expect(seed, frames, a, b):
    """(t, q, ts) of frame a wrt base b."""
    ms = models(seed, frames)
    return model.lookup(ms[a], ms[b])


def tns(stamp):
    return stamp.secs * 10**9 + stamp.nsecs


def vec(v):
    return np.array([v.x, v.y, v.z])


def quat(q):
    return np.array([q.w, q.x, q.y, q.z])


def sample_of(exp, stamp_ns, slack=2000):
    """Indices of expected samples with this stamp."""
    return [i for i, t in enumerate(exp[2]) if abs(t - stamp_ns) <= slack]


def check_transform(tr, exp, i, frame, base, where, cls="message"):
    """TransformStamped equals sample i (None: static)."""
    if tr.header.frame_id != base or tr.child_frame_id != frame:
        raise Violation(cls, f"{where}: transform {tr.header.frame_id!r} -> {tr.child_frame_id!r}, expected {base!r} -> {frame!r}")
    t, q = (exp[0], exp[1]) if i is None else (exp[0][i], exp[1][i])
    if not model.close(vec(tr.transform.translation), t):
        raise Violation(cls, f"{where}: translation {vec(tr.transform.translation)}, sample {i} is {t}")
    if not model.close_q(quat(tr.transform.rotation), q):
        raise Violation(cls, f"{where}: rotation {quat(tr.transform.rotation)}, sample {i} is {q}")
    if i is not None and abs(tns(tr.header.stamp) - exp[2][i]) > 2000:
        raise Violation(cls, f"{where}: stamp {tns(tr.header.stamp)}, sample {i} is at {exp[2][i]}")


def check_pose(m, exp, i, base, where, cls="message"):
    if m.header.frame_id != base:
        raise Violation(cls, f"{where}: pose in frame {m.header.frame_id!r}, expected {base!r}")
    t, q = (exp[0], exp[1]) if i is None else (exp[0][i], exp[1][i])
    if not model.close(vec(m.pose.position), t) or not model.close_q(quat(m.pose.orientation), q):
        raise Violation(cls, f"{where}: pose {vec(m.pose.position)} {quat(m.pose.orientation)}, sample {i} is {t} {q}")
    if i is not None and abs(tns(m.header.stamp) - exp[2][i]) > 2000:
        raise Violation(cls, f"{where}: pose stamp {tns(m.header.stamp)}, sample {i} is at {exp[2][i]}")


def check_twist(m, tw, exp, i, frame, where, cls="message"):
    if m.header.frame_id != frame:
        raise Violation(cls, f"{where}: twist in frame {m.header.frame_id!r}, expected {frame!r}")
    lin, ang = vec(m.twist.linear), vec(m.twist.angular)
    # differentiation in float seconds since the epoch
    dt = min((b - a for a, b in zip(exp[2], exp[2][1:])), default=10**9)
    s = (1e-4 + 1000 / dt) * (1 + np.abs(tw[0]).max() + np.abs(tw[1]).max())
    if not model.close(lin, tw[0][i], s) or not model.close(ang, tw[1][i], s):
        raise Violation(cls, f"{where}: twist {lin} {ang}, sample {i} is {tw[0][i]} {tw[1][i]}")
    if abs(tns(m.header.stamp) - exp[2][i]) > 2000:
        raise Violation(cls, f"{where}: twist stamp {tns(m.header.stamp)}, sample {i} is at {exp[2][i]}")


# -- running a node --------------------------------------------------------------
def run_node(sc, ctx, main, watch=True, expect_uncaught=None, use_sim_time=False, **kw):
    """Simulate main() as the node's main thread; judge how the run ended."""
    from . import boot, core, ros
    from .world import in_sim

    def start():
        ros.start_run(use_sim_time)
        main()

    kw.setdefault("max_steps", 250_000)
    if sc["sched"]["mode"] == "fifo" or not sc["sched"].get("p", 1):
        watch = False  # no line is ever a switching point
    s, end = in_sim(sc["sched"], start, ctx, (boot.PKG,) if watch else (), **kw)
    if end != "main":
        raise Violation("stuck", f"the run ended with {end} at {s.now} ns")
    for t, e in s.uncaught:
        if isinstance(e, Violation):
            raise e
        if expect_uncaught is not None and expect_uncaught(t, e):
            continue
        raise Violation("uncaught", f"thread {t.name}: {type(e).__name__}: {e}")
    return s


def gen_sched(rng, p=0.02):
    mode = rng.choice(["random", "random", "pct", "fifo"])
    if mode == "fifo":
        return {"mode": "fifo"}
    if mode == "pct":
        return {"mode": "pct", "seed": rng.randrange(1 << 30), "p": rng.choice([0.002, 0.01, 0.05])}
    return {"mode": "random", "seed": rng.randrange(1 << 30), "p": rng.choice([0, p / 4, p, p * 4])}


class Table:
    """Faults as data: {"topic-or-*": {n: value}} counted per key."""

    def __init__(self, table):
        self.t = {k: {int(n): v for n, v in x} for k, x in (table or {}).items()}

    def get(self, key, n):
        x = self.t.get(key, self.t.get("*"))
        return x.get(n) if x else None


def spawn(fn, name):
    import threading

    t = threading.Thread(target=fn, name=name)
    t.start()
    return t


def wait_until(ns):
    from . import core

    s = core.SIM
    if ns > s.now:
        s.sleep_ns(ns - s.now)


def clock_publisher(ticks):
    """Thread advancing simulated ROS time: [[virtual ns, clock ns], ...]."""
    from . import ros

    def loop():
        for at, val in ticks:
            wait_until(at)
            ros.R.set_clock(val)

    return spawn(loop, "clock")
