"""P04: choosing a sample, in code or in the playback widget."""

import numpy as np

from sim import model, ros, rosmsg
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P04"
LEVEL = "exploration"
RUNS = {"quick": 4800, "thorough": 40000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 6-40 publications, index changes, spins, "
    "stops and failures on one broadcaster, or of slider drags, button clicks "
    "and play ticks with delayed browser messages on one playback widget; "
    "non-trivial if a history has a failure, a concurrent loop or a delayed "
    "message before a compared publication; distinct by the event log"
)
REAL = ["ros/utils.py play_publisher", "ros/transformer.py", "ros/msg.py", "reference_frames.py", "core.py"]
STUB = ["ipywidgets kernel and browser (sim/widgets.py)", "rospy, tf2_ros, message classes", "threads, clocks"]
ASSUMPTIONS = ["play interval within 1 ms (rounding or truncation)", "at least two samples"]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    while True:
        family = rng.choice(["ns", "us", "ms", "float", "mixed", "s"])
        frames = rb.gen_tree(rng, family, rng.randrange(2, 5), 2, rng.choice([2, 4, 9]))
        ps = rb.pairs(seed, frames, True, 2)
        if ps:
            break
    a, b = rng.choice(ps)
    n = len(rb.expect(seed, frames, a, b)[2])
    sc = {"frames": frames, "frame": a, "base": b, "pose": int(rng.random() < 0.4),
          "twist": int(n >= 5 and rng.random() < 0.5), "sched": rb.gen_sched(rng, 0.02)}
    m = rng.randrange(6, 25 if tier == "quick" else 41)
    ops = []
    if rng.random() < 0.45:
        sc["kind"] = "code"
        w = {"pub": 6, "cur": 4, "set": 2, "spin": 2, "stop": 2, "sleep": 2, "fail": 1, "np": 1}
        ks = sorted(w)
        for _ in range(m):
            o = rng.choices(ks, [w[k] for k in ks])[0]
            if o in ("pub", "set", "np"):
                ops.append([o, rng.randrange(n) if rng.random() < 0.6 else rng.choice([0, 0, n - 1])])
            elif o == "sleep":
                ops.append([o, rng.choice([1, 10**5, 10**7, 10**9])])
            elif o == "fail":
                ops.append([o, rng.randrange(1, 4)])
            else:
                ops.append([o])
    else:
        sc["kind"] = "widget"
        sc["own"] = int(rng.random() < 0.4)  # any publisher with publish(idx)
        if sc["own"]:
            n = rng.choice([2, 3, 5, 11, 30])
            u = rng.choice(["ns", "us", "ms", "s", "float"])
            sc["own_ts"] = model.gen_ts(rng, u, n, gmul=rng.choice([1, 100, 4000]) if u != "s" else 1)
            sc["own_unit"] = u
            sc["ts_arg"] = rng.choice(["attr", "arg", "list", "index"])
        sc["step"] = rng.choice([1, 1, 2, 3, 7])
        sc["speed"] = rng.choice([1.0, 1.0, 0.5, 2.0, 10.0, 3])
        sc["skip"] = rng.choice([None, None, 1, 2, 5, 20])
        sc["latency"] = rng.choice([0, 0, 1])
        w = {"drag": 4, "fwd": 4, "back": 4, "play": 4, "flush": 2, "fail": 0.7, "end": 1}
        for k in rng.sample(sorted(w), 2):
            w[k] *= 3
        ks = sorted(w)
        for _ in range(m):
            o = rng.choices(ks, [w[k] for k in ks])[0]
            if o == "drag":
                ops.append([o, rng.randrange(n)])
            elif o == "play":
                ops.append([o, rng.randrange(1, 8)])
            elif o == "end":
                ops.append([o, rng.choice([0, 1, n - 1, n - 2])])
            else:
                ops.append([o])
    sc["ops"] = ops
    return sc


class Failure(Exception):
    pass


def execute(sc, ctx):
    fn = code if sc["kind"] == "code" else widget
    s = rb.run_node(sc, ctx, lambda: fn(sc, ctx), expect_uncaught=lambda t, e: isinstance(e, Failure))
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = f.get("compared", 0) > 0 and any(k.startswith("fault.") for k in f)


def broadcaster(sc):
    from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

    real = rb.build(sc["seed"], sc["frames"])
    bc = B(real[sc["frame"]], real[sc["base"]], publish_pose=bool(sc["pose"]), publish_twist=bool(sc["twist"]))
    return bc, rb.expect(sc["seed"], sc["frames"], sc["frame"], sc["base"])


def check_group(sc, exp, recs, i, where):
    """Records are one publication of sample i (or of one in i)."""
    fr = sc["frames"]
    fn, bn = fr[sc["frame"]]["name"], fr[sc["base"]]["name"]
    by = {}
    for r in recs:
        by.setdefault(r["topic"], []).append(r["msg"])
    want = {"/tf"} | ({f"/{fn}/pose"} if sc["pose"] else set()) | ({f"/{fn}/twist"} if sc["twist"] else set())
    if set(by) != want or any(len(v) != 1 for v in by.values()):
        raise Violation("together", f"{where}: published {[r['topic'] for r in recs]}, expected one each on {sorted(want)}")
    trs = by["/tf"][0].transforms
    if len(trs) != 1:
        raise Violation("together", f"{where}: {len(trs)} transforms")
    if not isinstance(i, int):
        ids = [j for j in rb.sample_of(exp, rb.tns(trs[0].header.stamp)) if j in i]
        if not ids:
            raise Violation("sample", f"{where}: stamp {rb.tns(trs[0].header.stamp)}, expected one of samples {sorted(i)}")
        i = ids[0]
    rb.check_transform(trs[0], exp, i, fn, bn, where, "sample")
    if sc["pose"]:
        rb.check_pose(by[f"/{fn}/pose"][0], exp, i, bn, where, "sample")
    if sc["twist"]:
        rb.check_twist(by[f"/{fn}/twist"][0], rb.twist(*exp), exp, i, fn, where, "sample")


def code(sc, ctx):
    from sim import core

    S, R = core.SIM, ros.R
    bc, exp = broadcaster(sc)
    n = len(exp[2])
    me = S.cur.tid
    fail = [0]

    def pf(topic, k):
        if S.cur.tid == me and fail[0]:
            fail[0] -= 1
            if not fail[0]:
                return ("fail", Failure("publishing failed"))
        return None

    R.publish_fault = pf
    spun = False
    for k, op in enumerate(sc["ops"]):
        o = op[0]
        where = f"op {k} {op}"
        before = len(R.records)
        if o in ("pub", "np", "cur"):
            i0 = int(bc.idx)
            try:
                if o == "cur":
                    bc.publish()
                elif o == "np":
                    bc.publish(np.int64(op[1]))
                else:
                    bc.publish(idx=op[1]) if k % 2 else bc.publish(op[1])
            except Failure:
                ctx.count("fault.publish-error")
                fail[0] = 0
                if not spun and int(bc.idx) != i0:
                    raise Violation("current", f"{where}: current sample moved from {i0} to {int(bc.idx)}")
                continue
            fail[0] = 0
            i1 = int(bc.idx)
            if not spun and i0 != i1:
                raise Violation("current", f"{where}: current sample moved from {i0} to {i1}")
            recs = [r for r in R.records[before:] if r["tid"] == me]
            if o == "cur":
                ok = {i0}
                j = i0
                while j != i1:
                    j = (j + 1) % n
                    ok.add(j)
                if len([r for r in R.records[before:] if r["tid"] != me and r["topic"] == "/tf"]) >= n:
                    ok = set(range(n))
                check_group(sc, exp, recs, ok, where)
            else:
                check_group(sc, exp, recs, int(op[1]), where)
            ctx.count("compared")
            if spun:
                ctx.count("fault.concurrent-playback")
            S.log("ok", o, k)
        elif o == "set":
            bc.stop()
            S.sleep_ns(1000)
            bc.idx = op[1]
            spun = False
        elif o == "spin":
            bc.spin()
            spun = True
        elif o == "stop":
            bc.stop()
            spun = False
        elif o == "sleep":
            S.sleep_ns(min(op[1], 20 * (exp[2][-1] - exp[2][0])) if spun else op[1])
        elif o == "fail":
            fail[0] = op[1]
    bc.stop()


class Own:
    """A publisher of somebody else's."""

    def __init__(self, ts, attr):
        self.got = []
        self.fail = False
        if attr:
            self.timestamps = ts

    def publish(self, idx):
        if self.fail:
            self.fail = False
            raise Failure("publishing failed")
        self.got.append(idx)


def widget(sc, ctx):
    import pandas as pd

    from rigid_body_motion.ros.utils import play_publisher
    from sim import core, widgets as W

    S, R = core.SIM, ros.R
    kw = {}
    if sc["own"]:
        arr = model.stamps(sc["own_ts"], sc["own_unit"])
        pub = Own(arr, sc["ts_arg"] == "attr")
        if sc["ts_arg"] == "arg":
            kw["timestamps"] = arr
        elif sc["ts_arg"] == "list":
            kw["timestamps"] = list(arr)
        elif sc["ts_arg"] == "index":
            kw["timestamps"] = pd.Index(arr)
        ts = sc["own_ts"]
    else:
        pub, exp = broadcaster(sc)
        ts = exp[2]
    n = len(ts)
    fail = [False]
    if not sc["own"]:
        def pf(topic, k):
            if fail[0] and topic == "/tf":
                fail[0] = False
                return ("fail", Failure("publishing failed"))
        R.publish_fault = pf
    W.LATENCY[0] = 1000 if sc["latency"] else 0
    if sc["step"] != 1:
        kw["step"] = sc["step"]
    if sc["speed"] != 1.0:
        kw["speed"] = sc["speed"]
    if sc["skip"] is not None:
        kw["skip"] = sc["skip"]
    seen = [0]

    def published():
        """Newly published indices (own) or record groups."""
        if sc["own"]:
            out = pub.got[seen[0]:]
            seen[0] = len(pub.got)
            return out
        out = R.records[seen[0]:]
        seen[0] = len(R.records)
        return out

    def errors():
        return sum(len(o.errors) for o in W.OUTPUTS)

    play_publisher(pub, **kw)
    # the widget tree that was displayed
    todo, flat = list(W.DISPLAYED), []
    while todo:
        x = todo.pop(0)
        flat.append(x)
        todo.extend(getattr(x, "children", ()))
    sl = [x for x in flat if isinstance(x, W.IntSlider)]
    pl = [x for x in flat if isinstance(x, W.Play)]
    bt = [x for x in flat if isinstance(x, W.Button)]
    fwd = [x for x in bt if "►" in x.description]
    back = [x for x in bt if "◄" in x.description]
    if not (len(sl) == len(pl) == len(fwd) == len(back) == 1):
        raise Violation("layout", f"{len(sl)} sliders, {len(pl)} play controls, {len(fwd)} + {len(back)} buttons shown")
    sl, pl, fwd, back = sl[0], pl[0], fwd[0], back[0]
    if (sl.min, sl.max) != (0, n - 1) or (pl.min, pl.max) != (0, n - 1) or sl.value != 0:
        raise Violation("range", f"slider {sl.min}..{sl.max} at {sl.value}, play {pl.min}..{pl.max}, {n} samples")
    if pl.step != sc["step"]:
        raise Violation("play-step", f"play step {pl.step}, expected {sc['step']}")
    ms = (ts[-1] - ts[0]) / 1e6 / (n - 1) * sc["step"] / sc["speed"]
    if not isinstance(pl.interval, (int, np.integer)) or abs(pl.interval - ms) > 1 + ms * 1e-6:
        raise Violation("interval", f"play interval {pl.interval} ms, expected {ms}")
    first = published()
    if first:
        judge(sc, first, 0, "initial", None if sc["own"] else exp)
    v = 0
    skip = sc["skip"] or sc["step"]
    if errors():
        raise Violation("widget-error", repr(W.OUTPUTS[0].errors[0]))
    last_failed = 0

    def settle(where, want, failing):
        """Publications so far are exactly the positions in want."""
        nonlocal last_failed
        got = published()
        e = errors() - last_failed
        last_failed += e
        if e > (1 if failing else 0):
            raise Violation("widget-error", f"{where}: {[o.errors for o in W.OUTPUTS]}")
        if failing and e:
            want = want[1:]
        if sc["own"]:
            if [int(x) for x in got] != want:
                raise Violation("position", f"{where}: published {got}, expected {want}")
        else:
            g = 1 + sc["pose"] + sc["twist"]
            if len(got) != g * len(want):
                raise Violation("position", f"{where}: {len(got)} messages, expected samples {want}")
            for j, x in enumerate(want):
                judge(sc, got[j * g: (j + 1) * g], x, where, exp)
        ctx.count("compared", len(want))

    failing = False
    want = []

    def flush():
        nonlocal v
        # messages from the browser in order; several may be waiting
        for w, x in list(W.PENDING):
            if w is sl and x != v:
                v = x
                want.append(v)
        if len(W.PENDING) > 1:
            ctx.count("fault.delayed-browser-messages")
        W.flush()

    def arrive():
        if W.LATENCY[0]:
            S.sleep_ns(2 * W.LATENCY[0])

    for k, op in enumerate(sc["ops"]):
        o = op[0]
        where = f"op {k} {op} (position {v} of {n}, step {sc['step']}, skip {sc['skip']})"
        if o in ("drag", "end"):
            W.front_set(sl, min(max(0, op[1]), n - 1))
            if o == "end":
                flush()
        elif o in ("fwd", "back"):
            # a click is a message too: it arrives after those sent before
            flush()
            nv = min(n - 1, v + skip) if o == "fwd" else max(0, v - skip)
            (fwd if o == "fwd" else back).click()
            if nv != v:
                want.append(nv)
            v = nv
            if sl.value != v:
                raise Violation("button", f"{where}: position {sl.value}, expected {v}")
            arrive()
            flush()
        elif o == "play":
            arrive()
            flush()
            for _ in range(op[1]):
                x = pl.front["value"]
                if not W.play_tick(pl):
                    break
                if sl.front["value"] != min(x + sc["step"], n - 1):
                    raise Violation("play-link", f"{where}: slider at {sl.front['value']} after a tick from {x}")
                if keyed(sc["seed"], "late", k, x).random() < 0.7:
                    flush()
        elif o == "flush":
            flush()
        elif o == "fail":
            if want or W.PENDING:
                continue
            failing = True
            ctx.count("fault.publish-error")
            if sc["own"]:
                pub.fail = True
            else:
                fail[0] = True
            continue
        if o != "drag":
            arrive()
            if not W.PENDING:
                settle(where, want, failing)
                if failing and want:
                    failing = False
                want = []
        S.log("op", o, v)
    arrive()
    flush()
    settle("end", want, failing)
    arrive()
    if sl.front["value"] != v or pl.front["value"] != v:
        raise Violation("play-link", f"position {v}, browser shows {sl.front['value']} and plays from {pl.front['value']}")


def judge(sc, got, i, where, exp):
    if sc["own"]:
        if [int(x) for x in got] != [i]:
            raise Violation("position", f"{where}: published {got}, expected [{i}]")
    else:
        check_group(sc, exp, got, i, where)
