"""P06: transform buffers agree with the tree they were fed from."""

import numpy as np

from sim import model, ros, rosmsg
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P06"
LEVEL = "exploration"
RUNS = {"quick": 2000, "thorough": 20000}
LISTS = ["again", "shows"]
RULE = (
    "a run feeds a seeded tree of 2-7 static, moving and discrete frames to a "
    "transformer (in any order and repeatedly) or, through broadcasters and a "
    "faulty network, to a remote listener, and compares all pairs at all common "
    "samples; non-trivial if an insertion fault or link fault fired and a "
    "moving pair was compared; distinct by the event log"
)
REAL = ["ros/transformer.py", "ros/msg.py", "reference_frames.py", "core.py", "anytree"]
STUB = ["tf2 buffer and tf2_geometry_msgs (sim/tf2.py)", "rospy, message classes", "network", "threads, clocks"]
ASSUMPTIONS = ["no sample at stamp 0, which tf reads as 'latest'"]


def common(ms, a, b):
    """Instants at which every moving frame between a and b has a sample."""
    e = model.path(ms[a], ms[b])
    mv = [set(fr.ts) for fr, _ in e if fr.moving]
    if not mv:
        return None
    return sorted(set.intersection(*mv))


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    family = rng.choice(["ns", "us", "ms", "s", "float", "mixed"])
    shared = rng.random() < 0.6
    n = rng.randrange(2, 8)
    base = None
    if family == "float":
        base = rng.choice([10**9, 1_600_000_000 * 10**9])
    frames = rb.gen_tree(rng, family, n, 1, rng.choice([1, 3, 6, 15, 15, 40]), base=base)
    if shared:
        # frames sampled at (parts of) one common clock
        mv = [f for f in frames if "ts" in f]
        if mv:
            ts = max((f["ts"] for f in mv), key=len)
            for f in mv:
                x = rng.random()
                if x < 0.5:
                    f["ts"] = list(ts)
                elif x < 0.8:
                    k = rng.randrange(len(ts))
                    f["ts"] = ts[k:] or list(ts)
                else:
                    f["ts"] = sorted(rng.sample(ts, rng.randrange(1, len(ts) + 1)))
                if family == "mixed":
                    f["unit"] = max((f["unit"] for f in mv), key=["s", "ms", "us", "ns"].index)
    sc = {"frames": frames, "kind": rng.choice(["tree", "tree", "manual", "net"]),
          "from": rng.randrange(n), "reject": int(rng.random() < 0.6), "again": [], "shows": [],
          "sched": rb.gen_sched(rng, 0.01)}
    if rng.random() < 0.6 or sc["kind"] == "manual":
        for _ in range(rng.randrange(1, 6)):
            sc["again"].append(rng.randrange(1, n))
    sc["threads"] = int(rng.random() < 0.3)
    if sc["kind"] == "net":
        sc["link"] = rng.choice(["clean", "delay", "lossy", "dup", "all", "all"])
        sc["how"] = [rng.choice(["spin", "all", "shuffled"]) for _ in frames]
        sc["late"] = rng.choice([0, 0, 1])
        order = list(range(n))
        if rng.random() < 0.5:
            rng.shuffle(order)
        sc["shows"] = []
        if family == "float":
            # broadcasters interpolate: stamps that float seconds represent exactly
            for f in frames:
                if "ts" in f:
                    f["ts"] = [base + (t - base) // 4_000_000 * 3_906_250 for t in f["ts"]]
        # a spanning tree of broadcast pairs
        ms = rb.models(seed, frames)
        done = [order[0]]
        for a in order[1:]:
            cands = []
            for b in done:
                ts = model.sampling(model.path(ms[a], ms[b]))
                if ts is None or ts:
                    cands.append(b)
            if cands:
                sc["shows"].append([a, rng.choice(cands)])
                done.append(a)
    return sc


def execute(sc, ctx):
    from sim import tf2

    tf2.BufferCore.REJECT_REPEATED = bool(sc["reject"])
    s = rb.run_node(sc, ctx, lambda: (net if sc["kind"] == "net" else local)(sc, ctx), watch=sc["kind"] == "net" or bool(sc["threads"]))
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = f.get("moving-compared", 0) > 0 and any(k.startswith("fault.") for k in f)


def sec(ns):
    return ns / 1e9


def compare(sc, ctx, tr, ms, a, b, at, where, full, latest=False):
    """The transformer's answer for frame a in frame b at an instant."""
    fr = sc["frames"]
    A, B = fr[a]["name"], fr[b]["name"]
    t, q = model.compose(model.path(ms[a], ms[b]), at)
    time = [0.0 if at is None else sec(at)]
    where = f"{where}: {A} in {B} at {at}"
    if latest:
        # without a time the latest one is meant
        time = []
        where += " (by default)"
    try:
        gt, gq = tr.lookup_transform(B, A, *time)
    except ros.tf2.TransformException as e:
        raise Violation("no-answer", f"{where}: {type(e).__name__}: {e}")
    if not model.close(gt, t) or not model.close_q(gq, q):
        raise Violation("answer", f"{where}: got {gt} {gq}, expected {t} {q}")
    ctx.count("compared")
    if at is not None:
        ctx.count("moving-compared")
    if not full:
        return
    if tr.can_transform(B, A, *time) is not True:
        raise Violation("no-answer", f"{where}: can_transform is not True")
    r = keyed(sc["seed"], "arr", a, b)
    v = np.array([r.uniform(-3, 3) for _ in range(3)])
    o = model.unit([r.gauss(0, 1) for _ in range(4)])
    got = tr.transform_vector(v, B, A, *time)
    if not model.close(got, model.rot(q, v)):
        raise Violation("vector", f"{where}: vector {v} -> {got}, expected {model.rot(q, v)}")
    got = tr.transform_point(v, B, A, *time)
    if not model.close(got, model.rot(q, v) + t):
        raise Violation("point", f"{where}: point {v} -> {got}, expected {model.rot(q, v) + t}")
    got = tr.transform_quaternion(o, B, A, *time)
    if not model.close_q(got, model.qmul(q, o)):
        raise Violation("quaternion", f"{where}: quaternion {o} -> {got}, expected {model.qmul(q, o)}")
    p, oo = tr.transform_pose(v, o, B, A, *time)
    if not model.close(p, model.rot(q, v) + t) or not model.close_q(oo, model.qmul(q, o)):
        raise Violation("pose", f"{where}: pose {v} {o} -> {p} {oo}")
    messages(sc, t, q, v, o, at)


def messages(sc, t, q, v, o, at):
    """Values survive the way into a message and back."""
    from rigid_body_motion.ros import msg as M

    kw = {} if at is None else {"time": sec(at)}
    for what, args, want in (
        ("transform", (t, q, "b", "a"), (t, q)), ("pose", (v, o, "b"), (v, o)), ("twist", (v, t, "b"), (v, t)),
        ("vector", (v, "b"), v), ("point", (v, "b"), v), ("quaternion", (o, "b"), o),
    ):
        make, unpack = (getattr(M, f"{k}_{what}_msg", None) for k in ("make", "unpack"))
        if make is None or unpack is None:
            continue
        m = make(*args, **kw)
        if m.header.frame_id != "b" or abs(rb.tns(m.header.stamp) - (at or 0)) > 1000 or getattr(m, "child_frame_id", "a") != "a":
            raise Violation("message", f"{what} message: {m.header}, expected b at {at}")
        for got in (unpack(m, stamped=True), unpack(getattr(m, what))):
            for x, y in zip(got, want) if isinstance(want, tuple) else ((got, want),):
                if len(x) != len(y) or not np.allclose(x, y, rtol=0, atol=1e-12):
                    raise Violation("message", f"{what} message of {want} gives {got}")


def compare_all(sc, ctx, tr, ms, where, full=True):
    for a in range(len(ms)):
        for b in range(len(ms)):
            if a == b:
                continue
            ts = common(ms, a, b)
            if ts is None:
                compare(sc, ctx, tr, ms, a, b, None, where, full)
                compare(sc, ctx, tr, ms, a, b, None, where, full, True)
                compare(sc, ctx, tr, ms, a, b, 1_234_500_000_000, where, False)
            else:
                r = keyed(sc["seed"], "pick", a, b)
                mid = ts[1:-1]
                for at in sorted(set(ts[:1] + ts[-1:] + (r.sample(mid, min(3, len(mid)))))):
                    compare(sc, ctx, tr, ms, a, b, at, where, full)
                if ts and ts[-1] == min(fr.ts[-1] for fr, _ in model.path(ms[a], ms[b]) if fr.moving):
                    compare(sc, ctx, tr, ms, a, b, ts[-1], where, full, True)
                    ctx.count("latest-compared")
                if full:
                    cannot(sc, ctx, tr, ms, a, b, where)


def cannot(sc, ctx, tr, ms, a, b, where):
    """It says whether it has an answer, and raises if it has none."""
    A, B = sc["frames"][a]["name"], sc["frames"][b]["name"]
    ts = [fr.ts for fr, _ in model.path(ms[a], ms[b]) if fr.moving]
    lo, hi = max(x[0] for x in ts), min(x[-1] for x in ts)
    for at, A in ((lo - 10**9, A), (hi + 10**9, A), ((lo + hi) // 2, A), (lo, "nowhere")):
        if at <= 0:
            continue
        ok = []
        for f in (tr.can_transform, tr.lookup_transform):
            try:
                ok.append(f(B, A, sec(at)) is not False)
            except ros.tf2.TransformException:
                ok.append(False)
        if ok[0] != ok[1] or ok[1] and (A == "nowhere" or not lo - 10**6 <= at <= hi + 10**6):
            raise Violation("no-answer", f"{where}: {A} in {B} at {at}: can_transform {ok[0]}, lookup_transform {'answers' if ok[1] else 'raises'}")
        ctx.count("refused" if not ok[0] else "answered-between")


def local(sc, ctx):
    from rigid_body_motion.ros.transformer import Transformer
    from sim import core

    S = core.SIM
    seed, frames = sc["seed"], sc["frames"]
    real = rb.build(seed, frames)
    ms = rb.models(seed, frames)
    n = len(frames)
    if sc["kind"] == "tree":
        tr = Transformer.from_reference_frame(real[sc["from"]])
        compare_all(sc, ctx, tr, ms, "from tree")
    else:
        stamps = [t for f in frames for t in f.get("ts", [])]
        tr = Transformer(cache_time=sec(max(stamps) - min(stamps)) + 5.0 if stamps else None)
        order = list(range(1, n))
        keyed(seed, "order").shuffle(order)
        for k in order:
            add(tr, real[k])
            ctx.count("fault.insertion-reordered")
        compare_all(sc, ctx, tr, ms, "added in order " + str(order))

    def again():
        for k in sc["again"]:
            add(tr, real[k])
            ctx.count("fault.insertion-repeated")
            S.log("again", k)

    if sc["threads"] and sc["again"]:
        t = rb.spawn(again, "again")
        compare_all(sc, ctx, tr, ms, "while added again", full=False)
        t.join()
    else:
        again()
    if sc["again"]:
        compare_all(sc, ctx, tr, ms, f"after adding {sc['again']} again", full=False)
    S.log("done", ctx.stats.get("compared", 0))


def add(tr, fr):
    if fr.timestamps is None:
        tr.set_transform_static(fr)
    else:
        tr.set_transforms(fr)


def net(sc, ctx):
    import rospy
    from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B, Transformer
    from sim import core, tf2

    S, R = core.SIM, ros.R
    seed, frames = sc["seed"], sc["frames"]
    real = rb.build(seed, frames)
    ms = rb.models(seed, frames)
    allts = [t for f in frames for t in f.get("ts", [])]
    rng_ns = max(allts) - min(allts) if allts else 0
    tr = Transformer(cache_time=sec(rng_ns) + 1e6)
    buf = tf2.BufferCore.LAST
    arrived = {}  # child name -> set of stamps

    def link(topic, key, n):
        r = keyed(seed, "link", topic, key, n)
        k, d = sc["link"], 0
        if k in ("delay", "all") and r.random() < 0.5:
            d = r.choice([1000, 10**6, 10**9])
            S.count("fault.message-delay")
        if k in ("lossy", "all") and r.random() < 0.15:
            S.count("fault.message-loss")
            return []
        if k in ("dup", "all") and r.random() < 0.3:
            S.count("fault.message-duplicated")
            return [d, d + r.choice([0, 10**6])]
        return [d]

    R.link = link

    def listen():
        def cb(static):
            def f(m):
                for t in m.transforms:
                    (buf.set_transform_static if static else buf.set_transform)(t, "net")
                    arrived.setdefault(t.child_frame_id, set()).add(None if static else rb.tns(t.header.stamp))
            return f
        ros.RemoteSub("/tf", cb(False))
        ros.RemoteSub("/tf_static", cb(True))

    if not sc["late"]:
        listen()
    bcs = []
    for a, b in sc["shows"]:
        bcs.append((a, b, B(real[a], real[b])))
    if sc["late"]:
        for a, b, bc in bcs[: len(bcs) // 2]:
            bc.publish()
        listen()
        ctx.count("fault.listener-joins-late")
    def static_again(bc):
        for _ in range(2):
            bc.publish()
            S.sleep_ns(10**6)

    ths = []
    rounds = 0
    for a, b, bc in bcs:
        if bc.timestamps is None:
            ths.append(rb.spawn(lambda bc=bc: static_again(bc), "static"))
        elif sc["how"][a] == "spin":
            bc.spin()
        else:
            idx = list(range(len(bc.timestamps)))
            if sc["how"][a] == "shuffled":
                keyed(seed, "shuffle", a).shuffle(idx)

            def send(bc=bc, idx=idx):
                for k in idx:
                    bc.publish(k)
                    S.sleep_ns(1000)
            ths.append(rb.spawn(send, f"send{a}"))
    for t in ths:
        t.join()
    # spinning ones for a wrap, but not for more than a few hundred samples
    short = [np.asarray(bc.timestamps) for _, _, bc in bcs if bc.timestamps is not None]
    if short:
        spans = [max(model.stamp_ns(x)[-1] - model.stamp_ns(x)[0], 1000) for x in short]
        S.sleep_ns(min(int(1.3 * max(spans)), 30 * min(spans)))
    for _, _, bc in bcs:
        bc.stop()
    S.sleep_ns(3 * 10**9)
    # what must be known to the listener by now
    par = {a: b for a, b in sc["shows"]}

    def chain(a):
        out = [a]
        while out[-1] in par:
            out.append(par[out[-1]])
        return out

    for a in range(len(frames)):
        for b in range(len(frames)):
            if a == b:
                continue
            ca, cb = chain(a), chain(b)
            if ca[-1] != cb[-1]:
                continue
            top = next(x for x in ca if x in cb)
            edges = ca[: ca.index(top)] + cb[: cb.index(top)]
            insts, ok = None, True
            for e in edges:
                got = arrived.get(frames[e]["name"], set())
                ts = model.sampling(model.path(ms[e], ms[par[e]]))
                if ts is None:
                    ok = ok and None in got
                else:
                    have = {t for t in ts if any(x is not None and abs(x - t) <= 2000 for x in got)}
                    insts = have if insts is None else insts & have
            if not ok:
                continue
            for at in ([None] if insts is None else sorted(insts)[:4] + sorted(insts)[-2:]):
                if at is not None and outside(ms, a, b, at):
                    continue
                compare(sc, ctx, tr, ms, a, b, at, f"listener (broadcast {sc['shows']})", True)
    S.log("done", ctx.stats.get("compared", 0))


def outside(ms, a, b, at):
    for fr, _ in model.path(ms[a], ms[b]):
        if fr.moving and fr.kind != "discrete" and not fr.ts[0] <= at <= fr.ts[-1]:
            return True
    return False


def simplify(sc):
    if sc["threads"]:
        yield dict(sc, threads=0)
    if sc.get("link") not in (None, "clean"):
        yield dict(sc, link="clean")
    n = len(sc["frames"])
    used = {f["parent"] for f in sc["frames"]} | {x for p in sc["shows"] for x in p} | set(sc["again"]) | {sc["from"]}
    if n > 2 and n - 1 not in used:
        yield dict(sc, frames=sc["frames"][:-1])
