"""P01: playback by spinning transform broadcasters."""

from sim import model, ros
from sim.core import Violation, keyed
from sim import rosbase as rb
from sim.world import rbm

from .base import boot  # noqa

ID = "P01"
LEVEL = "exploration"
RUNS = {"quick": 3200, "thorough": 25000}
LISTS = ["bcs", "slow", "over", "jumps", "rests", "pokes", "reg"]
RULE = (
    "a run plays back 1-3 broadcasters of a seeded frame tree under a seeded "
    "interleaving and fault plan until a horizon of several wraps; non-trivial "
    "if a wrap happened and a fault fired or a thread was pre-empted; distinct "
    "by the hash of the event log"
)
REAL = ["ros/transformer.py", "ros/msg.py", "reference_frames.py", "core.py", "estimators.py", "pandas", "numpy"]
STUB = ["rospy, tf, tf2_ros, message classes (sim/ros.py, sim/rosmsg.py)", "threads, clocks, sleep (sim/core.py, sim/patch.py)"]
ASSUMPTIONS = [
    "pace is exact to 5 microseconds: rospy sleeps float seconds",
    "message stamps are exact to 2 microseconds: Time.from_sec truncates",
]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    nmax = rng.choice([3, 5, 9] * 3 + [40])
    for k in range(100):
        family = rng.choice(["ns", "us", "ms", "float", "mixed"])
        frames = rb.gen_tree(rng, family, rng.randrange(2, 6), 2, nmax)
        ps = rb.pairs(seed, frames, True, 2)
        st = rb.pairs(seed, frames, False)
        if ps:
            break
    rng.shuffle(ps)
    bcs, seen = [], set()
    for a, b in ps:
        if a in seen or len(bcs) >= rng.choice([1, 2, 3]):
            continue
        seen.add(a)
        n = len(rb.expect(seed, frames, a, b)[2])
        bcs.append({
            "frame": a, "base": b, "pose": int(rng.random() < 0.5),
            "twist": int(n >= 5 and rng.random() < 0.6),
            "idx": rng.randrange(n) if rng.random() < 0.4 else 0,
            "block": int(rng.random() < 0.3), "byname": int(rng.random() < 0.5),
            "at": rng.choice([0, 0, rng.randrange(10**7)]),
        })
        if n >= 26 and bcs[-1]["twist"]:
            bcs[-1]["cutoff"] = rng.choice([0, 0.2, 0.5, 0.8])
    statics = []
    for a, b in st:
        if a not in seen and len(statics) < 1 and rng.random() < 0.5:
            seen.add(a)
            statics.append({"frame": a, "base": b, "pose": int(rng.random() < 0.5), "spins": rng.randrange(1, 4)})
    sc = {"frames": frames, "bcs": bcs, "statics": statics, "sched": rb.gen_sched(rng)}
    cyc = []
    for b in bcs:
        ts = rb.expect(seed, frames, b["frame"], b["base"])[2]
        cyc.append(max(ts[-1] - ts[0], 1000))
    hor = rng.choice([1.4, 2.6, 4.2]) * max(cyc)
    sc["horizon"] = int(min(hor, 25 * min(cyc)))
    mean = max(1000, sc["horizon"] // 20)
    kind = rng.choice(["none", "slow", "over", "both", "simtime", "none"])
    sc["slow"], sc["over"] = [], []
    if kind in ("slow", "both"):
        for _ in range(rng.randrange(1, 5)):
            sc["slow"].append([rng.choice(["/tf", "pose", "twist"]), rng.randrange(1, 15), rng.randrange(1, 3 * mean)])
    if kind in ("over", "both"):
        for _ in range(rng.randrange(1, 5)):
            sc["over"].append([rng.randrange(1, 30), rng.randrange(1, 3 * mean)])
    sc["jumps"] = []
    if rng.random() < 0.3:
        # the wall clock is stepped while broadcasting
        for _ in range(rng.randrange(1, 4)):
            sc["jumps"].append([rng.randrange(sc["horizon"]), rng.randrange(-(10**12), 10**12)])
    if kind == "simtime":
        t, c, ticks = 0, rng.randrange(1, 10**12), []
        step = max(1000, mean // rng.choice([2, 5]))
        while t < sc["horizon"] * 1.2 and len(ticks) < 400:
            ticks.append([t, c])
            t += step if rng.random() < 0.8 else step * rng.randrange(1, 4)
            c += int(step * rng.choice([1, 1, 0.5, 2]))
        sc["ticks"] = ticks
    # playback paused and resumed
    sc["rests"] = []
    if kind != "simtime" and rng.random() < 0.4:
        t = 0
        for _ in range(rng.randrange(1, 3)):
            t += rng.randrange(1, sc["horizon"])
            sc["rests"].append([rng.randrange(len(bcs)), t])
    # explicit publications by another thread do not disturb the playback
    sc["pokes"] = []
    if kind in ("none", "over") and rng.random() < 0.4:
        for _ in range(rng.randrange(1, 6)):
            k = rng.randrange(len(bcs))
            n = len(rb.expect(seed, frames, bcs[k]["frame"], bcs[k]["base"])[2])
            sc["pokes"].append([k, rng.randrange(sc["horizon"]), rng.choice([None, rng.randrange(n), 0])])
    sc["listen"] = int(rng.random() < 0.5)
    # the registry changes, but not the tree
    sc["reg"] = []
    if rng.random() < 0.3:
        for _ in range(rng.randrange(1, 4)):
            sc["reg"].append([rng.randrange(sc["horizon"]), rng.choice(["clear", "drop", "new", "child"]), rng.randrange(len(frames))])
    return sc


def execute(sc, ctx):
    st = {}
    s = rb.run_node(sc, ctx, lambda: node(sc, ctx, st), use_sim_time=bool(sc.get("ticks")))
    judge(sc, ctx, st, s)
    ctx.nontrivial = ctx.stats.get("wraps", 0) > 0 and (
        s.preemptions > 0 or any(k.startswith("fault.") for k in dict(s.stats, **ctx.stats))
    )


def node(sc, ctx, st):
    from sim import core
    from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B
    from sim.rosmsg import TYPES

    S = core.SIM
    seed, frames = sc["seed"], sc["frames"]
    real = rb.build(seed, frames)
    R = ros.R
    slow = {}
    for topic, n, ns in sc["slow"]:
        slow[(topic, n)] = ns
    over = {n: ns for n, ns in sc["over"]}

    def pf(topic, n):
        ns = slow.get((topic, n)) or slow.get((topic.rsplit("/", 1)[-1], n))
        return ("slow", ns) if ns else None

    R.publish_fault = pf
    R.sleep_fault = lambda n, sec: ("over", over[n]) if n in over else None
    R.on_publish = lambda rec: rec.update(sim=R.simclock)
    if sc["listen"]:
        # a local subscriber makes publishing serialise and deliver
        st["heard"] = []
        import rospy
        rospy.Subscriber("/tf", TYPES["tf2_msgs/TFMessage"], lambda m: st["heard"].append(m))
    for at, ns in sc["jumps"]:
        def jump(ns=ns):
            S.wall_skew = ns
            S.count("fault.wall-clock-jump")
        S.after(at, jump)
    if sc.get("ticks"):
        rb.clock_publisher(sc["ticks"])
        S.count("fault.jittered-ros-clock", len(sc["ticks"]))
    st["bcs"] = []
    for b in sc["bcs"]:
        fa, fb = real[b["frame"]], real[b["base"]]
        base = fb
        if fa.parent is fb and b["byname"]:
            base = None
        kw = {}
        if b["pose"]:
            kw["publish_pose"] = True
        if b["twist"]:
            kw["publish_twist"] = True
            if b.get("cutoff"):
                kw["twist_cutoff"] = b["cutoff"]
        bc = B(fa.name if b["byname"] else fa, base, **kw)
        if b["idx"]:
            bc.idx = b["idx"]
        st["bcs"].append(bc)
    for x in sc["statics"]:
        bc = B(real[x["frame"]], real[x["base"]], **({"publish_pose": True} if x["pose"] else {}))
        for _ in range(x["spins"]):
            n = len(R.records)
            r = bc.spin(block=bool(x["spins"] & 1))
            got = [rec for rec in R.records[n:] if rec["tid"] == S.cur.tid]
            check_static(seed, frames, x, got)
            ctx.count("static-spins")
        st.setdefault("static_tids", set()).add(frames[x["frame"]]["name"])
    st["static_done"] = S.seq

    def start(k, bc):
        b = sc["bcs"][k]
        if b["block"]:
            rb.spawn(lambda: bc.spin(block=True), f"spin{k}")
        else:
            t = bc.spin()
            if t is None:
                raise Violation("no-thread", f"spin() of broadcaster {k} returned no thread")

    begin = S.now
    st["starts"] = {}
    for k, (b, bc) in enumerate(zip(sc["bcs"], st["bcs"])):
        def go(k=k, bc=bc, at=b["at"]):
            rb.wait_until(begin + at)
            if st.get("over"):
                return
            st["starts"][k] = S.now
            start(k, bc)
        rb.spawn(go, f"go{k}")
    def poke():
        for k, at, idx in sorted(sc["pokes"], key=lambda x: x[1]):
            rb.wait_until(begin + at)
            st["poker"] = S.cur.tid
            st["bcs"][k].publish(idx)
            ctx.count("fault.publication-meanwhile")

    if sc["pokes"]:
        rb.spawn(poke, "poke")
    if sc.get("reg"):
        rb.spawn(lambda: registry(sc, ctx, begin, real), "registry")
    for k, at in sorted(sc["rests"], key=lambda x: x[1]):
        rb.wait_until(begin + at)
        if k >= len(st["bcs"]) or k not in st["starts"]:
            continue
        st["bcs"][k].stop()
        ctx.count("fault.paused")
        st.setdefault("paused", set()).add(k)
        # let the old loop end, then go on
        S.sleep_ns(7)
        start(k, st["bcs"][k])
        st.setdefault("marks", []).append((k, S.now))
    rb.wait_until(begin + sc["horizon"])
    st["end"] = {}
    for k, bc in enumerate(st["bcs"]):
        bc.stop()
        st["end"][k] = S.now
    late_subscribers(sc, ctx, st, S)


def registry(sc, ctx, begin, real):
    import rigid_body_motion as R

    for n, (at, what, k) in enumerate(sorted(sc["reg"])):
        rb.wait_until(begin + at)
        name = real[k].name
        if what == "clear":
            R.clear_registry()
        elif what == "drop" and name in R.registry:
            R.deregister_frame(name)
        elif what == "new" and name not in R.registry:
            # another tree that re-uses the name
            R.register_frame(name)
        elif what == "child":
            R.register_frame(f"extra{n}", real[k], translation=(1, 2, 3))
        ctx.count("fault.registry-changed")


def late_subscribers(sc, ctx, st, S):
    """Whoever joins later gets the last pose and twist of a frame."""
    st["over"] = True
    settle = sum(x[2] for x in sc["slow"]) + sum(x[1] for x in sc["over"]) + 10**9
    S.sleep_ns(settle)
    # a task that had yet to call spin() when the broadcaster was stopped
    for bc in st["bcs"]:
        bc.stop()
    S.sleep_ns(settle)
    last = {}
    for r in ros.R.records:
        if r["topic"].endswith(("/pose", "/twist")):
            last[r["topic"]] = r["msg"]
    heard = {t: [] for t in last}
    for t in sorted(last):
        ros.RemoteSub(t, lambda m, t=t: heard[t].append(m))
    S.sleep_ns(10**9)
    for t, m in last.items():
        ctx.count("late-subscribers")
        body = "pose" if t.endswith("/pose") else "twist"
        if not heard[t]:
            raise Violation("not-latched", f"a late subscriber of {t} gets nothing")
        h = heard[t][-1]
        if rb.tns(h.header.stamp) != rb.tns(m.header.stamp) or repr(getattr(h, body)) != repr(getattr(m, body)):
            raise Violation("not-latched", f"a late subscriber of {t} gets {h}, the last message was {m}")


def check_static(seed, frames, x, got):
    exp = rb.expect(seed, frames, x["frame"], x["base"])
    fn, bn = frames[x["frame"]]["name"], frames[x["base"]]["name"]
    tf = [r for r in got if r["topic"] in ("/tf", "/tf_static")]
    poses = [r for r in got if r["topic"].endswith("/pose")]
    if len(tf) != 1 or len(poses) != x["pose"]:
        raise Violation("static", f"spin() of static {fn} sent {len(tf)} transforms and {len(poses)} poses")
    trs = tf[0]["msg"].transforms
    if tf[0]["topic"] != "/tf_static" or len(trs) != 1:
        raise Violation("static", f"static {fn} sent to {tf[0]['topic']}: {len(trs)} transforms")
    rb.check_transform(trs[0], exp, None, fn, bn, f"static {fn}", "static")
    for r in poses:
        rb.check_pose(r["msg"], exp, None, bn, f"static {fn}", "static")


def judge(sc, ctx, st, s):
    seed, frames = sc["seed"], sc["frames"]
    total_delay = sum(x[2] for x in sc["slow"]) + sum(x[1] for x in sc["over"])
    clean = not sc["slow"] and not sc["over"] and not sc.get("ticks")
    for k, b in enumerate(sc["bcs"]):
        fn, bn = frames[b["frame"]]["name"], frames[b["base"]]["name"]
        exp = rb.expect(seed, frames, b["frame"], b["base"])
        n = len(exp[2])
        tw = rb.twist(*exp, cutoff=b.get("cutoff")) if b["twist"] else None
        recs = []
        for r in ros.R.records:
            if r["tid"] == st.get("poker"):
                continue
            if r["topic"] == "/tf":
                if len(r["msg"].transforms) != 1:
                    raise Violation("message", f"{len(r['msg'].transforms)} transforms in one message")
                if r["msg"].transforms[0].child_frame_id == fn:
                    recs.append(("tf", r))
            elif r["topic"] == f"/{fn}/pose":
                recs.append(("pose", r))
            elif r["topic"] == f"/{fn}/twist":
                recs.append(("twist", r))
            elif r["topic"] == "/tf_static":
                if any(t.child_frame_id == fn for t in r["msg"].transforms):
                    raise Violation("message", f"moving {fn} sent to /tf_static")
        want = {"tf"} | ({"pose"} if b["pose"] else set()) | ({"twist"} if b["twist"] else set())
        g = len(want)
        what = f"broadcaster {k} ({fn} wrt {bn}, {n} samples)"
        i = b["idx"] % n
        prev = None
        last = 0
        for j in range(0, len(recs), g):
            grp = recs[j: j + g]
            where = f"{what}, publication {j // g}"
            kinds = [x[0] for x in grp]
            if len(grp) < g:
                # cut off by the end of the run only
                if j + len(grp) != len(recs) or not set(kinds) <= want or len(set(kinds)) != len(kinds):
                    raise Violation("together", f"{where}: {kinds}")
            elif set(kinds) != want:
                raise Violation("together", f"{where}: {kinds}, expected {sorted(want)}")
            for kind, r in grp:
                m = r["msg"]
                if kind == "tf":
                    rb.check_transform(m.transforms[0], exp, i, fn, bn, where, "sample")
                elif kind == "pose":
                    rb.check_pose(m, exp, i, bn, where, "sample")
                else:
                    rb.check_twist(m, tw, exp, i, fn, where, "sample")
            if not sc["slow"] and len({r["now"] for _, r in grp}) != 1:
                raise Violation("together", f"{where}: at {[(x, r['now']) for x, r in grp]}")
            tf = [r for x, r in grp if x == "tf"]
            if tf:
                r = tf[0]
                if prev is not None:
                    want_dt = exp[2][i] - exp[2][i - 1] if i else 0
                    dt = r["sim"] - prev["sim"] if sc.get("ticks") else r["now"] - prev["now"]
                    resumed = any(kk == k and prev["now"] <= at <= r["now"] for kk, at in st.get("marks", []))
                    if not resumed:
                        if dt < want_dt - 3000:
                            raise Violation("too-early", f"{where}: sample {i} sent {dt} ns after the previous one, recorded {want_dt} ns")
                        if clean and dt > want_dt + 5000:
                            raise Violation("too-late", f"{where}: sample {i} sent {dt} ns after the previous one, recorded {want_dt} ns")
                    if i == 0:
                        ctx.count("wraps")
                else:
                    if r["now"] > st["starts"].get(k, 0) + total_delay + 5000 and not sc.get("ticks"):
                        raise Violation("too-late", f"{where}: first sample {r['now']} ns, spin at {st['starts'].get(k)}")
                prev = r
                last = r["now"]
            i = (i + 1) % n
            ctx.count("samples")
        # progress up to the stop
        if k in st["starts"] and not sc.get("ticks"):
            due = (exp[2][i] - exp[2][i - 1] if i else 0) if prev else 0
            begin = last if prev else st["starts"][k]
            marks = [at for kk, at in st.get("marks", []) if kk == k]
            begin = max([begin] + [at for at in marks if at >= begin])
            # an earlier stop() may have waited for a slow publication
            if st["end"][k] - begin > due + 2 * total_delay + 5000:
                raise Violation("stalled", f"{what}: nothing for {st['end'][k] - begin} ns before the stop, sample {i} was due after {due} ns")
        elif sc.get("ticks") and k in st["starts"] and not recs:
            raise Violation("stalled", f"{what}: nothing published")
    if ros.R.cb_errors:
        raise Violation("uncaught", repr(ros.R.cb_errors[0]))


def simplify(sc):
    for k in range(len(sc["bcs"])):
        for f in ("pose", "twist", "cutoff", "idx", "at", "block", "byname"):
            if sc["bcs"][k].get(f):
                c = dict(sc, bcs=[dict(b) for b in sc["bcs"]])
                c["bcs"][k][f] = 0
                yield c
    if sc.get("ticks"):
        c = dict(sc)
        c.pop("ticks")
        yield c
    if sc["listen"]:
        yield dict(sc, listen=0)
    if sc["statics"]:
        yield dict(sc, statics=[])
