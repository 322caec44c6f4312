"""P02: stop() always wins, one loop per publisher, clean ends."""

from sim import model, ros
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P02"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 24000}
LISTS = ["users.0", "users.1", "users.2", "fails", "slow", "errs"]
RULE = (
    "a run lets 1-3 threads call spin, stop and publish on 1-2 publishers "
    "(playing, subscribed, static or marker) under a seeded interleaving with "
    "failing and slow publications, sleep errors and shutdown; non-trivial if "
    "a stop met a running loop; distinct by the hash of the event log"
)
REAL = ["ros/transformer.py", "ros/visualization.py", "ros/msg.py", "reference_frames.py", "core.py"]
STUB = ["rospy, tf, tf2_ros, message classes", "threads, locks, clocks, sleep"]
ASSUMPTIONS = [
    "a blocking spin() whose thread has not published yet may take effect after a concurrent stop()",
    "messages arriving after a publish() call that follows stop() are not judged",
]
OPS = ["spin", "bspin", "stop", "publish", "sleep", "settle", "touch"]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    while True:
        frames = rb.gen_tree(rng, "ns", rng.randrange(2, 5), 2, rng.choice([2, 4, 8]))
        ps = rb.pairs(seed, frames, True, 2)
        if ps:
            break
    st = rb.pairs(seed, frames, False)
    rng.shuffle(ps)
    npub = rng.choice([1, 1, 2])
    pubs, seen = [], set()
    for _ in range(npub):
        kind = rng.choice(["play", "play", "play", "sub", "marker", "marker", "static"])
        src = st if kind == "static" else ps
        free = [p for p in src if p[0] not in seen]
        if not free:
            continue
        a, b = rng.choice(free)
        seen.add(a)
        pubs.append({"kind": kind, "frame": a, "base": b, "pose": int(rng.random() < 0.3),
                     "interval": rng.choice([0.0005, 0.01, 0.3])})
    if not pubs:
        a, b = ps[0]
        pubs = [{"kind": "play", "frame": a, "base": b, "pose": 0, "interval": 0.01}]
    users = []
    w = {"spin": 4, "bspin": 1, "stop": 4, "publish": 1.5, "sleep": 3, "settle": 0.7, "touch": 1}
    keys = sorted(w)
    for u in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(3, 12 if tier == "quick" else 20)):
            o = rng.choices(keys, [w[k] for k in keys])[0]
            k = rng.randrange(len(pubs))
            if o == "bspin" and u == 0:
                o = "spin"
            if o == "spin" and rng.random() < 0.2:
                # a loop replaced by a newer one
                ops.append([o, k])
                if rng.random() < 0.5:
                    ops.append(["sleep", k, rng.choice([1, 10**6, 3 * 10**7])])
                ops += [[o, k], ["settle", k]]
                continue
            if o == "sleep":
                ops.append([o, k, rng.choice([0, 1, 2000, 10**6, 3 * 10**7, 10**9])])
            elif o == "publish":
                ops.append([o, k, rng.choice([None, 0, 1])])
            else:
                ops.append([o, k])
        users.append(ops)
    sc = {"frames": frames, "pubs": pubs, "users": users, "sched": rb.gen_sched(rng, 0.03),
          "fails": [], "slow": [], "errs": [], "shutdown": None, "feed": [],
          "tick": rng.choice([10**6, 10**7, 10**8]) if rng.random() < 0.3 else None, "jump": None}
    if sc["tick"] and rng.random() < 0.2:
        sc["jump"] = [rng.randrange(1, 3 * 10**9), rng.choice([10**6, 10**8, 5 * 10**8])]
    x = rng.random()
    if x < 0.25:
        sc["fails"] = [rng.randrange(1, 25) for _ in range(rng.randrange(1, 3))]
    elif x < 0.45:
        sc["slow"] = [[rng.randrange(1, 20), rng.choice([1000, 10**7, 10**9])] for _ in range(rng.randrange(1, 4))]
    elif x < 0.6:
        sc["errs"] = [[rng.randrange(1, 20), rng.choice(["backwards", "interrupt", "os"])] for _ in range(rng.randrange(1, 3))]
    if rng.random() < 0.2:
        sc["shutdown"] = rng.choice([rng.randrange(10**7), rng.randrange(10**9), rng.randrange(5 * 10**9)])
    if rng.random() < 0.15:
        # a loop fails just while a newer one is being started
        sc["users"] = [["spin", 0]], [["idle", 0, rng.randrange(60)], ["spin", 0], ["settle", 0]]
        sc["users"] = [list(u) for u in sc["users"]]
        sc["fails"], sc["errs"], sc["slow"], sc["shutdown"], sc["tick"], sc["jump"] = [], [], [], None, None, None
        if pubs[0]["kind"] in ("play", "marker") and rng.random() < 0.5:
            sc["fails"] = [1]
        else:
            sc["errs"] = [[1, rng.choice(["interrupt", "os"])]]
        sc["sched"] = {"mode": "random", "seed": rng.randrange(1 << 30), "p": rng.choice([0.1, 0.3])}
    if any(p["kind"] == "sub" for p in pubs):
        sc["feed"] = [rng.choice([10**5, 10**6, 10**7, 10**8]) for _ in range(rng.randrange(4, 20))]
    return sc


class Injected(Exception):
    pass


def execute(sc, ctx):
    st = {"calls": [], "inj": 0, "hit": set(), "down": 0}
    s = rb.run_node(sc, ctx, lambda: node(sc, ctx, st), expect_uncaught=lambda t, e: expected(sc, st, e),
                    use_sim_time=bool(sc.get("tick")))
    judge(sc, ctx, st, s)
    ctx.nontrivial = ctx.stats.get("stop-met-loop", 0) > 0


def is_injected(e):
    return isinstance(e, Injected) or getattr(e, "_injected", False)


def expected(sc, st, e):
    return is_injected(e) or st.get("back") and isinstance(e, ros.ROSTimeMovedBackwardsException)


def node(sc, ctx, st):
    try:
        return node_(sc, ctx, st)
    finally:
        st["done"] = True


def ros_clock(sc, st):
    """A /clock server: ROS time goes on in ticks and may jump back once."""
    from sim import core

    S = core.SIM
    val = 10**9

    def loop():
        nonlocal val
        jump = sc.get("jump")
        while not st.get("done"):
            S.sleep_ns(sc["tick"])
            val += sc["tick"]
            if jump and S.now >= jump[0]:
                val = max(1, val - jump[1])
                st["inj"] += 1
                st["back"] = True
                jump = None
                S.count("fault.ros-clock-back")
            ros.R.set_clock(val)

    ros.R.set_clock(val)
    rb.spawn(loop, "clock")


def node_(sc, ctx, st):
    from sim import core, patch
    from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B
    from rigid_body_motion.ros.visualization import ReferenceFrameMarkerPublisher as M
    from sim.rosmsg import TYPES

    S = core.SIM
    R = ros.R
    seed, frames = sc["seed"], sc["frames"]
    real = rb.build(seed, frames)
    if sc.get("tick"):
        ros_clock(sc, st)
    fails = set(sc["fails"])
    slow = dict((n, ns) for n, ns in sc["slow"])
    errs = dict((n, k) for n, k in sc["errs"])
    armed = [False]
    cnt = [0]

    def pf(topic, n):
        if not armed[0]:
            return None
        cnt[0] += 1
        if cnt[0] in fails:
            st["inj"] += 1
            st["hit"].add(S.cur.tid)
            return ("fail", Injected("publishing failed"))
        if cnt[0] in slow:
            return ("slow", slow[cnt[0]])
        return None

    def sf(n, sec):
        k = errs.get(n)
        if k is None:
            return None
        st["inj"] += 1
        st["hit"].add(S.cur.tid)
        if k == "backwards":
            e = ros.ROSTimeMovedBackwardsException(-1.0)
        elif k == "interrupt":
            # a signal handler interrupted the sleep, the node goes on
            e = ros.ROSInterruptException("interrupted")
        else:
            e = OSError(4, "interrupted sleep")
        e._injected = True
        return ("raise", e)

    R.publish_fault = pf
    R.sleep_fault = sf
    pubs, delay = [], 10**8  # subscribed loops poll every 100 ms
    for p in sc["pubs"]:
        fa, fb = real[p["frame"]], real[p["base"]]
        if p["kind"] == "marker":
            x = M(fa, fb, publish_interval=p["interval"])
            delay = max(delay, int(p["interval"] * 1e9))
        else:
            x = B(fa, fb, publish_pose=bool(p["pose"]), subscribe="trigger" if p["kind"] == "sub" else False)
            ts = rb.expect(seed, frames, p["frame"], p["base"])[2]
            if ts:
                delay = max([delay] + [b - a for a, b in zip(ts, ts[1:])])
        pubs.append(x)
    st["pubs"] = pubs
    armed[0] = True
    settle = delay + sum(ns for _, ns in sc["slow"]) + 10**6
    if sc.get("tick"):
        # sleeps end at the next tick, or when polled after a shutdown
        settle += 2 * sc["tick"] + 6 * 10**8
        if sc.get("jump"):
            settle += 2 * sc["jump"][1]
    st["settle"] = settle
    st["active"] = 0
    bthreads = []

    def call(k, what, fn, u):
        c = {"k": k, "what": what, "start": S.seq, "start_ns": S.now, "tid": S.cur.tid, "end": None, "u": u,
             "down": R.shutdown}
        S.log("call", what, k)
        c["start"] = S.seq
        st["calls"].append(c)
        try:
            c["ret"] = fn()
        except Exception as e:
            c["exc"] = e
            if not expected(sc, st, e):
                raise
        S.log("ret", what, k)
        c["end"] = S.seq
        c["end_ns"] = S.now
        return c

    def do(u, op):
        o, k = op[0], op[1]
        if k >= len(pubs):
            return
        p = pubs[k]
        if o == "spin":
            c = call(k, "spin", lambda: p.spin(), u)
            if "exc" not in c and sc["pubs"][k]["kind"] != "static":
                t = c["ret"]
                idle = not any(
                    x["k"] == k and x is not c and x["what"] in ("spin", "bspin") for x in st["calls"]
                )
                if t is None:
                    if idle:
                        raise Violation("no-thread", f"spin() of {sc['pubs'][k]['kind']} {k} returned None")
                elif not hasattr(t, "join"):
                    raise Violation("no-thread", f"spin() returned {t!r}")
                else:
                    c["thread"] = t
                    tid = t._st.tid
                    c["loop"] = tid
        elif o == "bspin":
            def go():
                call(k, "bspin", lambda: p.spin(block=True), u)
            bthreads.append(rb.spawn(go, f"bspin{u}"))
        elif o == "stop":
            call(k, "stop", lambda: p.stop(), u)
        elif o == "publish":
            if sc["pubs"][k]["kind"] == "marker":
                call(k, "publish", lambda: p.publish(), u)
            else:
                call(k, "publish", lambda: p.publish(op[2]), u)
        elif o == "sleep":
            if op[2]:
                S.sleep_ns(op[2])
        elif o == "idle":
            for _ in range(op[2]):
                S.yield_()
        elif o == "settle":
            S.sleep_ns(settle)
            check_alive(sc, st, S, u)
        elif o == "touch":
            if sc["pubs"][k]["kind"] == "marker":
                p.marker.scale.x += 0.5
                S.log("touch", k)

    if sc["shutdown"] is not None:
        def down():
            S.count("fault.shutdown")
            st["down"] = S.now
            rb.spawn(lambda: ros.signal_shutdown("test"), "signal")
        S.after(sc["shutdown"], down)
    if sc["feed"]:
        def feed():
            peer = ros.Peer("robot")
            T = TYPES["geometry_msgs/TransformStamped"]
            for j, d in enumerate(sc["feed"]):
                S.sleep_ns(d)
                m = T()
                m.child_frame_id = "trigger"
                m.header.frame_id = "map"
                m.header.stamp.secs = 1600000000
                m.header.stamp.nsecs = j * 1000
                m.transform.rotation.w = 1.0
                peer.publish("/tf", TYPES["tf2_msgs/TFMessage"]([m]))
        rb.spawn(feed, "feed")

    def run_user(u, ops):
        for op in ops:
            do(u, op)

    others = [rb.spawn(lambda u=u, ops=ops: run_user(u, ops), f"user{u}") for u, ops in enumerate(sc["users"]) if u]
    run_user(0, sc["users"][0] if sc["users"] else [])
    for t in others:
        t.join()
    # every started spin() gets going, then everything is stopped and ends
    S.sleep_ns(settle)
    for k, p in enumerate(pubs):
        call(k, "stop", lambda: p.stop(), 0)
    S.sleep_ns(settle)
    for k, p in enumerate(pubs):
        if sc["pubs"][k]["kind"] == "static":
            continue
        if p.stopped is not True:
            raise Violation("stopped-flag", f"publisher {k}: stopped is {p.stopped!r} after stop()")
    check_alive(sc, st, S, 0, final=True)
    for t in bthreads:
        t.join(settle / 1e9)
        if t.is_alive():
            raise Violation("loop-alive", "a blocking spin() did not return after stop()")
    st["after"] = S.seq
    # and can be started again
    if not R.shutdown:
        fails.clear()
        errs.clear()
        slow.clear()
        for k, p in enumerate(pubs):
            n = len(R.records)
            if sc["pubs"][k]["kind"] == "marker":
                p.marker.scale.y += 1.0
            c = call(k, "spin", lambda: p.spin(), 0)
            S.sleep_ns(10**6)
            if sc["pubs"][k]["kind"] != "sub" and not any(owner(sc, r, k) for r in R.records[n:]):
                raise Violation("restart", f"publisher {k} does not publish when spun again")
            call(k, "stop", lambda: p.stop(), 0)


def owner(sc, rec, k):
    """Record belongs to publisher k."""
    p = sc["pubs"][k]
    name = sc["frames"][p["frame"]]["name"]
    if p["kind"] == "marker":
        return rec["topic"] == f"/{name}/path"
    if rec["topic"] in ("/tf", "/tf_static"):
        return any(t.child_frame_id == name for t in rec["msg"].transforms)
    return rec["topic"] == f"/{name}/pose"


def loops(st, k):
    """Loop runs of publisher k: thread id -> call."""
    out = {}
    for c in st["calls"]:
        if c["k"] == k:
            if c["what"] == "spin" and "loop" in c:
                out[c["loop"]] = c
            elif c["what"] == "bspin":
                out[c["tid"]] = c
    return out


def check_alive(sc, st, S, u, final=False):
    """At most one loop is alive once all others had time to wake up."""
    for k in range(len(st["pubs"])):
        cs = [c for c in st["calls"] if c["k"] == k]
        # only judged if nothing was called during the settling time
        if any((c["start_ns"] > S.now - st["settle"]) or (c["end"] is None and c["what"] != "bspin") for c in cs) and not final:
            continue
        alive = []
        for c in cs:
            if c["what"] == "spin" and c.get("thread") is not None and c["thread"].is_alive():
                alive.append(id(c["thread"]))
            elif c["what"] == "bspin" and c["end"] is None:
                alive.append(c["tid"])
        alive = set(alive)
        if len(alive) > (0 if final else 1):
            raise Violation("loop-alive", f"{len(alive)} loops of publisher {k} alive{' after stop()' if final else ''}")
        if sc["pubs"][k]["kind"] == "static":
            continue
        spun = [c for c in cs if c["what"] in ("spin", "bspin")]
        stops = [c["end"] for c in cs if c["what"] == "stop"]
        if not final and newest_goes_on(st, spun, stops):
            S.count("newest-loop-judged")
            if not alive or st["pubs"][k].stopped is not False:
                raise Violation(
                    "newest-loop", f"publisher {k} ({sc['pubs'][k]['kind']}) was spun and not stopped since, but "
                    f"{len(alive)} loops are alive and stopped is {st['pubs'][k].stopped!r}")
        if spun and not alive and st["pubs"][k].stopped is not True:
            # the loop ended by itself: shutdown or an error
            raise Violation("stopped-flag", f"publisher {k}: no loop is alive but stopped is {st['pubs'][k].stopped!r}")
        if ros.R.shutdown and alive and S.now - st["down"] > st["settle"]:
            raise Violation("shutdown", f"publisher {k}: loop alive after shutdown")


def newest_goes_on(st, spun, stops):
    """Nothing was allowed to end the loop of this publisher started last."""
    if ros.R.shutdown or not any(c["start"] > max(stops, default=0) for c in spun):
        return False
    if not st["inj"]:
        return True
    if st.get("back"):
        return False
    for c in spun:
        if c["what"] == "spin" and c["end"] is not None and any(x["start"] > c["end"] for x in spun):
            continue  # replaced by a newer one, even if it failed
        if "exc" in c or c["what"] == "spin" and "loop" not in c:
            return False
        if c.get("loop", c["tid"]) in st["hit"]:
            return False
    return True


def judge(sc, ctx, st, s):
    R = ros.R
    tids_users = {c["tid"] for c in st["calls"]}
    for k in range(len(sc["pubs"])):
        recs = [r for r in R.records if owner(sc, r, k)]
        cs = [c for c in st["calls"] if c["k"] == k]
        lp = loops(st, k)
        inf = 1 << 60

        def kind(r):
            """Which call or loop the record comes from."""
            for c in cs:
                if c["what"] == "publish" and c["tid"] == r["tid"] and c["start"] <= r["seq"] <= (c["end"] or inf):
                    return "publish"
                if c["what"] == "spin" and c["tid"] == r["tid"] and c["start"] <= r["seq"] <= (c["end"] or inf):
                    return "spin"
            if r["tid"] in lp:
                return "loop"
            if s.threads[r["tid"]].name.startswith("conn:"):
                return "callback"
            return "loop"

        ks = [kind(r) for r in recs]
        for c in cs:
            if c["what"] != "stop" or c["end"] is None:
                continue
            running = [x for x in lp.values() if x["start"] < c["start"]]
            if running:
                ctx.count("stop-met-loop")
            for r, rk in zip(recs, ks):
                if r["seq"] <= c["end"] or rk in ("publish", "spin"):
                    continue
                ok = False
                for x in cs:
                    if x["start"] >= r["seq"]:
                        continue
                    if x["what"] == "spin" and (x["end"] or inf) > c["start"]:
                        ok = True
                    elif x["what"] == "bspin":
                        # not yet effective if it had not published
                        eff = any(y["tid"] == x["tid"] and y["seq"] < c["start"] for y in recs)
                        if x["start"] > c["start"] or not eff:
                            ok = True
                    elif x["what"] == "publish" and rk == "callback" and (x["end"] or inf) > c["start"]:
                        ok = True
                if not ok:
                    raise Violation(
                        "published-after-stop",
                        f"publisher {k} ({sc['pubs'][k]['kind']}): stop() returned at event {c['end']} "
                        f"({c['end_ns']} ns), {rk} published at event {r['seq']} ({r['now']} ns)",
                    )
                break
        # one loop at a time
        seen = []
        for r, rk in zip(recs, ks):
            if rk != "loop":
                continue
            t = r["tid"]
            if seen and seen[-1] != t:
                if t in seen:
                    raise Violation("two-loops", f"publisher {k} ({sc['pubs'][k]['kind']}): threads {seen} and {t} publish in turn")
            if not seen or seen[-1] != t:
                seen.append(t)
        ctx.count("records", len(recs))
        ctx.count("loops", len(lp))


def simplify(sc):
    if len(sc["users"]) > 1:
        for k in range(1, len(sc["users"])):
            yield dict(sc, users=sc["users"][:k] + sc["users"][k + 1:])
    if len(sc["pubs"]) > 1:
        for k in range(len(sc["pubs"])):
            yield dict(sc, pubs=sc["pubs"][:k] + sc["pubs"][k + 1:])
    if sc["shutdown"] is not None:
        yield dict(sc, shutdown=None)
