"""P03: broadcasters subscribed to /tf answer every matching transform."""

from sim import model, ros, rosmsg
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P03"
LEVEL = "exploration"
RUNS = {"quick": 3200, "thorough": 25000}
LISTS = ["peers.0", "peers.1", "peers.2", "bcs"]
RULE = (
    "a run sends 5-40 /tf messages with 0-4 transforms each from 1-3 remote "
    "nodes over links that delay, lose, double and reorder them to 1-3 "
    "subscribed broadcasters created at seeded times; non-trivial if a "
    "matching transform was answered and a link fault or pre-emption occurred; "
    "distinct by the hash of the event log"
)
REAL = ["ros/transformer.py", "ros/msg.py", "reference_frames.py", "core.py", "pandas", "numpy"]
STUB = ["rospy, tf, tf2_ros, message classes", "transport between nodes (sim/ros.py)", "threads, locks, clocks"]
ASSUMPTIONS = ["a stamp half-way between two samples (to 1 microsecond) may be answered with either"]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    while True:
        family = rng.choice(["ns", "us", "ms", "float", "mixed", "s"])
        frames = rb.gen_tree(rng, family, rng.randrange(2, 7), 1, rng.choice([1, 3, 6, 6, 12, 30]))
        ps = rb.pairs(seed, frames, True, 1)
        st = rb.pairs(seed, frames, False)
        if ps:
            break
    rng.shuffle(ps)
    rng.shuffle(st)
    bcs, seen = [], set()
    for a, b in (ps[:3] + st[:2]):
        if a in seen or len(bcs) >= 3 or bcs and rng.random() < 0.5:
            continue
        seen.add(a)
        bcs.append({
            "frame": a, "base": b, "pose": int(rng.random() < 0.3),
            "sub": rng.choice([True, True, "trigger", "other"]),
            "at": rng.choice([0, 0, rng.randrange(2 * 10**8)]),
            "spin": rng.choice([0, 0, 0, 1, 2]),
        })
    # a broadcaster that answers to the publications of another one
    nxt = [(a, b) for a, b in ps + st if a not in seen and any(b == x["frame"] for x in bcs)]
    if nxt and rng.random() < 0.5:
        a, b = rng.choice(nxt)
        bcs.append({"frame": a, "base": b, "pose": int(rng.random() < 0.3), "sub": True,
                    "at": rng.choice([0, 0, rng.randrange(2 * 10**8)]), "spin": rng.choice([0, 0, 1])})
    bcs = without_loops(bcs)
    if not bcs:
        a, b = ps[0]
        bcs = [{"frame": a, "base": b, "pose": 0, "sub": "trigger", "at": 0, "spin": 0}]
    own = {frames[b["frame"]]["name"] for b in bcs}
    trig = sorted({b["sub"] if isinstance(b["sub"], str) else frames[b["base"]]["name"] for b in bcs})
    pool = trig * 3 + ["nobody", "trigger2", "", "Trigger"] + [t + "x" for t in trig] + ["x" + t for t in trig]
    pool = [x for x in pool if x not in own]
    stamps = []
    for b in bcs:
        ts = rb.expect(seed, frames, b["frame"], b["base"])[2]
        if ts:
            for t, u in zip(ts, ts[1:]):
                stamps += [t, t + (u - t) // 3, t + (u - t) * 2 // 3, t + (u - t) // 2 - 7_000,
                           t + (u - t) // 2 - 60, (t + u) // 2 + 61]
            stamps += [ts[0], ts[-1], ts[-1] + 10**9, max(0, ts[0] - 5 * 10**8), 0, 1, ts[-1] + 10**15]
            # sub-resolution neighbours of samples
            stamps += [x for x in (ts[0] + 1, ts[-1] - 1)]
    stamps = [x for x in stamps if x >= 0] or [0, 10**18]
    peers = []
    for p in range(rng.choice([1, 1, 2, 3])):
        msgs = []
        for _ in range(rng.randrange(3, 16)):
            trs = [[rng.choice(pool), rng.choice(stamps)] for _ in range(rng.choice([1, 1, 1, 2, 4, 0]))]
            msgs.append([rng.choice([0, 0, 1, 1000, 10**6, 3 * 10**7]), trs])
        peers.append(msgs)
    link = rng.choice(["clean", "delay", "lossy", "dup", "all"])
    return {"frames": frames, "bcs": bcs, "peers": peers, "link": link,
            "slow": rng.choice([0, 0, 1]), "sched": rb.gen_sched(rng, 0.02)}


def without_loops(bcs):
    """Broadcasters that would answer to each other never end."""
    out = []
    for b in bcs:
        # frames that make b publish, directly or not
        up, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x["sub"] is True and x["base"] not in up:
                up.add(x["base"])
                todo += [y for y in out if y["frame"] == x["base"]]
        # frames published because of b
        down, todo = set(), [b["frame"]]
        while todo:
            f = todo.pop()
            for y in out:
                if y["sub"] is True and y["base"] == f and y["frame"] not in down:
                    down.add(y["frame"])
                    todo.append(y["frame"])
        if b["frame"] not in up and not up & down and b["frame"] not in down:
            out.append(b)
    return out


def execute(sc, ctx):
    st = {"subs": {}, "deliv": {}}
    s = rb.run_node(sc, ctx, lambda: node(sc, ctx, st))
    judge(sc, ctx, st, s)
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = ctx.stats.get("matches", 0) > 0 and (
        s.preemptions > 0 or any(k.startswith("fault.") for k in f)
    )


def node(sc, ctx, st):
    from sim import core
    from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

    S, R, T = core.SIM, ros.R, rosmsg.TYPES
    seed, frames = sc["seed"], sc["frames"]
    real = rb.build(seed, frames)

    def link(topic, key, n):
        if key == "local":
            return [0]
        r = keyed(seed, "link", topic, key, n)
        k = sc["link"]
        d = 0
        if k in ("delay", "all") and r.random() < 0.5:
            d = r.choice([1000, 10**6, 5 * 10**7])
            S.count("fault.message-delay")
        if k in ("lossy", "all") and r.random() < 0.2:
            S.count("fault.message-loss")
            return []
        if k in ("dup", "all") and r.random() < 0.2:
            S.count("fault.message-duplicated")
            return [d, d + r.choice([0, 1000, 10**7])]
        return [d]

    R.link = link
    if sc["slow"]:
        R.publish_fault = lambda topic, n: ("slow", 10**6) if keyed(seed, "slow", topic, n).random() < 0.2 else None
    R.on_subscribe = lambda sub: st["subs"].setdefault(building.get(S.cur.tid), []).append(sub)
    building = {}

    def on_deliver(conn, m):
        for k, subs in list(st["subs"].items()):
            for sub in subs:
                # what the transport hands to this subscriber
                if k is not None and sub.impl is conn.topic:
                    st["deliv"].setdefault(k, []).append((S.seq, m))

    R.on_deliver = on_deliver
    st["bcs"] = {}

    def create(k):
        b = sc["bcs"][k]
        rb.wait_until(b["at"])
        building[S.cur.tid] = k
        st["bcs"][k] = bc = B(real[b["frame"]], real[b["base"]], publish_pose=bool(b["pose"]), subscribe=b["sub"])
        building.pop(S.cur.tid)
        if b["spin"] == 1:
            bc.spin()
        elif b["spin"] == 2:
            rb.spawn(lambda: bc.spin(block=True), f"spin{k}")

    def peer(p, msgs):
        pe = ros.Peer(f"peer{p}")
        pe.advertise("/tf")
        for n, (gap, trs) in enumerate(msgs):
            if gap:
                S.sleep_ns(gap)
            out = []
            for j, (child, ns) in enumerate(trs):
                t = T["geometry_msgs/TransformStamped"]()
                t.header.frame_id = "map"
                t.header.stamp = rosmsg.Time(ns // 10**9, ns % 10**9)
                t.child_frame_id = child
                t.transform.rotation.w = 1.0
                t.transform.translation.x = p * 1000 + n + j / 10
                out.append(t)
            pe.publish("/tf", T["tf2_msgs/TFMessage"](out))
            S.yield_()

    ths = [rb.spawn(lambda p=p, m=m: peer(p, m), f"peer{p}") for p, m in enumerate(sc["peers"])]
    cs = [rb.spawn(lambda k=k: create(k), f"create{k}") for k in range(len(sc["bcs"]))]
    for t in ths + cs:
        t.join()
    S.sleep_ns(10**10)
    for bc in st["bcs"].values():
        bc.stop()
    S.sleep_ns(10**9)


def judge(sc, ctx, st, s):
    seed, frames = sc["seed"], sc["frames"]
    if ros.R.cb_errors:
        t, e = ros.R.cb_errors[0]
        raise Violation("callback-error", f"{t}: {type(e).__name__}: {e}")
    for k, b in enumerate(sc["bcs"]):
        fn, bn = frames[b["frame"]]["name"], frames[b["base"]]["name"]
        sub = b["sub"] if isinstance(b["sub"], str) else bn
        exp = rb.expect(seed, frames, b["frame"], b["base"])
        what = f"broadcaster {k} ({fn} wrt {bn}, on {sub})"
        got = [r for r in ros.R.records if r["topic"] in ("/tf", "/tf_static")
               and any(t.child_frame_id == fn for t in r["msg"].transforms)]
        poses = [r for r in ros.R.records if r["topic"] == f"/{fn}/pose"]
        subs = st["subs"].get(k, [])
        if len(subs) != 1:
            raise Violation("subscription", f"{what}: {len(subs)} subscriptions")
        want = []  # candidate samples per matching transform
        for _, m in st["deliv"].get(k, []):
            for t in m.transforms:
                if t.child_frame_id != sub:
                    continue
                if exp[2] is None:
                    want.append([None])
                    continue
                at = rb.tns(t.header.stamp)
                d = [abs(x - at) for x in exp[2]]
                lo = min(d)
                # integer stamps are compared exactly
                slack = 2000 if any(f.get("unit") == "float" for f in frames) else 0
                want.append([i for i, x in enumerate(d) if x - lo <= slack])
        if exp[2] is None and b["spin"]:
            want.append([None])  # spin() of a static frame broadcasts once
        have = []
        for r in got:
            if len(r["msg"].transforms) != 1:
                raise Violation("message", f"{what}: {len(r['msg'].transforms)} transforms in one message")
            tr = r["msg"].transforms[0]
            if exp[2] is None:
                if r["topic"] != "/tf_static":
                    raise Violation("message", f"{what}: static transform sent to /tf")
                rb.check_transform(tr, exp, None, fn, bn, what)
                have.append([None])
            else:
                if r["topic"] != "/tf":
                    raise Violation("message", f"{what}: moving transform sent to {r['topic']}")
                ids = rb.sample_of(exp, rb.tns(tr.header.stamp))
                if not ids:
                    raise Violation("message", f"{what}: stamp {rb.tns(tr.header.stamp)} is no sample of {exp[2]}")
                rb.check_transform(tr, exp, ids[0], fn, bn, what)
                have.append(ids)
        if b["pose"] and len(poses) != len(got):
            raise Violation("together", f"{what}: {len(got)} transforms, {len(poses)} poses")
        if len(have) != len(want):
            raise Violation("count", f"{what}: {len(want)} matching transforms delivered, {len(have)} published")
        if not match([h[0] for h in have], want):
            raise Violation("nearest", f"{what}: published samples {[h[0] for h in have]}, expected {want}")
        ctx.count("matches", len(want))
        if any(b["sub"] is True and x["frame"] == b["base"] for x in sc["bcs"]):
            ctx.count("matches-of-own-node", len(want))
        ctx.count("delivered", len(st["deliv"].get(k, [])))


def match(have, want):
    """Perfect matching of published samples to candidate lists."""
    have = list(have)
    if all(len(w) == 1 for w in want):
        return sorted(map(str, have)) == sorted(str(w[0]) for w in want)
    use = [-1] * len(have)

    def aug(j, seen):
        for h, x in enumerate(have):
            if x in want[j] and h not in seen:
                seen.add(h)
                if use[h] < 0 or aug(use[h], seen):
                    use[h] = j
                    return True
        return False

    return all(aug(j, set()) for j in range(len(want)))


def simplify(sc):
    for p in range(len(sc["peers"])):
        if len(sc["peers"]) > 1:
            yield dict(sc, peers=sc["peers"][:p] + sc["peers"][p + 1:])
    if sc["slow"]:
        yield dict(sc, slow=0)
    if sc["link"] != "clean":
        yield dict(sc, link="clean")
    for k, b in enumerate(sc["bcs"]):
        for f in ("pose", "at", "spin"):
            if b[f]:
                c = dict(sc, bcs=[dict(x) for x in sc["bcs"]])
                c["bcs"][k][f] = 0
                yield c
