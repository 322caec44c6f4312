"""P07: initialising a node and the life of the master."""

import warnings

from sim import core, patch, ros
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P07"
LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 60000}
LISTS = ["ops", "world"]
RULE = (
    "a run is a seeded history of 1-6 init_node calls (in up to two threads), "
    "handle shutdowns and masters started, killed or failing elsewhere, ended "
    "by an interpreter exit; non-trivial if a fault fired or the master "
    "changed under the call; distinct by the event log"
)
REAL = ["ros/utils.py init_node", "warnings"]
STUB = ["rospy, roslaunch, the ROS master and atexit (sim/ros.py, sim/patch.py)", "threads, clocks"]
ASSUMPTIONS = ["roslaunch refuses to start a second master, as ROSLaunchParent does"]
CONTACT = ["timeout", "reset", "gaierror", "protocol", "fault"]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    ops = []
    threads = rng.random() < 0.25
    for _ in range(rng.randrange(1, 5 if tier == "quick" else 7)):
        f = {}
        x = rng.random()
        if x < 0.15:
            f["contact"] = rng.choice(CONTACT)
        elif x < 0.3:
            f["start"] = rng.choice(["roslaunch", "os", "interrupt"])
        elif x < 0.5:
            f["register"] = rng.choice(["ros", "init", "os", "exit"])
        ops.append({
            "start": rng.choice([None, False, True, True]), "name": rng.choice(["node", "node", "node", "other", ""]) if rng.random() < 0.3 else "node",
            "fault": f, "thread": int(threads and rng.random() < 0.5),
            "shut": int(rng.random() < 0.4), "gap": rng.choice([0, 1000, 250_000, 60_000_000, 10**9]),
        })
    world = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        world.append([rng.choice([100_000, 250_000, 400_000, 30_000_000, 50_400_000, 10**8, 10**9]), rng.choice(["up", "down"])])
    return {"ops": ops, "world": world, "up": int(rng.random() < 0.4), "sched": rb.gen_sched(rng, 0.02)}


def error(kind):
    import socket
    import xmlrpc.client

    e = {
        "timeout": lambda: socket.timeout("timed out"),
        "reset": lambda: ConnectionResetError(104, "reset by peer"),
        "gaierror": lambda: socket.gaierror(-2, "name not known"),
        "protocol": lambda: xmlrpc.client.ProtocolError("http://m", 502, "bad gateway", {}),
        "fault": lambda: xmlrpc.client.Fault(1, "broken master"),
        "roslaunch": lambda: RuntimeError("roslaunch cannot start"),
        "os": lambda: OSError(12, "cannot allocate memory"),
        "interrupt": lambda: KeyboardInterrupt(),
        "ros": lambda: ros.ROSException("cannot register"),
        "init": lambda: ros.ROSInitException("cannot register"),
        "exit": lambda: SystemExit(1),
    }[kind]()
    e._injected = True
    return e


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx))
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = f.get("calls", 0) > 0 and any(k.startswith("fault.") for k in f)


def history(sc, ctx):
    from rigid_body_motion.ros.utils import init_node

    S, R = core.SIM, ros.R
    m = R.master = ros.Master()
    m.running = sc["up"]
    R.node_name = None
    R.initialized = False
    foreign = [bool(sc["up"])]
    pending = {}  # tid -> faults of the current call

    def fault(kind):
        def f():
            p = pending.get(S.cur.tid)
            if p and p.get(kind):
                e = error(p[kind])
                p.setdefault("fired", []).append((kind, e))
                ctx.count(f"fault.{kind}-failure")
                return e
            return None
        return f

    m.contact_fault = fault("contact")
    m.start_fault = fault("start")
    m.register_fault = fault("register")

    def world():
        for at, what in sc["world"]:
            S.sleep_ns(at)
            if what == "up" and not m.running:
                m.running = 1
                foreign[0] = True
                m.ev("foreign-started")
                ctx.count("fault.foreign-master-started")
            elif what == "down" and m.running:
                if foreign[0]:
                    m.running = 0
                    foreign[0] = False
                    m.ev("foreign-died")
                    ctx.count("fault.foreign-master-died")

    if sc["world"]:
        rb.spawn(world, "world")

    handles = []
    alone = not any(o["thread"] for o in sc["ops"])

    def call(n, op):
        tid = S.cur.tid
        where = f"call {n} {op}"
        pending[tid] = p = dict(op["fault"])
        ev0 = len(m.events)
        kw = {} if op["start"] is None else {"start_master": op["start"]}
        started0 = len(m.started)
        exc = h = None
        try:
            h = init_node(op["name"], **kw)
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            exc = e
        pending.pop(tid)
        mine = [e for e in m.events[ev0:]]
        ctx.count("calls")
        names = [e[0] for e in mine]
        S.log("called", n, type(exc).__name__ if exc else type(h).__name__)
        if not alone:
            # only global facts are judged for overlapping calls
            if len(m.started) > started0 + 1 and alone:
                raise Violation("masters", f"{where}: {len(m.started) - started0} masters started")
            if h is not None:
                handles.append(h)
            return
        new = m.started[started0:]
        fired = p.get("fired", [])
        if fired and exc is not fired[0][1]:
            if exc is None:
                raise Violation("error-lost", f"{where}: {fired[0][0]} failed, but init_node returned {h!r}")
            raise Violation("error-masked", f"{where}: {fired[0][1]!r} was raised as {exc!r}")
        contact = next((e[0] for e in mine if e[0].startswith("contact")), None)
        if contact is None:
            raise Violation("no-contact", f"{where}: the master was not contacted: {mine}")
        regs = [k for k, e in enumerate(mine) if e[0] == "register"]
        if contact == "contact-ok":
            if "parent-created" in names or new:
                raise Violation("second-master", f"{where}: a master was reachable, events {mine}")
            if exc is None:
                if h in m.started or any(h is x for x in m.started):
                    raise Violation("handle", f"{where}: the handle controls a running master")
                check_stub(h, m, where)
        elif contact == "contact-refused":
            if not op["start"]:
                if exc is None:
                    raise Violation("no-error", f"{where}: no master reachable, returned {h!r}")
                if regs or new or "parent-created" in names:
                    raise Violation("registered", f"{where}: no master reachable, events {mine}")
            else:
                if exc is None:
                    if len(new) != 1 or h is not new[0]:
                        raise Violation("handle", f"{where}: started {new}, returned {h!r}")
                    k = names.index("master-started")
                    if not regs or regs[0] < k:
                        raise Violation("order", f"{where}: {mine}")
                elif len(new) > 1:
                    raise Violation("second-master", f"{where}: {len(new)} masters started")
                if names.count("start-error") and (new or regs):
                    raise Violation("after-start-error", f"{where}: {mine}")
        else:
            if exc is None or new or regs or "parent-created" in names:
                raise Violation("contact-error", f"{where}: {exc!r}, events {mine}")
        if exc is None:
            if len(regs) != 1 or op["name"] not in m.registered:
                raise Violation("not-registered", f"{where}: node not registered: {mine}")
            handles.append(h)
            if op["shut"]:
                before = m.running
                ours = any(h is x and x.alive for x in m.started)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    h.shutdown()
                if ours and m.running:
                    raise Violation("shutdown", f"{where}: the started master survives shutdown()")
                if not ours and m.running != before:
                    raise Violation("foreign-killed", f"{where}: shutdown() of a foreign master ended it")

    def run(t):
        for n, op in enumerate(sc["ops"]):
            if op["thread"] == t:
                call(n, op)
                if op["gap"]:
                    S.sleep_ns(op["gap"])

    other = None if alone else rb.spawn(lambda: run(1), "second")
    run(0)
    if other:
        other.join()
    if m.running > 1:
        raise Violation("masters", f"{m.running} masters are running")
    # interpreter exit
    live_foreign = m.running and foreign[0] and not any(x.alive for x in m.started)
    for fn, a, k in reversed(patch.ATEXIT):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(*a, **k)
    patch.ATEXIT.clear()
    if any(x.alive for x in m.started):
        raise Violation("stray-master", "a master started by init_node survives the interpreter's exit")
    if live_foreign and not m.running:
        raise Violation("foreign-killed", "a master started elsewhere was shut down at exit")


def check_stub(h, m, where):
    before = m.running
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        h.shutdown()
    if not w:
        raise Violation("no-warning", f"{where}: shutdown() of a foreign master does not warn")
    if m.running != before:
        raise Violation("foreign-killed", f"{where}: shutdown() ended a master started elsewhere")
