"""P14: registry and tree operations from several threads are linearizable."""

import gc
import itertools
import os
import sys
import weakref

import numpy as np

from sim import alloc, boot as simboot, core, model, patch
from sim.core import Violation, keyed
from sim.world import rbm

from .base import boot  # noqa

ID = "P14"
LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 80000}
LISTS = ["threads.0", "threads.1", "threads.2", "threads.3", "setup"]
RULE = (
    "a run is a small frame tree on which 2-4 threads perform 1-5 operations "
    "each (construct, register, update, deregister, clear, lookups and "
    "transforms by name or object, dropping references, garbage collection, "
    "out-of-memory errors) under a seeded pre-emptive interleaving of single "
    "lines or bytecodes; the recorded history is searched for an equivalent "
    "sequential one; non-trivial if operations overlapped; distinct by the "
    "event log"
)
REAL = ["reference_frames.py", "core.py", "__init__.py", "anytree", "numpy/quaternion/scipy"]
STUB = ["threads and locks (simulated scheduler)", "failing allocations", "garbage collection instants"]
ASSUMPTIONS = [
    "pre-emption happens between lines or bytecodes of the package and of anytree; a call into numpy is atomic",
    "a lookup overlapping a modification may raise",
]
MUT = ("new", "reg", "dereg", "odereg", "clear")


class Tag(str):
    """A frame name that remembers which frame it was given to."""


def tag(name, k):
    t = Tag(name)
    t.k = k
    return t


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    names = [f"f{j}" for j in range(rng.randrange(1, 4))] + ["w"]
    kinds = rng.choice([["static"], ["static"], ["static", "moving"], ["moving"]])
    moving = "moving" in kinds
    setup, created = [], 0

    def frame(name, pref, kinds=kinds):
        nonlocal created
        f = model.gen_frame(rng, created, name, pref, "ns", kinds, 6, nmin=5)
        if f["kind"] == "moving":
            n = rng.randrange(5, 9)
            f["ts"] = [model.T0["ns"] + j * 10_000_000 // 256 * 256 for j in range(n)]
        f.pop("no_t", 0)
        created += 1
        return f

    held, reg = [], []
    for j in range(rng.randrange(1, 5)):
        name = "w" if j == 0 else rng.choice(names)
        pool = [["obj", k] for k in held] + [["name", n] for n in reg]
        pref = None if j == 0 else rng.choice(pool)
        k = created
        via = "ctor" if rng.random() < 0.5 else "register"
        if via == "ctor":
            setup.append(["new", k, frame(name, pref), pref, "ctor", 0, 0])
            held.append(k)
            if name not in reg and rng.random() < 0.7:
                setup.append(["reg", k, 1])
                reg.append(name)
        else:
            setup.append(["new", k, frame(name, pref), pref, "register", 1, 0])
            if name not in reg:
                reg.append(name)
    w = {"new": 4, "reg": 2.5, "dereg": 1.2, "odereg": 0.7, "clear": 0.3, "look": 5, "drop": 0.6, "gc": 0.4}
    for k in rng.sample(sorted(w), 3):
        w[k] *= rng.choice([0.2, 3])
    keys = sorted(w)
    x = rng.random()
    if x < 0.3:
        return replacing(rng, seed, frame, setup)
    if x < 0.36:
        return attaching(rng, seed, frame, tier)
    if x < 0.44:
        return contending(rng, seed, frame, tier)
    threads = []
    nthr = rng.choice([2, 2, 2, 3] if tier == "quick" else [2, 2, 3, 3, 4])
    for t in range(nthr):
        mine, ops = [], []

        def ref(p_obj=0.3):
            objs = held + mine
            if objs and rng.random() < p_obj:
                return ["obj", rng.choice(objs)]
            return ["name", rng.choice(names)]

        for _ in range(rng.randrange(1, 5)):
            o = rng.choices(keys, [w[k] for k in keys])[0]
            if o == "new":
                k = created
                name = rng.choice(names)
                pref = ref() if name != "w" and rng.random() < 0.9 else None
                via = rng.choice(["ctor", "register", "register"])
                oom = rng.choice([0] * 8 + [1, 3, 8])
                ops.append(["new", k, frame(name, pref), pref, via, int(rng.random() < 0.6), oom])
                if via == "ctor":
                    mine.append(k)
            elif o in ("reg", "odereg", "drop"):
                objs = held + mine
                if not objs:
                    continue
                k = rng.choice(mine if o == "drop" and mine else objs)
                if o == "drop" and k not in mine:
                    continue
                ops.append([o, k, int(rng.random() < 0.6)])
            elif o == "dereg":
                ops.append([o, rng.choice(names)])
            elif o == "look":
                what = rng.choice(["transform", "pose", "points", "vectors", "quats"] + (
                    ["twist", "angular", "linvel", "angvel", "mtwist", "linear", "mlinear", "mangular"] if moving else [])
                    + ["mlinvel", "mangvel"])
                ops.append([o, what, ref(), ref(), ref(), rng.choice(["reference_frame", "moving_frame"])])
            else:
                ops.append([o])
        threads.append(ops)
    mode = rng.choice(["random", "random", "random", "pct"])
    sched = {"mode": mode, "seed": seed & 0xFFFFFFFF, "p": rng.choice([0.01, 0.03, 0.1, 0.3]), "py": 0.4}
    if mode == "pct":
        sched["p"] = rng.choice([0.005, 0.02, 0.06])
    return {"setup": setup, "threads": threads, "opcodes": int(rng.random() < 0.25), "sched": sched}


def contending(rng, seed, frame, tier):
    """Few names that all threads register and deregister."""
    setup = [["new", 0, frame("w", None), None, "ctor", 0, 0], ["reg", 0, 1]]
    names = rng.choice([["a"], ["a"], ["a", "b"]])
    n = [100]

    def new(via, update=0):
        n[0] += 1
        name = rng.choice(names)
        up = rng.choice([["obj", 0], ["obj", 0], ["name", "w"]])
        return ["new", n[0], dict(frame(name, up), key=n[0]), up, via, update, 0]

    taken = rng.random() < 0.4
    if taken:
        setup.append(new("register"))
    threads = []
    for t in range(rng.choice([2, 2, 3] if tier == "quick" else [2, 3, 4])):
        setup.append(new("ctor"))
        mine = [n[0]]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            y = rng.random()
            if y < 0.45:
                ops.append(["reg", rng.choice(mine), int(rng.random() < 0.25)])
            elif y < 0.6:
                ops.append(["dereg", rng.choice(names)])
            elif y < 0.7:
                ops.append(["odereg", rng.choice(mine), 0])
            elif y < 0.9:
                ops.append(new("register", int(rng.random() < 0.25)))
            elif y < 0.95:
                ops.append(["look", "transform", ["name", rng.choice(names)], ["name", "w"], ["name", "w"],
                            "reference_frame"])
            else:
                ops.append(["clear"])
        threads.append(ops)
    sched = {"mode": "random", "seed": seed & 0xFFFFFFFF, "p": rng.choice([0.1, 0.2, 0.4]), "py": 0.4}
    return {"setup": setup, "threads": threads, "opcodes": int(rng.random() < 0.25), "sched": sched}


def attaching(rng, seed, frame, tier):
    """The first children of a frame come and go in several threads."""
    setup = [["new", 0, frame("w", None), None, "ctor", 0, 0], ["reg", 0, 1]]
    up = [["obj", 0], ["name", "w"]]
    n = [100]
    if rng.random() < 0.5:
        setup.append(["new", 1, dict(frame("p", up[0]), key=1), up[0], "ctor", 0, 0])
        up = [["obj", 1]] + up[:1]
    threads = []
    for t in range(rng.choice([2, 2, 3] if tier == "quick" else [2, 3, 4])):
        ops, mine = [], []
        for _ in range(rng.randrange(1, 4)):
            if mine and rng.random() < 0.3:
                ops.append(["drop", mine.pop(), 0])
                continue
            n[0] += 1
            pref = rng.choice(up)
            name = rng.choice(["a", "b"])
            via = rng.choice(["ctor", "ctor", "register"])
            ops.append(["new", n[0], dict(frame(name, pref), key=n[0]), pref, via, int(rng.random() < 0.5), 0])
            if via == "ctor":
                mine.append(n[0])
        threads.append(ops)
    sched = {"mode": "random", "seed": seed & 0xFFFFFFFF, "p": rng.choice([0.05, 0.1, 0.3]), "py": 0.4}
    return {"setup": setup, "threads": threads, "opcodes": int(rng.random() < 0.25), "sched": sched}


def replacing(rng, seed, frame, setup):
    """Frames replaced again and again while other threads use them."""
    setup = [["new", 0, setup[0][2], None, "ctor", 0, 0], ["reg", 0, 1]]
    names = ["a", "b", "c"]
    n = [100]
    moving = rng.random() < 0.75
    kinds = ["moving"] if moving else ["static"]

    def new(name):
        n[0] += 1
        f = dict(frame(name, ["obj", 0], kinds), key=n[0])
        return ["new", n[0], f, ["obj", 0], "register", 1, 0]

    for x in names:
        setup.append(new(x))
    whats = ["transform", "pose", "points", "mlinvel", "mangvel", "mlinvel", "mangvel", "linvel", "angvel"]
    if moving:
        whats += ["twist", "angular", "linear", "mtwist", "mlinear", "mangular"]
    # one frame replaced, the others of a lookup stay
    victim = rng.choice(names) if rng.random() < 0.6 else None
    if victim and moving:
        whats += ["twist", "angular", "mtwist", "mlinear", "mangular"] * 2
    threads = [[] for _ in range(rng.choice([2, 2, 3]))]
    for t, ops in enumerate(threads):
        for _ in range(rng.randrange(1, 4)):
            if t == 0:
                ops.append(new(victim or rng.choice(names)))
            else:
                a, b, c = rng.sample(names, 3)
                if victim and rng.random() < 0.5:
                    a, b, c = rng.sample([x for x in names if x != victim], 2) + [victim]
                if rng.random() < 0.2:
                    b = "w"
                ops.append(["look", rng.choice(whats), ["name", a], ["name", b], ["name", c],
                            rng.choice(["reference_frame", "moving_frame"])])
    sched = {"mode": "random", "seed": seed & 0xFFFFFFFF, "p": rng.choice([0.01, 0.03, 0.1]), "py": 0.4}
    return {"setup": setup, "threads": threads, "opcodes": 0, "sched": sched}


class Run:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        self.seed = sc["seed"]
        self.frames = {}  # k -> (spec, args, name)
        self.held = {}
        self.refs = {}
        self.hist = []
        self.parents = {}  # k -> parent k of setup frames
        self.clones = {}
        self.cache = {}

    # -- real calls ------------------------------------------------------------
    def arg(self, ref):
        if ref is None:
            return None
        return self.held[ref[1]] if ref[0] == "obj" else ref[1]

    def usable(self, ref):
        return ref is None or ref[0] == "name" or ref[1] in self.held

    def call(self, op):
        R = rbm()
        o = op[0]
        if o == "new":
            _, k, f, pref, via, update, oom = op
            args = model.frame_args(self.seed, f)
            self.frames[k] = (f, args)
            parent = self.arg(pref)
            if via == "ctor":
                rf = R.ReferenceFrame(tag(f["name"], k), parent, **args)
                self.held[k] = rf
                self.refs[k] = weakref.ref(rf)
            else:
                R.register_frame(tag(f["name"], k), parent, **({"update": True} if update else {}), **args)
        elif o == "reg":
            self.held[op[1]].register(**({"update": True} if op[2] else {}))
        elif o == "dereg":
            R.deregister_frame(op[1])
        elif o == "odereg":
            self.held[op[1]].deregister()
        elif o == "clear":
            R.clear_registry()
        elif o == "drop":
            self.held.pop(op[1])
        elif o == "gc":
            gc.collect()
        elif o == "look":
            _, what, a, b, c, vel = op
            return look(R, what, self.arg(a), self.arg(b), self.arg(c), vel)

    def perform(self, t, op):
        S = core.SIM
        o = op[0]
        refs = []
        if o == "new":
            refs = [op[3]]
        elif o in ("reg", "odereg", "drop"):
            refs = [["obj", op[1]]]
        elif o == "look":
            refs = op[2:5]
        if not all(self.usable(r) for r in refs):
            return
        oom = op[6] if o == "new" else 0
        h = {"t": t, "op": op, "inv": S.log("call", t, *op_text(op)), "err": None, "val": None, "oom": False}
        self.hist.append(h)
        try:
            if oom:
                al = alloc.Alloc(oom)
                try:
                    with al:
                        h["val"] = self.call(op)
                finally:
                    h["oom"] = al.fired
                    if al.fired:
                        self.ctx.count("fault.out-of-memory")
            else:
                h["val"] = self.call(op)
        except Exception as e:
            h["err"] = e
            if o in MUT and not isinstance(e, ValueError) and not h["oom"]:
                raise Violation("unexpected-error", f"{op_text(op)}: {type(e).__name__}: {e}")
        h["res"] = S.log("return", t, type(h["err"]).__name__ if h["err"] else "ok")

    # -- reference values -----------------------------------------------------------
    def clone(self, k, parents):
        if k not in self.clones:
            f, args = self.frames[k]
            p = parents.get(k)
            R = rbm()
            cp = self.clone(p, parents) if p is not None else None
            self.clones[k] = R.ReferenceFrame(f["name"], cp, **args)
        return self.clones[k]

    def value(self, op, ids, parents):
        """Result of a lookup run alone on the given frames; None if it raises."""
        key = (repr(op), ids)
        if key not in self.cache:
            _, what, _, _, _, vel = op
            try:
                self.cache[key] = look(rbm(), what, *[self.clone(k, parents) for k in ids], vel)
            except Exception:
                self.cache[key] = None
        return self.cache[key]


def op_text(op):
    if op[0] == "new":
        return ["new", op[1], op[2]["name"], op[3], op[4], op[5]]
    return list(op)


def look(R, what, a, b, c, vel):
    if what == "transform":
        return R.lookup_transform(a, b, return_timestamps=True)
    if what == "pose":
        return R.lookup_pose(a, b, return_timestamps=True)
    if what == "points":
        return (R.transform_points(np.array([0.5, -1.0, 2.0]), into=b, outof=a),)
    if what == "vectors":
        return (R.transform_vectors(np.array([0.5, -1.0, 2.0]), into=b, outof=a),)
    if what == "quats":
        return (R.transform_quaternions(np.array([0.6, 0.0, -0.8, 0.0]), into=b, outof=a),)
    if what in ("mtwist", "mlinear", "mangular"):
        f = R.registry[a] if isinstance(a, str) else a
        if what == "mtwist":
            return f.lookup_twist(b, c, return_timestamps=True)
        if what == "mlinear":
            return f.lookup_linear_velocity(b, c, return_timestamps=True)
        return f.lookup_angular_velocity(b, c, return_timestamps=True)
    if what == "linear":
        return R.lookup_linear_velocity(a, b, c, return_timestamps=True)
    if what == "twist":
        return R.lookup_twist(a, b, c, return_timestamps=True)
    if what == "angular":
        return R.lookup_angular_velocity(a, b, c, return_timestamps=True)
    arr = np.array([0.25, 1.0, -0.5])
    kw = {"what": vel}
    if what.endswith("linvel"):
        kw["moving_frame" if vel == "reference_frame" else "reference_frame"] = c
    if what == "linvel":
        return R.transform_linear_velocity(arr, into=b, outof=a, return_timestamps=True, **kw)
    if what == "angvel":
        return R.transform_angular_velocity(arr, into=b, outof=a, return_timestamps=True, **kw)
    fa = R.registry[a] if isinstance(a, str) else a
    if what == "mlinvel":
        return fa.transform_linear_velocity(arr, b, return_timestamps=True, **kw)
    return fa.transform_angular_velocity(arr, b, return_timestamps=True, **kw)


def uses(what):
    """How many of the three frames of a lookup matter."""
    return 3 if what in (
        "twist", "angular", "linear", "mtwist", "mlinear", "mangular", "linvel", "mlinvel") else 2


def same(x, y):
    if x is None or y is None or len(x) != len(y):
        return False
    for a, b in zip(x, y):
        if (a is None) != (b is None):
            return False
        if a is None:
            continue
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == "f":
            if not np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True):
                return False
        elif not np.array_equal(a, b):
            return False
    return True


def execute(sc, ctx):
    import anytree

    run = Run(sc, ctx)
    S = core.Sim(sc["sched"])
    S.watch = (simboot.PKG + os.sep, os.path.dirname(anytree.__file__) + os.sep)
    S.opcodes = bool(sc.get("opcodes"))
    R = rbm()

    def invariant(frame):
        for n, rf in R.registry.items():
            if rf.name != n:
                raise Violation("registry-name", f"registry[{n!r}] is a frame named {rf.name!r}")

    def main():
        S.line_preempt = False
        for op in sc["setup"]:
            run.perform("setup", op)
            if run.hist and run.hist[-1]["err"] is not None and run.hist[-1]["op"] is op:
                if op[0] == "new":
                    raise Violation("setup", f"{op_text(op)}: {run.hist[-1]['err']!r}")
        S.line_preempt = True
        S.on_line = invariant
        ths = [patch.Thread(target=worker, args=(t, ops)) for t, ops in enumerate(sc["threads"])]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        S.on_line = None
        sys.settrace(None)
        invariant(None)

    bad = []

    def worker(t, ops):
        for op in ops:
            try:
                run.perform(t, op)
            except Violation as v:
                bad.append(v)
                return

    end = S.run(main)
    if bad:
        raise bad[0]
    if S.uncaught:
        t, e = S.uncaught[0]
        if isinstance(e, Violation):
            raise e
        raise Violation("thread-died", f"{t.name}: {type(e).__name__}: {e}")
    if end != "main":
        raise Violation("no-progress", f"the threads ended in {end}")
    judge(run, ctx)


def overlaps(a, b):
    return a["inv"] < b["res"] and b["inv"] < a["res"]


def final_state(run):
    """What can be observed at the end: registry and the links of usable frames."""
    R = rbm()
    reg, links = {}, {}

    def ident(rf):
        k = getattr(rf.name, "k", None)
        if k is not None:
            return k
        for j, r in run.refs.items():
            if r() is rf:
                return j
        for j, (f, args) in run.frames.items():
            if f["name"] == rf.name and rf.translation is not None:
                m = model.MFrame(f, args, object())
                if m.t is not None and np.shape(m.t) == np.shape(rf.translation) and np.allclose(m.t, rf.translation):
                    return j
        return None

    todo = []
    for n, rf in R.registry.items():
        reg[str(n)] = ident(rf)
        todo.append(rf)
    todo.extend(run.held.values())
    seen = set()
    while todo:
        rf = todo.pop()
        if id(rf) in seen:
            continue
        seen.add(id(rf))
        k = ident(rf)
        links[k] = (
            ident(rf.parent) if rf.parent is not None else None,
            sorted(ident(c) for c in rf.children),
        )
        todo.extend(rf.children)
        if rf.parent is not None:
            todo.append(rf.parent)
    return reg, links


def judge(run, ctx):
    H = run.hist
    n = len(H)
    muts = [h for h in H if h["op"][0] in MUT]
    ov = 0
    for h in H:
        h["ov"] = any(m is not h and overlaps(h, m) for m in muts)
        ov += h["ov"]
    ctx.nontrivial = ov > 0
    ctx.count("operations", n)
    ctx.count("overlapping", ov)
    reg_fin, links_fin = final_state(run)
    pred = [0] * n
    for i, h in enumerate(H):
        for j, g in enumerate(H):
            if g["res"] < h["inv"]:
                pred[i] |= 1 << j

    # names candidates ever had, for overlapping lookups
    def candidates(ref, h):
        if ref[0] == "obj":
            return [ref[1]]
        out = []
        for g in muts:
            if g["err"] is not None or g["inv"] > h["res"]:
                continue
            if g["op"][0] == "new" and g["op"][4] == "register" and g["op"][2]["name"] == ref[1]:
                out.append(g["op"][1])
            if g["op"][0] == "reg" and run.frames[g["op"][1]][0]["name"] == ref[1]:
                out.append(g["op"][1])
        return sorted(set(out))

    seen = set()
    deepest = [0, None, ""]

    def matches(state_reg, links):
        """Does the model state agree with what is observable in the end?"""
        if state_reg != reg_fin:
            return f"registry {reg_fin}, expected {state_reg}"
        for k, (p, kids) in links_fin.items():
            if links.get(k) != p:
                return f"parent of frame {k} is {p}, expected {links.get(k)}"
            want = sorted(j for j, q in links.items() if q == k and (j in links_fin or alive(j)))
            if sorted(kids) != want:
                return f"children of frame {k} are {kids}, expected {want}"
        return None

    def alive(j):
        r = run.refs.get(j)
        return r is None or r() is not None

    def resolve(reg, ref):
        return ref[1] if ref[0] == "obj" else reg.get(ref[1])

    def root(links, k):
        while links.get(k) is not None:
            k = links[k]
        return k

    def apply(h, reg, links, orig):
        """(ok, reg, links, orig) after h in this state; None if it contradicts."""
        op, err = h["op"], h["err"]
        o = op[0]
        if h["oom"] and err is not None:
            return reg, links, orig
        if o == "new":
            _, k, f, pref, via, update, _ = op
            p = resolve(reg, pref) if pref is not None else None
            fails = pref is not None and p is None
            if via == "register" and f["name"] in reg and not update:
                fails = True
            if fails != (err is not None):
                return None
            if fails:
                return reg, links, orig
            links = dict(links)
            links[k] = p
            orig = dict(orig)
            orig[k] = p
            if via == "register":
                reg = dict(reg)
                if f["name"] in reg:
                    links[reg[f["name"]]] = None
                reg[f["name"]] = k
            return reg, links, orig
        if o == "reg":
            _, k, update = op
            name = run.frames[k][0]["name"]
            fails = name in reg and not update
            if fails != (err is not None):
                return None
            if fails:
                return reg, links, orig
            reg = dict(reg)
            if name in reg and reg[name] != k:
                links = dict(links)
                links[reg[name]] = None
            reg[name] = k
            return reg, links, orig
        if o in ("dereg", "odereg"):
            name = op[1] if o == "dereg" else run.frames[op[1]][0]["name"]
            fails = name not in reg or (o == "odereg" and reg[name] != op[1])
            if fails != (err is not None):
                return None
            if fails:
                return reg, links, orig
            reg = dict(reg)
            del reg[name]
            return reg, links, orig
        if o == "clear":
            return None if err is not None else ({}, links, orig)
        if o == "look":
            m = uses(op[1])
            refs = op[2:2 + m]
            if h["ov"]:
                if err is not None:
                    return reg, links, orig
                return reg, links, orig  # judged below
            ids = tuple(resolve(reg, r) for r in refs)
            if None in ids or len({root(links, k) for k in ids}) > 1:
                # a frame is unknown or unconnected
                return None if err is None and not trivially(op, ids) else (reg, links, orig)
            ids = ids + ids[:1] * (3 - m)
            want = run.value(op, ids, orig)
            if (want is None) != (err is not None):
                return None
            if want is not None and not same(h["val"], want):
                return None
            return reg, links, orig
        return reg, links, orig

    def trivially(op, ids):
        return False

    def key(mask, reg, links):
        return mask, tuple(sorted(reg.items())), tuple(sorted(links.items(), key=str))

    def search(mask, reg, links, orig):
        if mask == (1 << n) - 1:
            why = matches(reg, links)
            if why is None:
                return orig
            deepest[2] = why
            return None
        kk = key(mask, reg, links)
        if kk in seen:
            return None
        seen.add(kk)
        for i in range(n):
            if mask >> i & 1 or pred[i] & ~mask:
                continue
            r = apply(H[i], reg, links, orig)
            done = bin(mask).count("1")
            if r is None:
                if done >= deepest[0]:
                    deepest[:2] = [done, i]
                continue
            out = search(mask | 1 << i, *r)
            if out is not None:
                return out
        return None

    orig = search(0, {}, {}, {})
    ctx.count("search-states", len(seen))
    if orig is None:
        i = deepest[1]
        last = ""
        if deepest[2]:
            last = f"; final state: {deepest[2]}"
        at = "" if i is None else f"; no order explains {op_text(H[i]['op'])} -> {H[i]['err']!r}"
        hist = "; ".join(f"{h['t']}[{h['inv']}-{h['res']}] {op_text(h['op'])} -> {h['err']!r}" for h in H)
        raise Violation("not-linearizable", f"no sequential order explains the history{last}{at}: {hist}")
    # lookups that overlapped modifications
    for h in H:
        if h["op"][0] != "look" or not h["ov"]:
            continue
        if h["err"] is not None:
            ctx.count("lookup-error")
            continue
        m = uses(h["op"][1])
        cands = [candidates(r, h) for r in h["op"][2:2 + m]]
        for ids in itertools.product(*cands):
            if any(k not in run.frames or k not in orig for k in ids):
                continue
            if same(h["val"], run.value(h["op"], ids + ids[:1] * (3 - m), orig)):
                ctx.count("lookup-concurrent")
                break
        else:
            raise Violation("lookup-mixture", f"{op_text(h['op'])} of {cands}: result is that of no frame")
    for h in H:
        if h["op"][0] == "look" and not h["ov"] and h["err"] is None:
            ctx.count("lookup-alone")
