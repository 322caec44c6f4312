"""P13: failed frame operations leave registry and tree as they were."""

import numpy as np

from sim import alloc, model
from sim.core import Violation, keyed
from sim.world import World, gc_collect, in_sim, rbm

from .base import boot  # noqa
from . import p15

ID = "P13"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 40000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 6-30 constructions, registrations, updates "
    "and deregistrations of which about half fail (invalid arguments, "
    "duplicate or unknown names, MemoryError at a seeded numerical call), "
    "with the state compared after each and many repeated with valid "
    "arguments; non-trivial if an operation failed while frames were "
    "registered or linked; distinct by the event log"
)
REAL = ["reference_frames.py", "core.py", "utils.py", "anytree", "numpy/quaternion", "xarray"]
STUB = ["numerical calls that run out of memory (sim/alloc.py)", "garbage collection instants"]
ASSUMPTIONS = ["allocation fails at entry of a numpy, quaternion, scipy, pandas or xarray call"]

BAD = [
    "t-shape", "t-length", "t-ndim", "t-ragged", "r-shape", "r-length", "ts-2d", "ts-long",
    "discrete-static", "root-t", "root-r", "root-ts", "parent-unknown", "parent-type",
    "name-none", "dup", "name-unhashable", "dataset-var", "dataset-shape", "matrix-shape", "matrix-values",
]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    family = rng.choice(["ns", "float", "mixed", "ms", "us"])
    names = [f"f{j}" for j in range(rng.randrange(2, 6))]
    kinds = rng.choice([["static"], ["static", "moving"], ["static", "moving", "discrete"], ["moving"]])
    ops, frames, held, reg = [], {}, set(), {}
    n = rng.randrange(6, 24 if tier == "quick" else 40)
    created = 0

    def ref():
        pool = [["obj", k] for k in sorted(held)] + [["name", x] for x in sorted(reg)]
        return list(rng.choice(pool)) if pool else None

    while len(ops) < n:
        x = rng.random()
        if created < 2:
            x = 0
        if x < 0.75:
            name = rng.choice(names)
            pref = ref() if created and rng.random() < 0.85 else None
            f = model.gen_frame(rng, created, name, pref, family, kinds, 6, nmin=2)
            via = rng.choice(["ctor", "ctor", "register", "register", "dataset", "tda", "rda"])
            if via in ("dataset", "tda", "rda") and f["kind"] not in ("moving", "discrete"):
                via = "ctor"
            if via == "tda":
                f.pop("no_t", 0)
                f["no_r"] = 1
            if via == "rda":
                f.pop("no_r", 0)
                f["no_t"] = 1
            update = int(rng.random() < 0.5)
            op = ["new", created, f, pref, via, update]
            fails = None
            y = rng.random()
            if created >= 2 and y < 0.4:
                kind = rng.choice(BAD)
                fails = ["bad", kind]
            elif y < 0.65:
                fails = ["oom", rng.choice([1, 1, 2, 3, 5, 8, 13, 20, 30]) + rng.randrange(3)]
            again = int(rng.random() < 0.6)
            ops.append(op + [fails, again])
            created += 1
            if not fails or again:
                frames[op[1]] = name
                if via == "register":
                    if name not in reg or update:
                        reg[name] = op[1]
                else:
                    held.add(op[1])
        elif x < 0.87:
            if not held:
                continue
            k = rng.choice(sorted(held))
            update = int(rng.random() < 0.5)
            oom = rng.choice([0, 0, 1, 2])
            ops.append(["reg", k, update, oom])
            if frames[k] not in reg or update:
                reg[frames[k]] = k
        elif x < 0.91 and held:
            k = rng.choice(sorted(held))
            ops.append(["odereg", k])
            if reg.get(frames[k]) == k:
                del reg[frames[k]]
        elif x < 0.94:
            name = rng.choice(names + ["nobody"])
            ops.append(["dereg", name])
            reg.pop(name, None)
        elif x < 0.97:
            if held:
                k = rng.choice(sorted(held))
                ops.append(["drop", k])
                held.discard(k)
        else:
            ops.append(["gc"])
        if created and rng.random() < 0.25:
            a, b = ref(), ref()
            if a and b:
                ops.append(["lookup", a, b, rng.randrange(1 << 30)])
    return {"ops": ops, "sched": {"mode": "fifo"}}


def execute(sc, ctx):
    in_sim(sc["sched"], lambda: history(sc, ctx), ctx)
    ctx.nontrivial = any(k.startswith("fault.") for k in ctx.stats)


def call_of(W, op, bad=None):
    """The real call of a 'new' operation, optionally with bad arguments."""
    R = rbm()
    _, k, f, pref, via, update = op[:6]
    args = model.frame_args(W.seed, f)
    parent = W.arg(pref)
    name = f["name"]
    static = "timestamps" not in args
    n = None if static else len(args["timestamps"])
    if bad == "t-shape":
        args["translation"] = np.zeros(4 if static else (n, 4))
    elif bad == "t-length":
        args["translation"] = np.zeros((3, 1) if static else (n + 1, 3))
    elif bad == "t-ndim":
        args["translation"] = np.zeros((1, 3) if static else (n, 1, 3))
    elif bad == "t-ragged":
        args["translation"] = [0.0, [1.0, 2.0], 3.0]
    elif bad == "r-shape":
        args["rotation"] = np.zeros(3 if static else (n, 3))
    elif bad == "r-length":
        args["rotation"] = np.zeros((2, 4) if static else (n + 2, 4))
    elif bad == "ts-2d":
        args["timestamps"] = np.zeros((3, 1))
    elif bad == "ts-long":
        args["timestamps"] = np.arange((n or 3) + 5).astype(float)
        args.setdefault("translation", np.zeros((n or 3, 3)))
    elif bad == "discrete-static":
        args.pop("timestamps", None)
        for a, w in (("translation", 3), ("rotation", 4)):
            if a in args:
                args[a] = np.zeros(w)
        args["discrete"] = True
    elif bad in ("root-t", "root-r", "root-ts"):
        parent = None
        args = {"root-t": {"translation": (1, 2, 3)}, "root-r": {"rotation": (1, 0, 0, 0)},
                "root-ts": {"timestamps": [1.0, 2.0]}}[bad]
    elif bad == "parent-unknown":
        parent = "nobody"
    elif bad == "parent-type":
        parent = 42
    elif bad == "name-none":
        name, via = None, "register"
    elif bad == "name-unhashable":
        name, via = ["f0"], "register"
    elif bad == "dup":
        if not W.reg:
            return None
        name, via, update = sorted(W.reg)[k % len(W.reg)], "register", 0
    needs_parent = bad in ("t-shape", "t-length", "t-ndim", "t-ragged", "r-shape", "r-length", "ts-2d", "ts-long", "discrete-static")
    if needs_parent and parent is None:
        # any argument is invalid for a root
        pass
    if bad == "matrix-shape":
        return lambda: R.ReferenceFrame.from_rotation_matrix(np.eye(4), parent if parent is not None else "nobody", name)
    if bad == "matrix-values":
        return lambda: R.ReferenceFrame.from_rotation_matrix(np.full((3, 3), np.nan), "nobody", name)
    if bad in ("dataset-var", "dataset-shape"):
        import xarray as xr

        ds = xr.Dataset({"position": (["time", "c"], np.zeros((3, 2))), "orientation": (["time", "q"], np.zeros((3, 4)))},
                        {"time": [0.0, 1.0, 2.0]})
        p = parent if parent is not None else "nobody"
        rot = "nothing" if bad == "dataset-var" else "orientation"
        return lambda: R.ReferenceFrame.from_dataset(ds, "position", rot, "time", p, name=name)
    if via == "register":
        return lambda: R.register_frame(name, parent, **({"update": True} if update else {}), **args)
    kw = dict(name=name, inverse=bool(args.get("inverse")), discrete=bool(args.get("discrete")))
    if bad is None and via == "dataset":
        ds = W.as_dataset(args)
        return lambda: R.ReferenceFrame.from_dataset(ds, "position", "orientation", "time", parent, **kw)
    if bad is None and via in ("tda", "rda"):
        ds = W.as_dataset(args)
        if via == "tda":
            return lambda: R.ReferenceFrame.from_translation_dataarray(ds.position, "time", parent, **kw)
        return lambda: R.ReferenceFrame.from_rotation_dataarray(ds.orientation, "time", parent, **kw)
    return lambda: R.ReferenceFrame(name, parent, **args)


def attempt(call, oom):
    """(result or None, exception text or None, allocation failure fired)."""
    if oom:
        al = alloc.Alloc(oom)
        try:
            with al:
                return call(), None, al.fired
        except Exception as e:
            return None, f"{type(e).__name__}: {e}", al.fired
    try:
        return call(), None, False
    except Exception as e:
        return None, f"{type(e).__name__}: {e}", False


def history(sc, ctx):
    from sim import core

    R = rbm()
    W = World(sc["seed"], ctx)
    S = core.SIM
    for n, op in enumerate(sc["ops"]):
        o = op[0]
        where = f"op {n} {o}"
        if o == "new":
            _, k, f, pref, via, update, fails, again = op
            if k in W.mods or (pref is not None and W.resolve(pref) is None):
                continue
            done = False
            if fails:
                bad = fails[1] if fails[0] == "bad" else None
                where = f"op {n} {via} of {f['name']!r} failing by {fails}"
                call = call_of(W, op, bad)
                if call is None:
                    continue
                real, err, fired = attempt(call, fails[1] if fails[0] == "oom" else 0)
                if err is None and bad:
                    raise Violation("invalid-accepted", f"{where}: no error")
                if err is not None:
                    refused = via == "register" and f["name"] in W.reg and not update
                    if not bad and not fired and not refused:
                        raise Violation("unexpected-error", f"{where}: {err}")
                    ctx.count("fault.invalid-arguments" if bad else "fault.out-of-memory" if fired else "refused")
                    W.check_state("state-after-failure", f"{where} ({err})")
                    gc_collect()
                    W.check_state("state-after-failure", f"{where} ({err}), collected")
                else:
                    done = True
                    adopt(W, op, real, where)
                    real = None
            if not done and (not fails or again):
                call = call_of(W, op)
                real, err, _ = attempt(call, 0)
                refused = via == "register" and f["name"] in W.reg and not update
                if refused:
                    if err is None:
                        raise Violation("duplicate-accepted", f"{where}: {f['name']!r} registered twice")
                    ctx.count("fault.duplicate-name")
                elif err is not None:
                    raise Violation("retry", f"{where}: with valid arguments: {err}")
                else:
                    adopt(W, op, real, where)
                    if fails:
                        ctx.count("repeated")
                real = None
        elif o == "reg":
            _, k, update, oom = op
            if k not in W.held:
                continue
            name = W.mods[k].name
            _, err, fired = attempt(lambda: W.held[k].register(**({"update": True} if update else {})), oom)
            if err is not None and not fired:
                if name not in W.reg or update:
                    raise Violation("unexpected-error", f"{where} {name}: {err}")
                ctx.count("fault.duplicate-name")
            if err is None and not W.m_register(k, update):
                raise Violation("duplicate-accepted", f"{where} {name!r}")
        elif o == "dereg":
            want = op[1] in W.reg
            _, err, _ = attempt(lambda: R.deregister_frame(op[1]), 0)
            if (err is None) != want:
                raise Violation("deregister-result", f"{where} {op[1]}: {err}")
            if want:
                del W.reg[op[1]]
            else:
                ctx.count("fault.unknown-name")
        elif o == "odereg":
            k = op[1]
            if k not in W.held:
                continue
            name = W.mods[k].name
            want = W.reg.get(name) == k
            _, err, _ = attempt(lambda: W.held[k].deregister(), 0)
            if (err is None) != want:
                raise Violation("deregister-result", f"{where} frame {k} ({name}): {err}")
            if want:
                del W.reg[name]
            else:
                ctx.count("fault.not-registered")
        elif o == "drop":
            W.held.pop(op[1], None)
        elif o == "gc":
            gc_collect()
        elif o == "lookup":
            p15.lookup_op(W, R, op, where, ctx, S)
        W.check_state("state", where)
        S.log(o, n, sorted(W.reg), len(W.held))


def adopt(W, op, real, where):
    R = rbm()
    _, k, f, pref, via, update = op[:6]
    args = model.frame_args(W.seed, f)
    if via == "dataset":
        pass
    W.m_add(k, f, W.resolve(pref) if pref else None, args)
    if via == "register":
        W.m_register(k, update)
        W.adopt(k, R.registry[f["name"]], False)
    else:
        W.adopt(k, real, True)
