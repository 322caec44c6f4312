"""P15: registry and lookups reflect the current tree over any history."""

import numpy as np

from sim import model
from sim.core import Violation, keyed
from sim.world import World, gc_collect, in_sim, rbm

from .base import boot  # noqa

ID = "P15"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 40000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 8-40 frame operations, reference drops, "
    "forced garbage collections and lookups over 3-8 names; non-trivial if it "
    "contains an update, drop or collection and at least one compared lookup; "
    "distinct by the hash of the event log"
)
REAL = ["reference_frames.py", "core.py", "utils.py", "__init__.py", "anytree", "numpy/quaternion/scipy", "CPython GC"]
STUB = ["garbage collection instants (gc disabled, collected by the history)"]
ASSUMPTIONS = [
    "interpolation of rotations between samples is compared with quaternion.squad",
    "frames have at least two samples unless discrete; stamps increase strictly",
]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    family = rng.choice(["ns", "float", "mixed", "ms", "us"])
    names = [f"f{j}" for j in range(rng.randrange(3, 8))]
    n = rng.randrange(8, 28 if tier == "quick" else 45)
    kinds = rng.choice(
        [["static"], ["static", "moving"], ["static", "moving", "discrete"],
         ["discrete", "static"], ["moving"]]
    )
    nmax = rng.choice([3, 8, 12] * 4 + [40])
    nmins = [1, 2, 2] if nmax == 3 or rng.random() < 0.5 else [1, 5, 6]
    ops = []
    created = 0
    held, reg = set(), {}  # what the workload can refer to at this point
    frames = {}
    w = {
        "new": 4, "reg": 3, "dereg": 0.8, "drop": 2, "gc": 1.5, "clear": 0.1,
        "lookup": 7, "points": 5, "pose": 2, "velocity": 3, "transvel": 2, "self": 0.8, "render": 0.3,
    }
    for k in rng.sample(sorted(w), 3):
        w[k] *= rng.choice([0.3, 2.5])
    keys = sorted(w)

    def ref(valid=0.95):
        if rng.random() > valid:
            return rng.choice([["name", rng.choice(names)], ["obj", rng.randrange(created)]])
        pool = [["obj", k] for k in sorted(held)] + [["name", x] for x in sorted(reg)]
        return list(rng.choice(pool)) if pool else None

    while len(ops) < n:
        o = rng.choices(keys, [w[k] for k in keys])[0]
        if created < 3:
            o = "new"
        if o == "new":
            name = rng.choice(names)
            pref = None
            if created and rng.random() < 0.85:
                pref = ref()
            f = model.gen_frame(rng, created, name, pref, family, kinds, nmax, nmin=rng.choice(nmins))
            via = rng.choice(["ctor", "ctor", "register", "register", "dataset"])
            if via == "dataset" and f["kind"] not in ("moving", "discrete"):
                via = "ctor"
            elif f["kind"] in ("moving", "discrete") and ("no_t" in f) != ("no_r" in f) and rng.random() < 0.6:
                via = "dataarray"
            elif f["kind"] == "static" and "no_t" in f and rng.random() < 0.6:
                via = "matrix"
            elif via == "ctor" and rng.random() < 0.2:
                via = "lists"
            update = int(rng.random() < 0.6)
            ops.append(["new", created, f, pref, via, update])
            if via == "register":
                if name not in reg or update:
                    reg[name] = created
            else:
                held.add(created)
            frames[created] = name
            created += 1
        elif o == "reg":
            if not held:
                continue
            k = rng.choice(sorted(held))
            update = int(rng.random() < 0.7)
            ops.append(["reg", k, update])
            if frames[k] not in reg or update:
                reg[frames[k]] = k
        elif o == "dereg":
            name = rng.choice(sorted(reg) or names) if rng.random() < 0.8 else rng.choice(names)
            if held and rng.random() < 0.25:
                k = rng.choice(sorted(held))
                ops.append(["odereg", k])
                if reg.get(frames[k]) == k:
                    del reg[frames[k]]
                continue
            ops.append(["dereg", name, int(rng.random() < 0.5)])
            reg.pop(name, None)
        elif o == "drop":
            if not held:
                continue
            k = rng.choice(sorted(held))
            ops.append(["drop", k])
            held.discard(k)
        elif o == "clear":
            ops.append([o])
            reg.clear()
        elif o == "gc":
            ops.append([o])
        elif o in ("self", "render"):
            if reg:
                ops.append([o, rng.choice(sorted(reg))])
        else:
            ra, rb = ref(), ref()
            if ra and rb:
                ops.append([o, ra, rb, rng.randrange(1 << 30)])
    return {"ops": ops, "family": family, "sched": {"mode": "fifo"}}


def execute(sc, ctx):
    in_sim(sc["sched"], lambda: history(sc, ctx), ctx)
    st = ctx.stats
    ctx.nontrivial = st.get("compared", 0) > 0 and (
        st.get("update", 0) + st.get("fault.reference-dropped", 0) + st.get("fault.gc-forced", 0) > 0
    )


def history(sc, ctx):
    from sim import core

    R = rbm()
    W = World(sc["seed"], ctx)
    S = core.SIM
    for n, op in enumerate(sc["ops"]):
        where = f"op {n} {op[0]}"
        o = op[0]
        if o == "new":
            _, k, f, pref, via, update = op
            if pref is not None and W.resolve(pref) is None:
                continue
            if k in W.mods:
                continue
            pid = W.resolve(pref) if pref else None
            call, args = W.construct(op)
            # a refused registration leaves no frame behind (see P13)
            refused = via == "register" and f["name"] in W.reg and not update
            try:
                real = call()
                raised = None
            except ValueError as e:
                raised = repr(e)
            if refused != (raised is not None):
                raise Violation("register-result", f"{where}: raised {raised}, expected error: {refused}")
            if raised is not None:
                ctx.count("refused")
            else:
                W.m_add(k, f, pid, args)
                if via == "register":
                    if f["name"] in W.reg:
                        ctx.count("update")
                    W.m_register(k, update)
                    W.adopt(k, R.registry[f["name"]], False)
                else:
                    W.adopt(k, real, True)
                    real = None
        elif o == "reg":
            _, k, update = op
            if k not in W.held:
                continue
            name = W.mods[k].name
            if name in W.reg:
                ctx.count("self-update" if W.reg[name] == k else "update")
            want = W.m_register(k, update)
            try:
                W.held[k].register(**({"update": True} if update else {}))
                ok = True
            except ValueError:
                ok = False
            if ok != want:
                raise Violation("register-result", f"{where}: success={ok}, expected {want}")
        elif o == "self":
            _, name = op
            k = W.reg.get(name)
            if k is None:
                continue
            ctx.count("self-update")
            R.registry[name].register(update=True)
        elif o == "dereg":
            _, name, method = op
            k = W.reg.get(name)
            try:
                if method and k is not None:
                    R.registry[name].deregister()
                else:
                    R.deregister_frame(name)
                ok = True
            except ValueError:
                ok = False
            if ok != (k is not None):
                raise Violation("deregister-result", f"{where}: success={ok}")
            W.reg.pop(name, None)
        elif o == "odereg":
            k = op[1]
            if k not in W.held:
                continue
            name = W.mods[k].name
            want = W.reg.get(name) == k
            try:
                W.held[k].deregister()
                ok = True
            except ValueError:
                ok = False
                ctx.count("stale-deregister" if name in W.reg else "refused")
            if ok != want:
                raise Violation("deregister-result", f"{where}: of frame {k} ({name}): success={ok}")
            if want:
                del W.reg[name]
        elif o == "clear":
            R.clear_registry()
            W.reg.clear()
        elif o == "drop":
            if W.held.pop(op[1], None) is None:
                continue
            ctx.count("fault.reference-dropped")
        elif o == "gc":
            gc_collect()
            ctx.count("fault.gc-forced")
        elif o == "render":
            if op[1] not in W.reg:
                continue
            import contextlib
            import io

            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                R.render_tree(op[1])
            names = sorted(x.strip(" │├└─") for x in buf.getvalue().splitlines())
            want, todo = [], [W.reg[op[1]]]
            while todo:
                j = todo.pop()
                want.append(str(W.mods[j].name))
                todo.extend(W.children(j))
            if names != sorted(want):
                raise Violation("render", f"{where}: shows {names}, expected {sorted(want)}")
        else:
            lookup_op(W, R, op, where, ctx, S)
        S.log(o, n)
        W.check_state("state", where)


def lookup_op(W, R, op, where, ctx, S):
    o, ra, rb, sd = op
    a, b = W.resolve(ra), W.resolve(rb)
    if a is None or b is None:
        for r, x in ((ra, a), (rb, b)):
            if x is None and r[0] == "name":
                try:
                    R.lookup_transform(r[1], r[1])
                except ValueError:
                    ctx.count("unknown-name")
                else:
                    raise Violation("unknown-name", f"{where}: lookup of unregistered {r[1]!r} succeeded")
        return
    ma, mb = W.mods[a], W.mods[b]
    xa, xb = W.arg(ra), W.arg(rb)
    edges = model.path(ma, mb)
    rng = keyed(sd, "lk")
    if o == "lookup":
        x = rng.random()
        if x < 0.4:
            def call():
                return R.lookup_transform(xa, xb, return_timestamps=True)
        elif x < 0.6:
            def call():
                ds = R.lookup_transform(xa, xb, as_dataset=True)
                ts = ds.time.values if "time" in ds.coords else None
                return ds.translation.values, ds.rotation.values, ts
        else:
            def call():
                fa = R.registry[xa] if isinstance(xa, str) else xa
                if x > 0.95:
                    # the deprecated name
                    return fa.get_transformation(xb)
                return fa.lookup_transform(xb)
        compare_lookup(call, ma, mb, edges, where, ctx, S)
    elif o == "pose":
        if rng.random() < 0.5:
            def call():
                ds = R.lookup_pose(xa, xb, as_dataset=True)
                if ds.position.attrs["reference_frame"] != mb.name:
                    raise Violation("pose-attrs", f"{where}: {ds.position.attrs}")
                ts = ds.time.values if "time" in ds.coords else None
                return ds.position.values, ds.orientation.values, ts
        else:
            def call():
                return R.lookup_pose(xa, xb, return_timestamps=True)
        compare_lookup(call, ma, mb, edges, where, ctx, S)
    elif o == "velocity":
        compare_velocity(R, W, xa, xb, ma, mb, edges, rng, where, ctx, S)
    elif o == "transvel":
        compare_transvel(R, W, xa, xb, ma, mb, rng, where, ctx, S)
    elif o == "points":
        compare_transform(R, W, xa, xb, ma, mb, edges, rng, where, ctx, S)


def scribble(*results):
    """A result belongs to its caller, who may overwrite it."""
    for x in results:
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
            x[...] = 77.0 if x.dtype.kind == "f" else np.zeros((), x.dtype)


def compare_lookup(call, ma, mb, edges, where, ctx, S):
    want = model.lookup(ma, mb)
    try:
        t, q, ts = call()
    except Violation:
        raise
    except Exception as e:
        if want is None or (want[2] is not None and not want[2]):
            ctx.count("unconnected" if want is None else "no-overlap")
            return
        raise Violation("lookup-error", f"{where}: {type(e).__name__}: {e}")
    if want is None:
        raise Violation("unconnected", f"{where}: lookup between unconnected frames succeeded")
    if want[2] is not None and not want[2]:
        ctx.count("no-overlap")
        if len(ts):
            raise Violation("lookup-range", f"{where}: stamps outside of the common range: {ts}")
        return
    if not model.same_ts(ts, want[2], 1000 if is_float(ts) else 0):
        raise Violation("lookup-stamps", f"{where}: stamps {model.stamp_ns(ts)}, expected {want[2]}")
    raw = t, q, ts
    t, q = np.asarray(t), np.asarray(q)
    if t.ndim == 2 and len(t) == 1 and len(want[0]) != 1:
        t = np.repeat(t, len(want[0]), 0)  # lookup of a frame in itself
    if not model.close(t, want[0]):
        raise Violation("lookup-translation", f"{where}: got {t.tolist()}, expected {want[0].tolist()}")
    if not model.close_q(q, want[1]):
        raise Violation("lookup-rotation", f"{where}: got {q.tolist()}, expected {want[1].tolist()}")
    scribble(*raw)
    ctx.count("compared")
    ctx.count("moving" if want[2] is not None else "static")
    S.log("lookup", np.round(t, 5).tolist())


def compare_velocity(R, W, xa, xb, ma, mb, edges, rng, where, ctx, S):
    """Velocities of frame a wrt frame b, represented in one of the two."""
    from sim import rosbase as rb

    what = rng.choice(["linear", "angular", "twist"])
    own = rng.random() < 0.5  # represented in the moving frame
    how = rng.choice(["function", "dataset", "method"])
    default = own is False and how != "method" and rng.random() < 0.5
    by_parent = ma.parent is mb and rng.random() < 0.5
    xc, mc = (xa, ma) if own else (xb, mb)
    if rng.random() < 0.5:
        # a third one, often their neighbour
        near = [k for k in W.usable() if W.mods[k] in (ma.parent, mb.parent) or W.mods[k].parent in (ma, mb)]
        third = rng.choice(near or sorted(W.usable()))
        xc, mc, own = W.real(third), W.mods[third], None
    args = {"represent_in": xc}
    default = default and mc is mb
    if default:
        # the reference frame
        del args["represent_in"]
    if not by_parent:
        args["reference"] = xb
    want = model.lookup(ma, mb)
    n = None if want is None or want[2] is None else len(want[2])
    turn = []
    for m in (ma, mb):
        e = model.path(m, mc)
        if n and (e is None or any(fr.moving for fr, _ in e) and model.sampling(e, want[2]) != want[2]):
            turn = None
        elif n and turn is not None:
            turn.append(np.array([model.compose(e, t)[1] for t in want[2]]))
    name = "lookup_twist" if what == "twist" else f"lookup_{what}_velocity"
    try:
        if how == "method":
            fa = R.registry[xa] if isinstance(xa, str) else xa
            *got, ts = getattr(fa, name)(return_timestamps=True, **args)
            if what == "twist":
                got = dict(linear=got[0], angular=got[1])
        elif how == "function":
            *got, ts = getattr(R, name)(xa, return_timestamps=True, **args)
            if what == "twist":
                got = dict(linear=got[0], angular=got[1])
        elif what == "twist":
            ds = R.lookup_twist(xa, as_dataset=True, **args)
            got = dict(linear=ds.linear_velocity.values, angular=ds.angular_velocity.values)
            ts = ds.time.values
        else:
            da = getattr(R, name)(xa, as_dataarray=True, **args)
            got, ts = [da.values], da.time.values
    except Exception as e:
        if not n or n < 5 or turn is None:
            # unconnected, static, too short or not known all the time
            ctx.count("no-velocity")
            return
        raise Violation("velocity-error", f"{where}: {name}: {type(e).__name__}: {e}")
    if n is None:
        raise Violation("unconnected", f"{where}: {name} of unconnected or resting frames succeeded")
    if n < 5 or turn is None:
        return
    if not model.same_ts(ts, want[2], 1000 if is_float(ts) else 0):
        raise Violation("velocity-stamps", f"{where}: {name}: stamps {model.stamp_ns(ts)}, expected {want[2]}")
    if not isinstance(got, dict):
        got = {what: got[0]}
    dt = min(b - a for a, b in zip(want[2], want[2][1:]))
    if dt < 10_000:
        # differences of float seconds since the epoch are too coarse
        return
    lin, ang = rb.twist(*want)  # in the moving frame
    lin = model.rot(turn[1], model.rot(want[1], lin))
    ang = model.rot(turn[0], ang)
    tol = (1e-4 + 1000 / dt) * (1 + np.abs(lin).max() + np.abs(ang).max())
    for k, v in got.items():
        if not model.close(v, dict(linear=lin, angular=ang)[k], tol):
            raise Violation("velocity", f"{where}: {name} ({how}, in {mc.name}): {k} is {np.asarray(v).tolist()}, "
                            f"expected {dict(linear=lin, angular=ang)[k].tolist()}")
    ctx.count("velocity")
    S.log("velocity", np.round(lin, 2).tolist())


def compare_transvel(R, W, xa, xb, ma, mb, rng, where, ctx, S):
    """Velocities from one frame into another one, which may move itself."""
    from sim import rosbase as rb

    what = rng.choice(["linear", "linear", "angular"])
    change = rng.choice(["reference_frame", "moving_frame", "representation_frame"])
    third = rng.choice(sorted(W.usable()))
    xc, mc = (xa, ma) if rng.random() < 0.3 else (W.real(third), W.mods[third])
    n_arr, seed = rng.randrange(1, 4), rng.randrange(1 << 30)
    method = rng.random() < 0.4
    want = model.lookup(ma, mb)
    if want is not None and (want[2] is not None and len(want[2]) < 5):
        return
    ts = arg = None
    arr = np.random.RandomState(seed).uniform(-3, 3, (n_arr, 3))
    fl = any(fr.f.get("unit") == "float" for fr, _ in model.path(ma, mb) or [])
    if want is not None and want[2] is not None:
        ts = want[2]
        arr = np.resize(arr, (len(ts), 3))
        if n_arr == 3:
            arr = np.stack([arr, -2 * arr], 1)
        arg = model.stamps(ts, "float" if fl else "ns")
    elif method and n_arr == 1:
        arr = arr[0]
    arr0 = arr.tobytes()
    arr.setflags(write=rng.random() < 0.5)
    name = f"transform_{what}_velocity"
    kw = {"what": change}
    if what == "linear" and change != "representation_frame":
        kw["moving_frame" if change == "reference_frame" else "reference_frame"] = xc
    perm = list(range(arr.ndim))
    if arr.ndim > 1 and rng.random() < 0.4:
        rng.shuffle(perm)
        k = perm.index(arr.ndim - 1)
        kw["axis"] = k if rng.random() < 0.5 else k - arr.ndim
        kw["time_axis"] = perm.index(0)
    given = arr.transpose(perm)
    try:
        if method:
            fa = R.registry[xa] if isinstance(xa, str) else xa
            got, got_ts = getattr(fa, name)(given, xb, timestamps=arg, return_timestamps=True, **kw)
        else:
            got, got_ts = getattr(R, name)(given, into=xb, outof=xa, timestamps=arg, return_timestamps=True, **kw)
    except Exception as e:
        known = model.lookup(mc, ma)
        if want is None or known is None:
            ctx.count("unconnected")
            return
        back = model.lookup(mb, ma)[2]
        if known[2] is not None and known[2] != ts or back != ts:
            # too short or no time in common
            ctx.count("no-velocity")
            return
        raise Violation("velocity-error", f"{where}: {name} {change}: {type(e).__name__}: {e}")
    if want is None:
        raise Violation("unconnected", f"{where}: {name} between unconnected frames succeeded")
    if arr.tobytes() != arr0:
        raise Violation("argument-changed", f"{where}: {name} changed its argument")
    q = want[1]
    exp = model.rot(q[:, None] if arr.ndim == 3 else q, arr)
    size = 0
    dt = 10**9 if ts is None else min(b - a for a, b in zip(ts, ts[1:]))
    if dt < 10_000:
        return
    if change != "representation_frame":
        to = mc if what == "linear" else ma
        rel = model.lookup(to, ma) if change == "reference_frame" else model.lookup(ma, to)
        if rel is None:
            raise Violation("unconnected", f"{where}: {name} with an unconnected frame succeeded")
        if rel[2] is not None and rel[2] != ts:
            # resampled twice
            return
        if change == "moving_frame" and model.lookup(mb, ma)[2] != ts:
            return
        lin = ang = np.zeros(3)
        if ts is not None and change == "reference_frame":
            lin, ang = (model.rot(q, x) for x in rb.twist(*want))
        elif ts is not None:
            lin, ang = rb.twist(*model.lookup(mb, ma))
        if what == "angular":
            add = ang
        else:
            if change == "reference_frame":
                arm = model.rot(q, rel[0])
            else:
                arm = model.rot(q, model.lookup(mb, ma)[0])
                ang = np.zeros(3) if rel[2] is None else model.rot(q, rb.twist(*rel)[1])
            add = lin + np.cross(ang, arm)
        exp = exp + (add[:, None] if arr.ndim == 3 else add)
        size = np.abs(add).max() + np.abs(ang).max() + np.abs(lin).max()
    if not model.same_ts(got_ts, ts, 1000 if is_float(got_ts) else 0):
        raise Violation("velocity-stamps", f"{where}: {name} {change}: stamps {model.stamp_ns(got_ts)}, expected {ts}")
    got = np.transpose(got, [perm.index(k) for k in range(arr.ndim)])
    if not model.close(got, exp, (1e-4 + 1000 / dt) * (1 + size) if size else 1e-6):
        raise Violation("velocity", f"{where}: {name} {change}: {np.asarray(got).tolist()}, expected {exp.tolist()}")
    ctx.count("transvel-" + ("static" if ts is None else "moving"))
    S.log("transvel", np.round(exp, 2).tolist())


def is_float(ts):
    return ts is not None and np.asarray(ts).dtype.kind == "f"


def compare_transform(R, W, xa, xb, ma, mb, edges, rng, where, ctx, S):
    what = rng.choice(["points", "vectors", "quaternions"])
    dim = 4 if what == "quaternions" else 3
    fl = any(fr.f.get("unit") == "float" for fr, _ in edges or [])
    arr_rs = np.random.RandomState(rng.randrange(1 << 30))
    unit = "float" if fl else rng.choice(["ns", "us", "ms"])
    moving = edges is not None and any(fr.moving for fr, _ in edges)
    arr_ts = None
    if edges is not None and (moving and rng.random() < 0.7 or not moving and rng.random() < 0.3):
        # array with stamps inside or around the common range
        n = rng.randrange(2, 7)
        cont = [fr for fr, _ in edges if fr.moving]
        lo = max(fr.ts[0] for fr in cont) if cont else model.T0[unit]
        hi = min(fr.ts[-1] for fr in cont) if cont else lo + 10**9
        g = model.GRID[unit]
        lo, hi = lo // g * g, hi // g * g
        span = max(hi - lo, 4 * g)
        c = {lo - g * rng.randrange(0, 2), hi + g * rng.randrange(0, 2)}
        while len(c) < n:
            c.add(lo + rng.randrange(0, span // g + 1) * g)
            if span // g + 1 < n:
                break
        arr_ts = sorted(c)
        shape = rng.choice([(len(arr_ts), dim), (len(arr_ts), dim), (len(arr_ts), 2, dim)])
    elif moving or rng.random() < 0.5:
        shape = (dim,)
    else:
        shape = (rng.randrange(1, 4), dim)
    if len(shape) == 3 and what == "quaternions":
        shape = (shape[0], dim)
    arr = np.round(arr_rs.uniform(-3, 3, shape), 3)
    if dim == 4:
        arr = model.unit(arr_rs.normal(size=shape))
    ts_arg = None if arr_ts is None else model.stamps(arr_ts, unit)
    before = arr.tobytes(), None if ts_arg is None else ts_arg.tobytes()
    if rng.random() < 0.3:
        # memory-mapped or shared data is often read-only
        arr.setflags(write=False)
    fn = getattr(R, "transform_" + what)
    want_ts = None if edges is None else model.sampling(edges, arr_ts)
    how = rng.randrange(3)
    if (arr_ts is not None or len(shape) == 1) and rng.random() < 0.25:
        how = 3
    # any layout of the axes
    perm = list(range(len(shape)))
    kw = {}
    if (arr_ts is not None or not moving) and rng.random() < 0.4:
        rng.shuffle(perm)
        k = perm.index(len(shape) - 1)
        kw["axis"] = k if rng.random() < 0.5 else k - len(shape)
        k = perm.index(0)
        if arr_ts is not None or rng.random() < 0.5:
            kw["time_axis"] = k if rng.random() < 0.5 else k - len(shape)
    given = arr.transpose(perm)
    try:
        if how == 3:
            got, ts = as_dataarray(fn, what, given, perm, ts_arg, xa, xb, ma, mb, W, rng, where)
        elif how == 0:
            out = fn(given, into=xb, outof=xa, timestamps=ts_arg, return_timestamps=True, **kw)
            got, ts = out
        elif how == 1:
            fa = R.registry[xa] if isinstance(xa, str) else xa
            got, ts = getattr(fa, "transform_" + what)(given, xb, timestamps=ts_arg, return_timestamps=True, **kw)
        else:
            fa = R.registry[xa] if isinstance(xa, str) else xa
            got = getattr(fa, "transform_" + what)(given, xb, timestamps=ts_arg, **kw)
            ts = "unknown"
    except Violation:
        raise
    except Exception as e:
        if edges is None or (want_ts is not None and not want_ts):
            ctx.count("unconnected" if edges is None else "no-overlap")
            return
        raise Violation("transform-error", f"{where}: {what}: {type(e).__name__}: {e}")
    if before != (arr.tobytes(), None if ts_arg is None else ts_arg.tobytes()):
        raise Violation("argument-changed", f"{where}: {what} changed its argument")
    if edges is None:
        raise Violation("unconnected", f"{where}: {what} between unconnected frames succeeded")
    if want_ts is not None and not want_ts:
        ctx.count("no-overlap")
        return
    if not isinstance(ts, str) and not model.same_ts(ts, want_ts, 1000 if is_float(ts) else 0):
        raise Violation("transform-stamps", f"{where}: {model.stamp_ns(ts)}, expected {want_ts}")

    def apply(t, v):
        tr, q = model.compose(edges, t)
        if what == "quaternions":
            return model.qmul(q, v)
        return model.rot(q, v) + (tr if what == "points" else 0)

    if want_ts is None:
        want = apply(None, arr)
    else:
        rows = []
        for t in want_ts:
            if arr_ts is None:
                v = arr
            else:
                v = arr[arr_ts.index(t)]
            rows.append(apply(t, v))
        want = np.array(rows)
    plain = got
    if want.ndim == len(perm):
        got = np.transpose(got, [perm.index(k) for k in range(len(perm))])
    ok = model.close_q(got, want) if dim == 4 else model.close(got, want, 1e-5)
    if not ok:
        raise Violation("transform-value", f"{where}: {what}: got {np.asarray(got).tolist()}, expected {want.tolist()}")
    scribble(plain, ts)
    ctx.count("compared")
    ctx.count("transform")
    S.log("transform", what, np.round(want, 4).tolist())


def as_dataarray(fn, what, arr, perm, ts, xa, xb, ma, mb, W, rng, where):
    """The same through a DataArray that knows its frame."""
    import xarray as xr

    key = "representation_frame" if what == "vectors" else "reference_frame"
    attrs = {key: ma.name, "units": "m"}
    other = "reference_frame" if what == "vectors" else "representation_frame"
    if rng.random() < 0.5:
        attrs[other] = ma.name
    canon = {1: ("xyz",), 2: ("time", "xyz"), 3: ("time", "marker", "xyz")}[arr.ndim]
    dims = tuple(canon[k] for k in perm)
    coords = {}
    if arr.ndim > 1:
        coords = {"time": ts, "k": ("time", np.arange(len(ts)) * 1.0)}
    if arr.ndim > 2:
        coords["marker"] = ["l", "r"]
    da = xr.DataArray(arr, coords, dims, "a", attrs)
    kw = {}
    if arr.ndim > 1 and (dims[0] != "time" or rng.random() < 0.7):
        kw["timestamps"] = "time"
    if dims[-1] != "xyz" or rng.random() < 0.5:
        if rng.random() < 0.7:
            kw["dim"] = "xyz"
        else:
            kw["axis"] = dims.index("xyz") - rng.choice([0, arr.ndim])
    mod = W.reg.get(ma.name)
    if mod is None or W.mods[mod] is not ma or rng.random() < 0.5:
        kw["outof"] = xa
    out = fn(da, into=xb, **kw)
    if dict(da.attrs) != attrs or da.dims != dims or arr.ndim > 1 and len(da.time) != len(ts):
        raise Violation("argument-changed", f"{where}: {what} changed its argument to {da}")
    if out.attrs.get(key) != mb.name or out.attrs.get("units") != "m":
        raise Violation("attrs", f"{where}: {what} into {mb.name} gives {out.attrs}")
    # vectors change their representation only, anything else both
    if out.attrs.get(other) != (attrs.get(other) if what == "vectors" else mb.name):
        raise Violation("attrs", f"{where}: {what} from {ma.name} into {mb.name} gives {out.attrs}")
    new = out.coords["time"].values if "time" in out.coords else None
    if out.dims != (("time",) + dims if arr.ndim == 1 and new is not None else dims):
        raise Violation("dims", f"{where}: {what}: {out.dims}")
    if "k" in da.coords:
        keep = [model.stamp_ns(ts).index(t) for t in model.stamp_ns(new) if t in model.stamp_ns(ts)]
        if out.coords["k"].values.tolist() != [float(k) for k in keep]:
            raise Violation("coords", f"{where}: {what}: {out.coords['k'].values}, expected {keep}")
    return out.values, new
