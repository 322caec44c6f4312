"""P17: missing or failing optional dependencies never break the rest."""

import os
import sys

import numpy as np

from sim import core, imports, model
from sim import rosbase as rb
from sim.core import Violation, keyed

ID = "P17"
LEVEL = "exploration"
SCRATCH = True
RUNS = {"quick": 1000, "thorough": 14000}
LISTS = ["ops"]
RULE = (
    "a run imports the package with a seeded set of optional dependencies "
    "missing, broken, partial or failing transiently, then uses 4-14 of 32 "
    "features while dependencies fail and come back, and finally everything "
    "with all of them back; non-trivial if an import failed; distinct by the "
    "event log"
)
REAL = ["import of the whole package", "__init__.py", "plot.py", "plotting.py", "io.py", "utils.py", "ros/*.py", "accessors.py",
        "pandas, xarray, netCDF4, pooch, matplotlib when present"]
STUB = ["ROS and notebook packages", "success of each import (sim/imports.py)", "web server"]
ASSUMPTIONS = [
    "a failing import raises ImportError", "a package that has been imported stays usable",
    "numpy, quaternion, scipy and anytree are always there", "PyKDL cannot be imported after matplotlib",
]


def boot():
    os.environ.setdefault("MPLBACKEND", "Agg")
    import warnings

    import anytree  # noqa
    import concurrent.futures.thread  # noqa
    import hashlib, logging, queue, runpy, shutil, tempfile, uuid  # noqa
    import quaternion  # noqa
    import requests.adapters  # noqa
    import scipy.interpolate  # noqa
    import scipy.signal  # noqa
    import scipy.spatial  # noqa

    warnings.simplefilter("ignore")
    from sim import bags, boot as simboot, net, patch, world  # noqa

    patch.install()
    net.install()
    imports.install()
    for m in imports.LIBS:
        if m in sys.modules:
            raise RuntimeError(f"{m} was loaded before the run")
    if sys.path[0] != simboot.REPO:
        sys.path.insert(0, simboot.REPO)


# -- features: name -> (modules needed, function) ---------------------------------
F = {}
ROSMSG = ["rospy", "geometry_msgs.msg"]
TF = ROSMSG + ["tf2_ros"]


def feature(*needs, bound=None):
    def deco(fn):
        F[fn.__name__] = (list(needs), bound, fn)
        return fn

    return deco


def close(got, want, what, tol=1e-6):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.allclose(got, want, rtol=0, atol=tol):
        raise Violation("wrong-result", f"{what}: {got.tolist()!r:.300}, expected {want.tolist()!r:.300}")


def data(rng, n=6):
    rs = np.random.RandomState(rng.randrange(1 << 31))
    return rs.uniform(-2, 2, (n, 3)), model.unit(rs.normal(size=(n, 4)))


def rot(q, v):
    return model.rot(np.asarray(q, float), np.asarray(v, float))


STAMPS = np.arange(6) * 0.5 + 10.0


@feature()
def frames_np(R, rng, tmp):
    t, q = data(rng)
    w = R.ReferenceFrame("world")
    b = R.ReferenceFrame("body", parent=w, translation=t[0], rotation=q[0])
    R.register_frame("reg", parent=b, translation=t[1])
    try:
        p = np.array([1.0, 2.0, 3.0])
        close(R.transform_points(p, into=w, outof=b), rot(q[0], p) + t[0], "transform_points")
        close(R.transform_vectors(p, into=w, outof=b), rot(q[0], p), "transform_vectors")
        close(R.lookup_transform(outof=b, into=w)[0], t[0], "lookup_transform")
        import contextlib
        import io

        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            R.render_tree(w)
        if "body" not in out.getvalue():
            raise Violation("wrong-result", f"render_tree: {out.getvalue()!r}")
    finally:
        R.deregister_frame("reg")


@feature()
def moving_np(R, rng, tmp):
    t, q = data(rng)
    w = R.ReferenceFrame("world")
    b = R.ReferenceFrame("body", parent=w, translation=t, rotation=q, timestamps=STAMPS)
    close(R.lookup_transform(outof=b, into=w)[0], t, "lookup_transform")
    lin, ang = R.lookup_twist(b, w)[:2]
    if np.shape(lin) != (6, 3) or np.shape(ang) != (6, 3):
        raise Violation("wrong-result", f"lookup_twist: shapes {np.shape(lin)}, {np.shape(ang)}")


@feature()
def helpers_np(R, rng, tmp):
    t, q = data(rng)
    close(R.qmul(q, R.qinv(q)), np.tile([1.0, 0, 0, 0], (6, 1)), "qmul of the inverse")
    close(R.rotate_vectors(q, t), np.array([rot(a, b) for a, b in zip(q, t)]), "rotate_vectors")
    close(R.spherical_to_cartesian(R.cartesian_to_spherical(t)), t, "spherical coordinates")
    close(R.from_euler_angles(np.zeros((2, 3))), np.tile([1.0, 0, 0, 0], (2, 1)), "from_euler_angles")


@feature()
def estimators_np(R, rng, tmp):
    t, q = data(rng)
    tr, r = R.best_fit_transform(t, np.array([rot(q[0], v) for v in t]) + [1, 2, 3])
    close(tr, [1, 2, 3], "best_fit_transform")
    close(R.estimate_linear_velocity(np.outer(STAMPS, [1.0, 2, 3]), timestamps=STAMPS), np.tile([1.0, 2, 3], (6, 1)),
          "estimate_linear_velocity")
    tr, _ = R.iterative_closest_point(t, t)[:2]
    close(tr, [0, 0, 0], "iterative_closest_point")


@feature()
def io_module(R, rng, tmp):
    for n in ("load_optitrack",):
        getattr(R.io, n)
    for n in ("RosbagReader", "RosbagWriter", "Transformer", "ReferenceFrameTransformBroadcaster", "init_node",
              "play_publisher", "ReferenceFrameMarkerPublisher"):
        getattr(R.ros, n)


def pair(R, rng):
    t, q = data(rng)
    w = R.ReferenceFrame("world")
    return w, R.ReferenceFrame("body", parent=w, translation=t[0], rotation=q[0]), t[0], q[0]


def path(R, rng):
    t, q = data(rng)
    return R.ReferenceFrame("body", R.ReferenceFrame("world"), translation=t, rotation=q, timestamps=STAMPS)


def motion(rng, frame, name="position"):
    import xarray as xr

    t, q = data(rng)
    a, d, c = (t, "cartesian_axis", list("xyz")) if name == "position" else (q, "quaternion_axis", list("wxyz"))
    return xr.DataArray(a, {"time": STAMPS, d: c}, ("time", d), name, {
        "reference_frame": frame.name, "representation_frame": frame.name})


@feature("xarray")
def lookup_ds(R, rng, tmp):
    w, b, t, q = pair(R, rng)
    b = R.ReferenceFrame("body", parent=w, translation=t + np.zeros((6, 3)), rotation=q + np.zeros((6, 4)), timestamps=STAMPS)
    ds = R.lookup_transform(outof=b, into=w, as_dataset=True)
    close(ds.translation.values, t + np.zeros((6, 3)), "lookup_transform as dataset")
    ds = R.lookup_twist(b, w, as_dataset=True)
    close(ds.linear_velocity.values, np.zeros((6, 3)), "lookup_twist as dataset")


@feature("xarray")
def points_da(R, rng, tmp):
    w, b, t, q = pair(R, rng)
    da = motion(rng, b)
    got = R.transform_points(da, into=w, outof=b)
    close(got.values, np.array([rot(q, v) + t for v in da.values]), "transform_points of a DataArray")
    if got.dims != da.dims or got.attrs.get("representation_frame") != "world":
        raise Violation("wrong-result", f"transform_points of a DataArray: {got.dims} {got.attrs}")


@feature("xarray")
def estimators_da(R, rng, tmp):
    import xarray as xr

    t, q = data(rng)
    mk = lambda a: xr.DataArray(a, {"cartesian_axis": list("xyz")}, ("i", "cartesian_axis"))  # noqa
    tr, r = R.best_fit_transform(mk(t), mk(t + 1.0), dim="cartesian_axis")
    close(tr.values, [1, 1, 1], "best_fit_transform of DataArrays")


def same_coords(a, b):
    if a.dims != b.dims or not a.time.equals(b.time):
        raise Violation("wrong-result", f"{a.dims} {a.coords}, expected those of {b}")


@feature("xarray", bound="accessor")
def accessor(R, rng, tmp):
    w, b, t, q = pair(R, rng)
    da = motion(rng, b, "orientation")
    got = da.rbm.qinterp(time=[STAMPS[1], STAMPS[2]])
    want = da.values[1:3]
    s = np.sign(np.sum(got.values * want, axis=1, keepdims=True))
    close(got.values * s, want, "qinterp accessor", 1e-5)
    keep = da.values.copy()
    inv = da.rbm.qinv()
    close(inv.values, da.values * [1, -1, -1, -1], "qinv accessor", 1e-9)
    close(da.values, keep, "argument of the qinv accessor", 0)
    same_coords(inv, da)


CSV = """Format Version,1.23,Take Name,t,Capture Start Time,2020-02-02 12.00.00.000 PM,Rotation Type,XYZ,Length Units,Meters

,,Rigid Body,Rigid Body,Rigid Body,Rigid Body,Rigid Body,Rigid Body
,,body,body,body,body,body,body
,,,,,,,
,,Rotation,Rotation,Rotation,Position,Position,Position
Frame,Time (Seconds),X,Y,Z,X,Y,Z
0,0.0,0,0,0,1.0,2.0,3.0
1,0.5,0,0,0,4.0,5.0,6.0
"""


def csv(tmp):
    p = os.path.join(tmp, "take.csv")
    with open(p, "w") as f:
        f.write(CSV)
    return p


def check_opti(p, o):
    close(p, [[1, 2, 3], [4, 5, 6]], "load_optitrack position")
    close(o, [[1, 0, 0, 0]] * 2, "load_optitrack orientation")


@feature("pandas")
def optitrack_np(R, rng, tmp):
    d = R.io.load_optitrack(csv(tmp))
    check_opti(*d["body"][:2])


@feature("pandas")
def optitrack_pd(R, rng, tmp):
    d = R.io.load_optitrack(csv(tmp), import_format="pandas")
    check_opti(d["body"]["position"].values, d["body"]["orientation"].values)


@feature("pandas", "xarray")
def optitrack_xr(R, rng, tmp):
    d = R.io.load_optitrack(csv(tmp), import_format="xarray")
    check_opti(d["body"].position.values, d["body"].orientation.values)


@feature("pooch")
def example(R, rng, tmp):
    from sim import net

    net.Net.plan, net.Net.log = [], []
    p = R.example_data["left_eye"]
    with open(p, "rb") as f:
        if f.read() != net.Net.content["left_eye.nc"]:
            raise Violation("wrong-result", "example_data: wrong content")


@feature("pooch")
def example_unknown(R, rng, tmp):
    try:
        R.example_data["right_ear"]
    except KeyError:
        return
    raise Violation("wrong-result", "example_data: unknown name accepted")


PLOT = ["matplotlib.pyplot", "matplotlib.patches", "mpl_toolkits.mplot3d"]


@feature(*PLOT, bound="plot")
def plot_frame(R, rng, tmp):
    w, b, t, q = pair(R, rng)
    out = R.plot.reference_frame(b)
    from matplotlib import pyplot as plt

    if not len(plt.gcf().axes):
        raise Violation("wrong-result", f"plot.reference_frame: no axes, {out!r}")
    plt.close("all")


@feature(*PLOT, bound="plot")
def plot_points(R, rng, tmp):
    t, q = data(rng)
    R.plot.points(t)
    R.plot.vectors(t)
    R.plot.quaternions(q)
    from matplotlib import pyplot as plt

    if not len(plt.gcf().axes):
        raise Violation("wrong-result", "plot.points: no axes")
    plt.close("all")


BAG = [{"topic": "/t", "n": 5, "ver": 1, "typ": "tf"}, {"topic": "/o", "n": 4, "ver": 1, "typ": "odom"}]


def bag(rng, tmp):
    from sim import bags

    p = os.path.join(tmp, "x.bag")
    bags.write(p, 5, BAG)
    return p


@feature("rosbag")
def bag_topics(R, rng, tmp):
    with R.ros.RosbagReader(bag(rng, tmp)) as r:
        got = r.get_topics_and_types()
    if got != {"/t": "geometry_msgs/TransformStamped", "/o": "nav_msgs/Odometry"}:
        raise Violation("wrong-result", f"get_topics_and_types: {got}")


@feature("rosbag", *ROSMSG)
def bag_messages(R, rng, tmp):
    from sim import bags

    k = rng.randrange(2)
    with R.ros.RosbagReader(bag(rng, tmp)) as r:
        m = r.load_messages(BAG[k]["topic"])
    close(m["position"], bags.content(5, BAG[k])[1], "load_messages")


def dataset(R, rng, tmp, exact=True, **kw):
    from sim import bags

    k = rng.randrange(2)
    with R.ros.RosbagReader(bag(rng, tmp)) as r:
        ds = r.load_dataset(BAG[k]["topic"], **kw)
    bags.check(ds, 5, BAG[k], "load_dataset", exact, "wrong-result")


@feature("rosbag", *ROSMSG, "pandas", "xarray")
def bag_dataset(R, rng, tmp):
    dataset(R, rng, tmp)


@feature("rosbag", *ROSMSG, "pandas", "xarray", "netCDF4")
def bag_cached(R, rng, tmp):
    dataset(R, rng, tmp, False, cache=True)
    dataset(R, rng, tmp, False, cache=True)


@feature("rosbag", *ROSMSG, "pandas", "xarray", "netCDF4")
def bag_export(R, rng, tmp):
    from sim import bags

    out = os.path.join(tmp, f"out{rng.randrange(1 << 30)}.nc")
    with R.ros.RosbagReader(bag(rng, tmp)) as r:
        r.export("/t", out)
    import netCDF4

    with netCDF4.Dataset(out) as d:
        close(d["position"][:], bags.content(5, BAG[0])[1], "export", 1e-4)


@feature("rosbag", *ROSMSG)
def bag_write(R, rng, tmp):
    t, q = data(rng)
    p = os.path.join(tmp, f"w{rng.randrange(1 << 30)}.bag")
    with R.ros.RosbagWriter(p) as w:
        w.write_transform_stamped(STAMPS, t, q, "/t", "world", "body")
    with R.ros.RosbagReader(p) as r:
        close(r.load_messages("/t")["position"], t, "written bag")


@feature(*TF)
def tf_lookup(R, rng, tmp):
    w, b, t, q = pair(R, rng)
    tr = R.ros.Transformer.from_reference_frame(w)
    close(tr.lookup_transform("world", "body")[0], t, "Transformer.lookup_transform")
    if tr.can_transform("world", "body") is not True:
        raise Violation("wrong-result", "Transformer.can_transform")


@feature(*TF, "tf2_geometry_msgs")
def tf_point(R, rng, tmp):
    w, b, t, q = pair(R, rng)
    tr = R.ros.Transformer.from_reference_frame(b)
    p = (1.0, 2.0, 3.0)
    close(tr.transform_point(p, "world", "body"), rot(q, np.array(p)) + t, "Transformer.transform_point")
    close(tr.transform_vector(p, "world", "body"), rot(q, np.array(p)), "Transformer.transform_vector")


@feature(*TF, "pandas", "tf.msg")
def broadcaster(R, rng, tmp):
    from sim import ros

    t, q = data(rng)
    w = R.ReferenceFrame("world")
    b = R.ReferenceFrame("body", parent=w, translation=t, rotation=q, timestamps=STAMPS)
    n = len(ros.R.records)
    B = R.ros.ReferenceFrameTransformBroadcaster(b, publish_pose=True, publish_twist=bool(rng.randrange(2)))
    B.publish(2)
    new = [r for r in ros.R.records[n:]]
    if not new:
        raise Violation("wrong-result", "broadcaster: nothing published")


@feature(*ROSMSG, "std_msgs.msg", "visualization_msgs.msg")
def marker(R, rng, tmp):
    from sim import ros

    b = path(R, rng)
    n = len(ros.R.records)
    R.ros.ReferenceFrameMarkerPublisher(b).publish()
    if len(ros.R.records) != n + 1:
        raise Violation("wrong-result", f"marker: {len(ros.R.records) - n} messages published")


@feature(*ROSMSG, "std_msgs.msg", "visualization_msgs.msg", "jupyros.ros3d")
def marker_show(R, rng, tmp):
    m = R.ros.ReferenceFrameMarkerPublisher(path(R, rng), topic="/m")
    if getattr(m.get_ros3d_widget(), "topic", None) != "/m":
        raise Violation("wrong-result", "marker: get_ros3d_widget()")


@feature("rospy", "roslaunch")
def node(R, rng, tmp):
    from sim import ros

    if ros.R.master is None:
        ros.R.master = ros.Master()
    if not hasattr(R.ros.init_node("n", start_master=True), "shutdown"):
        raise Violation("wrong-result", "init_node: no handle")


@feature("IPython.core.display", "ipywidgets")
def player(R, rng, tmp):
    import types

    from sim import widgets

    n = len(widgets.DISPLAYED)
    R.ros.play_publisher(types.SimpleNamespace(publish=lambda idx: None, timestamps=STAMPS))
    if len(widgets.DISPLAYED) == n:
        raise Violation("wrong-result", "play_publisher: nothing displayed")


CHECKED = ["geometry_msgs.msg", "rospy", "std_msgs.msg", "visualization_msgs.msg", "rospkg", "tf2_geometry_msgs", "tf2_ros", "tf.msg"]


def check_install():
    """What python -m rigid_body_motion.ros.check_install prints."""
    import contextlib
    import io
    import runpy

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        runpy.run_module("rigid_body_motion.ros.check_install", run_name="__main__")
    return out.getvalue()


# -- scenarios ---------------------------------------------------------------------
def gen_state(rng, dep):
    part = imports.PARTS.get(dep)
    if part and rng.random() < 0.3:
        return ["partial", rng.choice(part)]
    return rng.choice(["missing", "missing", "broken"])


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    p = rng.choice([0, 0.08, 0.3, 0.6, 1])
    conf = {d: gen_state(rng, d) for d in imports.DEPS if rng.random() < p}
    if not conf or rng.random() < 0.25:
        # all but one group, or one only
        d = rng.choice(imports.DEPS)
        conf = {d: gen_state(rng, d)} if rng.random() < 0.6 else {x: gen_state(rng, x) for x in imports.DEPS if x != d}
    pre = [rng.choice(["pandas", "xarray", "matplotlib.pyplot", "netCDF4", "rospy", "PyKDL"])] if rng.random() < 0.12 else []
    names = sorted(F)
    ops = []
    for _ in range(rng.randrange(4, 15)):
        x = rng.random()
        if x < 0.55:
            ops.append(["use", rng.choice(names), rng.randrange(1 << 30)])
        elif x < 0.63:
            ops.append(["check"])
        elif x < 0.75:
            ops.append(["flaky", rng.choice(names), rng.randrange(1 << 30), rng.randrange(1, 5)])
        elif x < 0.88:
            ops.append(["heal", rng.choice(imports.DEPS), rng.random() < 0.3])
        else:
            d = rng.choice(imports.DEPS)
            ops.append(["fail", d, gen_state(rng, d) if d in imports.STUBS else rng.choice(["missing", "broken"])])
    return {"conf": conf, "pre": pre, "ops": ops, "flaky": rng.choice([None] * 5 + [1, 2, 3, 5]),
            "final": rng.sample(names, 6), "sched": {"mode": "fifo"}}


def simplify(sc):
    import copy

    for d in sc["conf"]:
        c = copy.deepcopy(sc)
        del c["conf"][d]
        yield c
    if sc["flaky"]:
        yield dict(sc, flaky=None)
    if sc["pre"]:
        yield dict(sc, pre=[])
    for f in sc["final"]:
        yield dict(sc, final=[x for x in sc["final"] if x != f])


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx), watch=False)
    ctx.nontrivial = any(k.startswith("fault.") for k in dict(s.stats, **ctx.stats))


def note(ctx, dep, st):
    kind = "partial" if isinstance(st, list) else st
    ctx.count(f"fault.import-{kind}")


def history(sc, ctx):
    import importlib

    from sim import boot as simboot, net

    S = core.SIM
    tmp = sc["_scratch"]
    for k in ("HOME", "XDG_CACHE_HOME", "MPLCONFIGDIR", "TMPDIR"):
        os.environ[k] = os.path.join(tmp, k.lower())
        os.makedirs(os.environ[k])
    import tempfile

    tempfile.tempdir = os.environ["TMPDIR"]
    net.publish(sc["seed"], {f: 300 for f in net.PUBLISHED})
    imports.STATE.clear()
    for d, st in sorted(sc["conf"].items()):
        imports.STATE[d] = st
        note(ctx, d, st)
    imports.FLAKY[:] = [None, None]
    for m in sc["pre"]:
        if imports.importable(m):
            importlib.import_module(m)
            S.log("pre", m)
    can = {"plot": all(imports.importable(m) for m in PLOT), "accessor": imports.importable("xarray")}
    kdl = imports.importable("PyKDL")
    imports.FLAKY[:] = [sc["flaky"], None]
    conf = f"with {sc['conf']}"
    try:
        R = importlib.import_module("rigid_body_motion")
    except Exception as e:
        raise Violation("import", f"{conf}{transient()}: import raised {type(e).__name__}: {e}")
    got = os.path.dirname(os.path.realpath(R.__file__))
    if got != simboot.PKG:
        raise RuntimeError(f"wrong package under test: {got}")
    fired = imports.FLAKY[1]
    if fired:
        ctx.count("fault.import-transient")
        can = {"plot": None, "accessor": None}
        kdl = kdl and fired != "PyKDL"
    imports.FLAKY[:] = [None, None]
    if kdl and "PyKDL" not in sys.modules and "matplotlib" in sys.modules:
        raise Violation("import-order", f"{conf}: matplotlib was imported before PyKDL")
    S.log("import", fired)

    def use(name, sd, where, flaky=None):
        needs, bound, fn = F[name]
        ok = all(imports.importable(m) for m in needs)
        if bound:
            ok = None if can[bound] is None or (ok and not can[bound]) else ok and can[bound]
        miss = [m for m in needs if not imports.importable(m)]
        # what was missing at import of the package stays so
        if bound and can[bound] is False:
            miss.append(f"{bound} at import")
        before = (dict(R.registry), [len(x) for x in sorted_topics()])
        imports.FLAKY[:] = [flaky, None]
        e = None
        try:
            fn(R, keyed(sd, name), tmp)
        except Violation as v:
            raise Violation(v.cls, f"{where}, missing {miss}{transient()}: {v.msg}")
        except Exception as x:  # noqa
            e = x
        fired = imports.FLAKY[1]
        imports.FLAKY[:] = [None, None]
        if fired:
            ctx.count("fault.import-transient")
        S.log("use", name, "ok" if e is None else type(e).__name__, fired)
        ctx.count("ok" if e is None else "raised")
        if e is None:
            return
        desc = f"{where}, missing {miss}{f', {fired} failing once' if fired else ''}: {type(e).__name__}: {e}"
        if ok and not fired:
            raise Violation("needless-failure", desc + tb(e))
        if bound == "accessor" and not can[bound] and isinstance(e, AttributeError):
            return  # not registered
        if bound == "plot" and can[bound] is None:
            return  # matplotlib itself may have lost its 3d projection
        if not isinstance(e, ImportError):
            raise Violation("wrong-error", desc + tb(e))
        if bound is None:
            now = (dict(R.registry), [len(x) for x in sorted_topics()])
            if now != before:
                raise Violation("trace-left", f"{where}: failed, but registry and subscribers changed from {before} to {now}")

    for k, op in enumerate(sc["ops"]):
        where = f"op {k} {op[:2]}"
        o = op[0]
        if o == "use":
            use(op[1], op[2], where)
        elif o == "flaky":
            use(op[1], op[2], where, op[3])
            if F[op[1]][1] is None and all(imports.importable(m) for m in F[op[1]][0]):
                use(op[1], op[2], where + " again")
        elif o == "check":
            installed(where)
            S.log("check")
        elif o == "heal":
            if imports.STATE and (op[1] in imports.STATE or op[2]):
                for d in sorted(imports.STATE) if op[2] else [op[1]]:
                    if isinstance(imports.STATE.get(d), list) and d in imports.LIBS:
                        continue  # half-loaded libraries stay as they are
                    imports.STATE.pop(d, None)
                    ctx.count("healed")
        elif o == "fail":
            if op[1] not in imports.STATE:
                imports.STATE[op[1]] = op[2]
                note(ctx, op[1], op[2])
    for d in list(imports.STATE):
        if not (isinstance(imports.STATE[d], list) and d in imports.LIBS):
            del imports.STATE[d]
    for name in sc["final"]:
        use(name, 7, f"at the end {name}")
    if not sc["pre"]:
        installed("at the end")


def installed(where):
    ok = all(imports.importable(m) for m in CHECKED)
    try:
        out = check_install()
    except Exception as e:
        raise Violation("check-install", f"{where}: {[m for m in CHECKED if not imports.importable(m)]} missing: {type(e).__name__}: {e}")
    said = "All dependencies correctly installed" in out
    if said == ok and said != ("not correctly installed" in out):
        return
    raise Violation("check-install", f"{where}: all there is {ok}, said {out!r:.300}")


def sorted_topics():
    from sim import ros

    return [list(ros.R.topics[t].callbacks) for t in sorted(ros.R.topics) if ros.R.topics[t].callbacks]


def transient():
    return f", {imports.FLAKY[1]} failing once" if imports.FLAKY[1] else ""


def tb(e):
    import traceback

    return " | " + "".join(traceback.format_exception(e))[-1200:]
