"""P12: OptiTrack import over split, interrupted and failing reads."""

import datetime
import os

import numpy as np

from sim import bags, core, faultfs, model
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P12"
LEVEL = "exploration"
SCRATCH = True
RUNS = {"quick": 1000, "thorough": 9000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 2-7 imports of 1-3 generated csv exports "
    "(names, units, rotation orders, markers, lost frames) in the three "
    "formats, in one or several processes, with reads split, interrupted or "
    "failing at seeded system calls, and files replaced or removed in "
    "between; non-trivial if a fault fired; distinct by the event log"
)
REAL = ["io.py load_optitrack", "utils.py from_euler_angles", "pandas", "xarray", "the file system and its system calls"]
STUB = ["results of single system calls (shim/faultfs.c)"]
ASSUMPTIONS = ["files follow the layout of the export in tests/test_data"]
E = faultfs.ERR
NAMES = ["RigidBody 01", "RigidBody 02", "head", "a", "Z", "left,eye", "1", "x"]
ORDERS = ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX", None]


def prepare():
    faultfs.build()


worker_env = faultfs.env


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    nf = rng.randrange(1, 4)

    def spec():
        n = rng.choice([1, 2, 30, 200] + ([900] if rng.random() < 0.2 else []) + ([4000] if rng.random() < 0.06 else []))
        start = datetime.datetime(2020, 1, 1) + datetime.timedelta(
            milliseconds=rng.choice([0, rng.randrange(10**11), 12 * 3600 * 1000]))
        return {
            "n": n, "names": rng.sample(NAMES, rng.randrange(1, 4)), "markers": rng.choice([0, 0, 2, 5]),
            "order": rng.choice(ORDERS), "units": rng.choice([None, "Meters", "Centimeters", "Centimeters", "Millimeters"]),
            "start": start.isoformat(), "dt": rng.choice([1 / 60, 1 / 240, 0.5]), "ver": rng.randrange(1 << 30),
            "lost": rng.choice([0, 0, 0, 0.1]), "first": rng.choice(["markers", "bodies"]),
            "blank": rng.choice(["commas", "empty"]), "crlf": rng.random() < 0.3, "step": rng.choice([1, 4]),
        }

    files = [spec() for _ in range(nf)]
    ops = []
    for _ in range(rng.randrange(2, 8)):
        x = rng.random()
        if x < 0.8:
            fs = []
            if rng.random() < 0.75:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    do = rng.choice(["short", "short", "eintr", "eintr", "err", "sticky", "gone", "interrupt"])
                    f = {"do": do, "frac": round(rng.random(), 4), "cls": "r"}
                    if do == "short":
                        f["arg"] = rng.choice([0, 1, 7, 100])
                    elif do == "eintr":
                        f.update(do="err", arg=E["EINTR"])
                    elif do == "err":
                        f["arg"] = E[rng.choice(["EIO", "ESTALE", "EACCES", "EMFILE", "ENOENT"])]
                    elif do == "sticky":
                        f["arg"] = E[rng.choice(["EIO", "ESTALE"])]
                    elif do == "gone":
                        f.update(do="sticky", arg=E["ENOENT"])
                    fs.append(f)
            ops.append({"o": "load", "file": rng.randrange(nf), "fmt": rng.choice(["numpy", "pandas", "xarray"]),
                        "swap": rng.choice([None, spec()]) if rng.random() < 0.5 else None,
                        "faults": fs, "times": rng.choice([1, 1, 2]), "path": rng.choice(["str", "path"])})
        elif x < 0.85:
            ops.append({"o": "surplus", "file": rng.randrange(nf), "fmt": rng.choice(["numpy", "pandas", "xarray"]),
                        "at": rng.randrange(10**6), "extra": rng.choice([1, 2, 7])})
        elif x < 0.93:
            ops.append({"o": "replace", "file": rng.randrange(nf), "spec": spec()})
        else:
            ops.append({"o": "missing", "fmt": rng.choice(["numpy", "pandas", "xarray"])})
    return {"files": files, "ops": ops, "sched": {"mode": "fifo"}}


def simplify(sc):
    import copy

    for i, op in enumerate(sc["ops"]):
        for j in range(len(op.get("faults", []))):
            c = copy.deepcopy(sc)
            del c["ops"][i]["faults"][j]
            yield c
        if op.get("times", 1) > 1:
            c = copy.deepcopy(sc)
            c["ops"][i]["times"] = 1
            yield c
    for i, f in enumerate(sc["files"]):
        for k, v in (("n", 2), ("n", 30), ("markers", 0), ("lost", 0), ("crlf", False), ("units", "Meters"), ("order", "XYZ")):
            if f[k] != v and not (k == "n" and f[k] < v):
                c = copy.deepcopy(sc)
                c["files"][i][k] = v
                yield c


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx), watch=False)
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = any(k.startswith("fault.") for k in f)


# -- files ---------------------------------------------------------------------
def data(seed, spec):
    """name -> (rotations deg, positions in file units), as written."""
    rs = np.random.RandomState(keyed(seed, "csv", spec["ver"]).randrange(2**31))
    out = {}
    n = spec["n"]
    for b in spec["names"]:
        r = rs.uniform(-180, 180, (n, 3)).round(6)
        p = (rs.uniform(-2, 2, (n, 3)) * 100).round(6)
        if spec["lost"]:
            m = rs.uniform(size=n) < spec["lost"]
            r[m] = np.nan
            p[m] = np.nan
        out[b] = (r, p)
    return out, rs


def write(path, seed, spec):
    d, rs = data(seed, spec)
    n = spec["n"]
    start = datetime.datetime.fromisoformat(spec["start"])
    head = ["Format Version", "1.22", "Take Name", "Test", "Capture Frame Rate", "240.000000",
            "Export Frame Rate", "60.000000", "Capture Start Time",
            start.strftime("%Y-%m-%d %I.%M.%S.") + f"{start.microsecond // 1000:03d} " + start.strftime("%p"),
            "Total Frames in Take", str(n * spec["step"]), "Total Exported Frames", str(n)]
    if spec["order"]:
        head += ["Rotation Type", spec["order"]]
    if spec["units"]:
        head += ["Length Units", spec["units"]]
    head += ["Coordinate Space", "Global"]
    cols = []
    for k, b in enumerate(d):
        for what, arr in (("Rotation", d[b][0]), ("Position", d[b][1])):
            for a, ax in enumerate("XYZ"):
                cols.append(("Rigid Body", b, f"{k:032X}", what, ax, arr[:, a]))
    mk = []
    for k in range(spec["markers"]):
        p = rs.uniform(-200, 200, (n, 3)).round(6)
        for a, ax in enumerate("XYZ"):
            mk.append(("Marker", f"{list(d)[0]}:Marker{k + 1}", f"M{k}", "Position", ax, p[:, a]))
    cols = mk + cols if spec["first"] == "markers" else cols + mk
    width = max(len(cols) + 2, len(head))

    def cell(x):
        x = str(x)
        return '"' + x + '"' if "," in x else x

    def row(cells):
        return ",".join(cell(c) for c in cells)

    lines = [row(head + [""] * (width - len(head)))]
    lines.append("" if spec["blank"] == "empty" else "," * (len(cols) + 1))
    for j in range(4):
        lines.append(row(["", ""] + [c[j] for c in cols]))
    lines.append(row(["Frame", "Time (Seconds)"] + [c[4] for c in cols]))
    for i in range(n):
        vals = ["" if np.isnan(c[5][i]) else f"{c[5][i]:.6f}" for c in cols]
        lines.append(row([i * spec["step"], f"{i * spec['dt']:.6f}"] + vals))
    nl = "\r\n" if spec["crlf"] else "\n"
    with open(path + ".new", "w", newline="") as f:
        f.write(nl.join(lines) + nl)
    os.replace(path + ".new", path)


def expected(seed, spec):
    """name -> (position m, orientation wxyz, stamps ns)."""
    d, _ = data(seed, spec)
    start = datetime.datetime.fromisoformat(spec["start"])
    t0 = int((start - datetime.datetime(1970, 1, 1)) / datetime.timedelta(microseconds=1)) // 1000 * 10**6
    ts = [t0 + round(round(i * spec["dt"], 6) * 10**9) for i in range(spec["n"])]
    f = {"Centimeters": 0.01, "Millimeters": 0.001}.get(spec["units"], 1.0)
    out = {}
    for b, (r, p) in d.items():
        h = np.deg2rad(r) / 2
        q = np.tile([1.0, 0, 0, 0], (len(r), 1))
        for c in spec["order"] or "XYZ":
            k = "XYZ".index(c)
            e = np.zeros((len(r), 4))
            e[:, 0] = np.cos(h[:, k])
            e[:, 1 + k] = np.sin(h[:, k])
            q = model.qmul(q, e)
        out[b] = (p * f, q, ts)
    return out


def same(a, b, tol=1e-9, sign=False):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if sign:
        if not (na.any(1) == nb.any(1)).all():
            return False
        m = ~na.any(1)
        d = np.minimum(np.abs(a[m] - b[m]).max(1), np.abs(a[m] + b[m]).max(1)) if m.any() else np.zeros(1)
        return bool((d < tol).all())
    if not (na == nb).all():
        return False
    return bool((np.abs(a - b)[~na] < tol).all())


def check(got, want, fmt, where):
    if not isinstance(got, dict) or set(got) != set(want):
        raise Violation("bodies", f"{where}: {sorted(map(str, got))}, the file has {sorted(want)}")
    for b, (p, q, ts) in want.items():
        g = got[b]
        if fmt == "numpy":
            gp, gq, gt = g
        elif fmt == "pandas":
            if list(g.columns) != [("position", c) for c in "xyz"] + [("orientation", c) for c in "wxyz"]:
                raise Violation("columns", f"{where}: {list(g.columns)}")
            gp, gq, gt = g["position"].values, g["orientation"].values, g.index.values
        else:
            if g.position.dims != ("time", "cartesian_axis") or g.orientation.dims != ("time", "quaternion_axis"):
                raise Violation("columns", f"{where}: {g.position.dims} {g.orientation.dims}")
            if list(g.cartesian_axis.values) != list("xyz") or list(g.quaternion_axis.values) != list("wxyz"):
                raise Violation("columns", f"{where}: {g.cartesian_axis.values} {g.quaternion_axis.values}")
            gp, gq, gt = g.position.values, g.orientation.values, g.time.values
        st = model.stamp_ns(gt)
        if len(st) != len(ts) or any(abs(x - y) > 1000 for x, y in zip(st, ts)):
            raise Violation("timestamps", f"{where} {b}: {len(st)} stamps {st[:3]}, expected {len(ts)} {ts[:3]}")
        if not same(gp, p):
            raise Violation("positions", f"{where} {b}: {np.shape(gp)} {np.asarray(gp)[:2]}, expected {p.shape} {p[:2]}")
        if not same(gq, q, 1e-7, True):
            raise Violation("orientations", f"{where} {b}: {np.shape(gq)} {np.asarray(gq)[:2]}, expected {q.shape} {q[:2]}")


def surplus(op, path, want, where):
    """A row with more values than there are columns is not skipped."""
    from rigid_body_motion.io import load_optitrack

    keep = bags.read(path)
    rows = keep.split(b"\n")
    n = len(rows) - 1 - 7
    k = 7 + (1 + op["at"] % (n - 1) if n > 1 else 0)
    cr = rows[k].endswith(b"\r")
    width = max(len(rows[0].split(b",")), len(rows[5].split(b",")))
    cells = rows[k].rstrip(b"\r").split(b",")
    rows[k] = b",".join(cells + [b"1.5"] * (width - len(cells) + op["extra"])) + b"\r" * cr
    try:
        with open(path, "wb") as f:
            f.write(b"\n".join(rows))
        try:
            got = load_optitrack(path, op["fmt"])
        except Exception:
            return
        check(got, want, op["fmt"], f"{where}, {op['extra']} surplus values in row {k - 7}")
    finally:
        with open(path, "wb") as f:
            f.write(keep)


# -- runs ------------------------------------------------------------------------
def history(sc, ctx):
    from pathlib import Path

    S = core.SIM
    faultfs.SEED[:] = [sc["seed"], 0]
    base = os.path.join(sc["_scratch"], "data")
    os.makedirs(base)
    now = []

    def path(k):
        return os.path.join(base, f"take{k}.csv")

    for k, spec in enumerate(sc["files"]):
        write(path(k), sc["seed"], spec)
        now.append(spec)

    def load(op, want, where):
        from rigid_body_motion.io import load_optitrack

        p = path(op["file"])
        p = Path(p) if op["path"] == "path" else p

        def run():
            import gc

            L = faultfs.lib()
            out = []
            for n in range(op["times"]):
                try:
                    got = faultfs.land(load_optitrack, p, op["fmt"])
                    L.ffs_end()
                    check(got, want, op["fmt"], f"{where}, import {n + 1}")
                    out.append("ok")
                except (Exception, KeyboardInterrupt) as e:
                    L.ffs_end()
                    if isinstance(e, Violation):
                        raise
                    out.append([type(e).__name__, str(e)[:200]])
                gc.collect()
                if L.ffs_open_fds():
                    raise Violation("open-file", f"{where}: {L.ffs_open_fds()} files are still open after {out}")
                L.ffs_resume()
            # and with all faults over
            L.ffs_clear()
            got = load_optitrack(p, op["fmt"])
            L.ffs_end()
            check(got, want, op["fmt"], f"{where}, repeated after {out}")
            if op.get("swap"):
                # another take under the same name, and the first one again
                keep = bags.read(path(op["file"]))
                write(path(op["file"]), sc["seed"], op["swap"])
                got = load_optitrack(p, op["fmt"])
                check(got, expected(sc["seed"], op["swap"]), op["fmt"], f"{where}, replaced after {out}")
                with open(path(op["file"]), "wb") as f:
                    f.write(keep)
                got = load_optitrack(p, op["fmt"])
                check(got, want, op["fmt"], f"{where}, put back after {out}")
            return [out, L.ffs_fired()]

        return run

    counts = {}
    for k, op in enumerate(sc["ops"]):
        where = f"op {k} {op.get('fmt', '')}"
        if op["o"] == "replace":
            write(path(op["file"]), sc["seed"], op["spec"])
            now[op["file"]] = op["spec"]
            counts.pop(op["file"], None)
            S.log(k, "replace")
        elif op["o"] == "surplus":
            surplus(op, path(op["file"]), expected(sc["seed"], now[op["file"]]), where)
            ctx.count("fault.row-with-surplus-values")
        elif op["o"] == "missing":
            from rigid_body_motion.io import load_optitrack

            try:
                load_optitrack(os.path.join(base, "none.csv"), op["fmt"])
            except Exception:
                pass
            else:
                raise Violation("missing-file", where)
            try:
                load_optitrack(path(0), "matlab")
            except Exception:
                pass
            else:
                raise Violation("unknown-format", where)
        else:
            f = op["file"]
            want = expected(sc["seed"], now[f])
            if op["faults"] and f not in counts:
                r = faultfs.run(load(dict(op, times=0), want, where), base)
                if r.end != "ok":
                    raise Violation("undisturbed", f"{where}: {now[f]} {r} {getattr(r, 'tb', '')}")
                counts[f] = r.n("r")
            fs = [dict(x, k=1 + int(x["frac"] * counts[f] * op["times"])) for x in op["faults"]]
            r = faultfs.run(load(op, want, where), base, fs)
            S.log(k, r.end, r.exc, r.fired, [x if x == "ok" else x[0] for x in (r.value or [[]])[0]])
            if r.end == "op-cap":
                raise Violation("no-progress", f"{where}: 20000 system calls and no end, {fs}")
            if r.end != "ok":
                raise Violation("undisturbed", f"{where}: file {now[f]}, faults over: {r} {getattr(r, 'tb', '')}")
            out, fired = r.value
            for x in fs:
                ctx.count(faultfs.kinds(x["do"], x.get("arg", 0)))
            hard = [x for x in fs if x["do"] != "short" and x.get("arg") != E["EINTR"]]
            bad = [x for x in out if x != "ok"]
            if bad and not hard:
                raise Violation("not-tolerated", f"{where}: {bad} although reads were only split or interrupted, {fs}")
            if len(bad) > len(hard) and not any(x["do"] == "sticky" for x in hard):
                raise Violation("not-tolerated", f"{where}: {bad}, {fs}")
            ctx.count("imports", len(out))
            ctx.count("import-errors", len(bad))
        for g in bags.scan(base):
            if g not in [f"take{j}.csv" for j in range(len(now))]:
                raise Violation("stray-file", f"{where}: {g}")
