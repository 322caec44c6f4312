"""Bag files with generated content, and what loading them must return."""

import os

import numpy as np

from . import model, ros, rosmsg
from .core import Violation, keyed


def content(seed, spec):
    """(stamps ns, position, orientation, velocities) of a topic version."""
    n, ver, scale, typ = spec["n"], spec["ver"], spec.get("scale", 1), spec["typ"]
    r = keyed(seed, "bag", spec["topic"], ver, n)
    ts = model.gen_ts(r, "ns", n, base=1_600_000_000_000_000_000, gmul=4000)
    rs = np.random.RandomState(r.randrange(2**31))
    t = rs.uniform(-5, 5, (n, 3)) * scale
    q = model.unit(rs.normal(size=(n, 4)))
    v = rs.uniform(-3, 3, (n, 6))
    for k in spec.get("special", ()):
        j = r.randrange(n)
        if k == "nan":
            t[j] = q[j] = v[j] = np.nan
        elif k == "nans":
            t[:] = q[:] = np.nan
        elif k == "inf":
            v[j, r.randrange(6)] = r.choice([np.inf, -np.inf])
        elif k == "edge":
            # the largest values of the cache's number format
            t[j] = r.choice([214748.3647, -214748.3647, 214748.3648, -214748.3648, 214748.36474, 214748.36476])
        elif k == "dec":
            ts = ts[::-1]
        elif k == "dup":
            ts[j] = ts[n // 2]
    return ts, t, q, v


def write(path, seed, topics, utime=None, inplace=False):
    """Write a bag with the given topic specs; atomically or in place."""
    T = rosmsg.TYPES
    tmp = path if inplace else path + ".new"
    bag = ros.Bag(tmp, "w")
    rec = 10**18
    for spec in topics:
        ts, t, q, v = content(seed, spec)
        for s, p, o, x in zip(ts, t, q, v):
            if spec["typ"] == "odom":
                m = T["nav_msgs/Odometry"]()
                m.pose.pose.position = T["geometry_msgs/Point"](*map(float, p))
                m.pose.pose.orientation = T["geometry_msgs/Quaternion"](*map(float, (o[1], o[2], o[3], o[0])))
                m.twist.twist.linear = T["geometry_msgs/Vector3"](*map(float, x[:3]))
                m.twist.twist.angular = T["geometry_msgs/Vector3"](*map(float, x[3:]))
            elif spec["typ"] == "tf":
                m = T["geometry_msgs/TransformStamped"]()
                m.transform.translation = T["geometry_msgs/Vector3"](*map(float, p))
                m.transform.rotation = T["geometry_msgs/Quaternion"](*map(float, (o[1], o[2], o[3], o[0])))
            m.header.stamp = rosmsg.Time(s // 10**9, s % 10**9)
            rec += 10**6
            bag.write(spec["topic"], m, rosmsg.Time(rec // 10**9, rec % 10**9))
    bag.close()
    if utime is not None:
        os.utime(tmp, ns=(utime, utime))
    if not inplace:
        os.replace(tmp, path)


def check(ds, seed, spec, where, exact, cls="dataset"):
    """Dataset is the topic's content, exact or at the cache's resolution."""
    ts, t, q, v = content(seed, spec)
    want = {"position": (t, ("time", "cartesian_axis")), "orientation": (q, ("time", "quaternion_axis"))}
    if spec["typ"] == "odom":
        want["linear_velocity"] = (v[:, :3], ("time", "cartesian_axis"))
        want["angular_velocity"] = (v[:, 3:], ("time", "cartesian_axis"))
    if set(ds.data_vars) != set(want):
        raise Violation(cls, f"{where}: variables {sorted(ds.data_vars)}, expected {sorted(want)}")
    if set(ds.coords) != {"time", "cartesian_axis", "quaternion_axis"}:
        raise Violation(cls, f"{where}: coordinates {sorted(ds.coords)}")
    if list(ds.cartesian_axis.values) != ["x", "y", "z"] or list(ds.quaternion_axis.values) != ["w", "x", "y", "z"]:
        raise Violation(cls, f"{where}: axes {ds.cartesian_axis.values} {ds.quaternion_axis.values}")
    got = model.stamp_ns(ds["time"].values)
    if len(got) != len(ts) or any(abs(a - b) > 2000 for a, b in zip(got, ts)):
        raise Violation(cls, f"{where}: {len(got)} stamps {got[:4]}..., expected {len(ts)} {ts[:4]}...")
    for k, (a, dims) in want.items():
        if ds[k].dims != dims:
            raise Violation(cls, f"{where}: {k} has dimensions {ds[k].dims}")
        tol = 1e-9 if exact else 5.001e-5
        b = np.asarray(ds[k].values, float)
        if b.shape != a.shape or not (np.isnan(a) == np.isnan(b)).all() or not (
                np.isclose(a, b, 1e-12, tol) | np.isnan(a)).all():
            d = np.nanmax(np.abs(a - b)) if b.shape == a.shape else b.shape
            raise Violation(cls, f"{where}: {k} differs by {d}")
    return got


def scan(folder):
    """Relative path -> size of every file under a folder."""
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, folder)] = os.path.getsize(p)
    return out


def read(path):
    with open(path, "rb") as f:
        return f.read()
