"""Frame-tree scenarios and an independent reference model of their meaning.

The model shares no code with the package: a frame is a record with a parent
pointer, quaternion algebra is written out, and a lookup composes the edges
of the path at explicitly stated instants.
"""

import numpy as np

from .core import keyed

GRID = {"ns": 256, "us": 32_000, "ms": 4_000_000, "s": 1_000_000_000, "float": 1_000_000}
T0 = {
    "ns": 1_600_000_000_000_000_000,
    "us": 1_600_000_000_000_000_000,
    "ms": 1_600_000_000_000_000_000,
    "s": 1_600_000_000_000_000_000,
    "float": 0,
}


# -- quaternion algebra (w, x, y, z) -------------------------------------------
def qmul(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    w1, x1, y1, z1 = np.moveaxis(a, -1, 0)
    w2, x2, y2, z2 = np.moveaxis(b, -1, 0)
    return np.stack(
        [
            w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
            w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
            w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
            w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
        ],
        axis=-1,
    )


def qconj(q):
    return np.asarray(q, float) * np.array([1.0, -1, -1, -1])


def rot(q, v):
    """Rotate vectors v (..., 3) by unit quaternions q (..., 4)."""
    q, v = np.asarray(q, float), np.asarray(v, float)
    w, x, y, z = np.moveaxis(q, -1, 0)
    m = np.stack(
        [
            np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], -1),
            np.stack([2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], -1),
            np.stack([2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1),
        ],
        -2,
    )
    return np.einsum("...ij,...j->...i", m, v)


def unit(q):
    q = np.asarray(q, float)
    return q / np.linalg.norm(q, axis=-1, keepdims=True)


# -- generation -----------------------------------------------------------------
def gen_ts(rng, unit_, n, t0=0, irregular=True, dups=False, gmul=1, base=None):
    """n strictly increasing stamps in ns (multiples of the unit's grid)."""
    g = GRID[unit_] * gmul
    base = T0[unit_] if base is None else base
    step = rng.choice([1, 3, 10, 40])
    t = base + (t0 + rng.randrange(0, 4) * step) * g
    out = []
    for _ in range(n):
        out.append(t)
        d = step
        if irregular and rng.random() < 0.4:
            d = step * rng.choice([1, 2, 3, 7])
        if dups and rng.random() < 0.15:
            d = 0
        t += d * g
    return out


def gen_arrays(seed, key, n):
    """Translation (n,3) and smooth unit rotation (n,4)."""
    r = np.random.RandomState(keyed(seed, "arr", key).randrange(2**31))
    t = np.round(r.uniform(-5, 5, (n, 3)), 3)
    q = [unit(r.normal(size=4))]
    for _ in range(n - 1):
        d = unit(np.concatenate([[1.0], r.normal(size=3) * 0.25]))
        q.append(unit(qmul(q[-1], d)))
    q = np.array(q).reshape(n, 4)
    rng = keyed(seed, "rest", key)
    if rng.random() < 0.3:
        # phases in which nothing, or only one of the two, changes
        for i in range(1, n):
            x = rng.random()
            if x < 0.5:
                t[i] = t[i - 1]
            if x < 0.4 or x > 0.9:
                q[i] = q[i - 1]
    return t, q


def stamps(ts_ns, unit_):
    if unit_ == "float":
        return np.array([t / 1e9 for t in ts_ns])
    return np.array(ts_ns, dtype="datetime64[ns]").astype(f"datetime64[{unit_}]")


def frame_args(sc_seed, f):
    """Constructor arguments of a frame spec."""
    kw = {}
    if f["kind"] == "root":
        return kw
    if f["kind"] == "static":
        t, q = gen_arrays(sc_seed, f["key"], 1)
        kw.update(translation=t[0], rotation=q[0])
    else:
        t, q = gen_arrays(sc_seed, f["key"], len(f["ts"]))
        kw.update(translation=t, rotation=q, timestamps=stamps(f["ts"], f["unit"]))
        if f["kind"] == "discrete":
            kw["discrete"] = True
    if f.get("no_t"):
        kw.pop("translation")
    if f.get("no_r"):
        kw.pop("rotation")
    if f.get("inverse"):
        kw["inverse"] = True
    return kw


def gen_frame(rng, key, name, parent, family, kinds, nmax=8, t0=0, unit_=None, nmin=2):
    kind = rng.choice(kinds) if parent is not None else "root"
    f = {"key": key, "name": name, "parent": parent, "kind": kind}
    if kind in ("moving", "discrete"):
        u = unit_ or (
            "float" if family == "float" else rng.choice(["ns", "ns", "us", "ms", "s"])
            if family == "mixed" else family
        )
        n = rng.randrange(nmin, nmax + 1)
        if kind == "discrete" and rng.random() < 0.2:
            n = 1
        f["unit"] = u
        f["ts"] = gen_ts(rng, u, n, t0)
    if kind != "root":
        x = rng.random()
        if x < 0.1:
            f["no_t"] = 1
        elif x < 0.2:
            f["no_r"] = 1
        if rng.random() < 0.25:
            f["inverse"] = 1
    return f


# -- model -----------------------------------------------------------------------
class MFrame:
    """Reference model of one frame."""

    def __init__(self, f, args, parent):
        self.name = f["name"]
        self.f = f
        self.key = f.get("key")
        self.parent = parent
        self.kind = f["kind"]
        self.ts = list(f["ts"]) if "ts" in f else None
        if parent is None:
            self.t = self.q = None
            return
        n = len(self.ts) if self.ts is not None else None
        t = args.get("translation")
        q = args.get("rotation")
        if t is None:
            t = np.zeros(3 if n is None else (n, 3))
        if q is None:
            q = np.zeros(4 if n is None else (n, 4))
            q[..., 0] = 1.0
        t, q = np.array(t, float), np.array(q, float)
        if args.get("inverse"):
            q = qconj(q)
            t = -rot(q, t)
        self.t, self.q = t, q

    @property
    def moving(self):
        return self.ts is not None

    def at(self, t):
        """Transform to the parent at instant t (ns)."""
        if self.ts is None:
            return self.t, self.q
        if self.kind == "discrete":
            k = 0
            for i, s in enumerate(self.ts):
                if s <= t:
                    k = i
            return self.t[k], self.q[k]
        for i, s in enumerate(self.ts):
            if s == t:
                return self.t[i], self.q[i]
        if not self.ts[0] < t < self.ts[-1]:
            raise LookupError("outside of the sampled range")
        i = max(k for k, s in enumerate(self.ts) if s <= t)
        a = (t - self.ts[i]) / (self.ts[i + 1] - self.ts[i])
        tr = self.t[i] * (1 - a) + self.t[i + 1] * a
        from quaternion import as_float_array, as_quat_array, squad

        off = self.ts[0]
        q = as_float_array(
            squad(
                as_quat_array(self.q),
                np.array([(x - off) / 1e9 for x in self.ts]),
                np.array([(t - off) / 1e9]),
            )
        )[0]
        return tr, q


def path(a, b):
    """Edges walked (frame, inverse) from a to b; None if unconnected."""
    pa, pb = [a], [b]
    while pa[-1].parent is not None:
        pa.append(pa[-1].parent)
    while pb[-1].parent is not None:
        pb.append(pb[-1].parent)
    if pa[-1] is not pb[-1]:
        return None
    sb = {id(x) for x in pb}
    up = []
    for x in pa:
        if id(x) in sb:
            top = x
            break
        up.append((x, False))
    down = []
    for x in pb:
        if x is top:
            break
        down.append((x, True))
    return up + down[::-1]


def compose(edges, t):
    """Transform over the edges at instant t."""
    tr, q = np.zeros(3), np.array([1.0, 0, 0, 0])
    for fr, inv in edges:
        et, eq = fr.at(t)
        if inv:
            tr = rot(qconj(eq), tr - et)
            q = qmul(qconj(eq), q)
        else:
            tr = rot(eq, tr) + et
            q = qmul(eq, q)
    return tr, q


def sampling(edges, arr_ts=None):
    """Instants of the result: None if static."""
    cont = [fr for fr, _ in edges if fr.moving and fr.kind != "discrete"]
    disc = [fr for fr, _ in edges if fr.moving and fr.kind == "discrete"]
    firsts = [fr.ts[0] for fr in cont] + ([arr_ts[0]] if arr_ts else [])
    lasts = [fr.ts[-1] for fr in cont] + ([arr_ts[-1]] if arr_ts else [])
    if arr_ts:
        src = arr_ts
    elif cont:
        src = cont[0].ts
    elif disc:
        return sorted({t for fr in disc for t in fr.ts})
    else:
        return None
    return [t for t in src if max(firsts) <= t <= min(lasts)]


def lookup(a, b):
    """(translation, rotation, stamps in ns or None); None if unconnected."""
    e = path(a, b)
    if e is None:
        return None
    ts = sampling(e)
    if ts is None:
        t, q = compose(e, None)
        return t, q, None
    res = [compose(e, t) for t in ts]
    return (
        np.array([r[0] for r in res]).reshape(-1, 3),
        np.array([r[1] for r in res]).reshape(-1, 4),
        ts,
    )


# -- comparison -------------------------------------------------------------------
def stamp_ns(ts):
    """Stamps returned by the package, as ns (rounded for float seconds)."""
    if ts is None:
        return None
    a = np.asarray(ts)
    if np.issubdtype(a.dtype, np.datetime64):
        return [int(x) for x in a.astype("datetime64[ns]").astype("int64")]
    return [int(round(float(x) * 1e9)) for x in a]


def close_q(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all()):
        return False
    d = np.minimum(
        np.abs(a - b).max(axis=-1), np.abs(a + b).max(axis=-1)
    )
    return bool(np.all(d <= tol))


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.isfinite(a).all() and np.abs(a - b).max() <= tol)


def same_ts(got, want, slack=0):
    g = stamp_ns(got)
    if (g is None) != (want is None):
        return False
    if g is None:
        return True
    return len(g) == len(want) and all(abs(x - y) <= slack for x, y in zip(g, want))
