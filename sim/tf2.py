"""tf2 buffer with the semantics of tf2's BufferCore and TimeCache."""

import math

from . import rosmsg
from .rosmsg import TYPES, Duration, Time


class TransformException(Exception):
    pass


class ConnectivityException(TransformException):
    pass


class LookupException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class InvalidArgumentException(TransformException):
    pass


class TimeoutException(TransformException):
    pass


def _mul(a, b):
    x1, y1, z1, w1 = a
    x2, y2, z2, w2 = b
    return (
        w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
        w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
        w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2,
        w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
    )


def _inv(q):
    return (-q[0], -q[1], -q[2], q[3])


def _rot(q, v):
    p = _mul(_mul(q, (v[0], v[1], v[2], 0.0)), _inv(q))
    return p[:3]


def _add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def _slerp(a, b, u):
    d = sum(x * y for x, y in zip(a, b))
    if d < 0:
        b = tuple(-x for x in b)
        d = -d
    if d > 1 - 1e-12:
        q = tuple(x * (1 - u) + y * u for x, y in zip(a, b))
    else:
        th = math.acos(min(1.0, d))
        s = math.sin(th)
        q = tuple(
            x * math.sin((1 - u) * th) / s + y * math.sin(u * th) / s
            for x, y in zip(a, b)
        )
    n = math.sqrt(sum(x * x for x in q))
    return tuple(x / n for x in q)


class _Cache:
    """TimeCache: newest first, pruned by age relative to the newest."""

    def __init__(self, max_ns, reject_repeated):
        self.max_ns = max_ns
        self.st = []  # (stamp_ns, parent, t, q)
        self.reject_repeated = reject_repeated

    def insert(self, e):
        if self.st and self.st[0][0] > e[0] + self.max_ns:
            return False
        i = 0
        while i < len(self.st) and self.st[i][0] > e[0]:
            i += 1
        if self.reject_repeated and i < len(self.st) and self.st[i][0] == e[0]:
            return False
        self.st.insert(i, e)
        latest = self.st[0][0]
        while self.st and self.st[-1][0] + self.max_ns < latest:
            self.st.pop()
        return True

    def get(self, t):
        st = self.st
        if not st:
            return None
        if t == 0:
            return st[0]
        if len(st) == 1:
            return st[0] if st[0][0] == t else None
        if t == st[0][0]:
            return st[0]
        if t == st[-1][0]:
            return st[-1]
        if t > st[0][0] or t < st[-1][0]:
            return None
        i = 0
        while i < len(st) and st[i][0] > t:
            i += 1
        old, new = st[i], st[i - 1]
        if old[1] != new[1]:
            return old
        if new[0] == old[0]:
            return new
        u = (t - old[0]) / (new[0] - old[0])
        tr = tuple(a * (1 - u) + b * u for a, b in zip(old[2], new[2]))
        return (t, old[1], tr, _slerp(old[3], new[3], u))

    def latest(self):
        return self.st[0][0] if self.st else 0


class _Static:
    def __init__(self, e):
        self.e = e

    def get(self, t):
        return self.e

    def latest(self):
        return 0


class BufferCore:
    DEFAULT_NS = 10_000_000_000
    REJECT_REPEATED = True
    LAST = None  # the buffer created last

    def __init__(self, cache_time=None):
        self.max_ns = self.DEFAULT_NS if cache_time is None else cache_time.to_nsec()
        self.frames = {}
        self.names = set()
        self.rejected = 0
        self.waits = 0
        BufferCore.LAST = self

    # -- insertion -------------------------------------------------------------
    def _set(self, msg, static):
        parent = msg.header.frame_id.lstrip("/")
        child = msg.child_frame_id.lstrip("/")
        tr, ro = msg.transform.translation, msg.transform.rotation
        t = (float(tr.x), float(tr.y), float(tr.z))
        q = (float(ro.x), float(ro.y), float(ro.z), float(ro.w))
        bad = (
            parent == child
            or not parent
            or not child
            or any(math.isnan(x) for x in t + q)
            or abs(sum(x * x for x in q) - 1.0) > 10e-3
        )
        if bad:
            self.rejected += 1
            return False
        self.names.add(parent)
        self.names.add(child)
        e = (msg.header.stamp.to_nsec(), parent, t, q)
        if static:
            self.frames[child] = _Static(e)
            return True
        c = self.frames.get(child)
        if not isinstance(c, _Cache):
            c = self.frames[child] = _Cache(self.max_ns, self.REJECT_REPEATED)
        ok = c.insert(e)
        if not ok:
            self.rejected += 1
        return ok

    def set_transform(self, msg, authority):
        return self._set(msg, False)

    def set_transform_static(self, msg, authority):
        return self._set(msg, True)

    # -- lookup ------------------------------------------------------------------
    def _frame(self, name):
        if name.startswith("/"):
            raise InvalidArgumentException("tf2 frame_ids cannot start with a '/'")
        if not name:
            raise InvalidArgumentException("frame_id cannot be empty")
        if name not in self.names:
            raise LookupException(f'"{name}" does not exist')
        return name

    def _chain(self, f):
        out = [f]
        while out[-1] in self.frames and len(out) < 1000:
            g = self.frames[out[-1]].get(0)
            if g is None:
                break
            out.append(g[1])
        return out

    def _latest_common(self, target, source):
        cs, ct = self._chain(source), self._chain(target)
        common = None
        for f in cs:
            if f in ct:
                common = f
                break
        if common is None:
            raise ConnectivityException("not in the same tree")
        stamps = []
        for ch in (cs, ct):
            for f in ch[: ch.index(common)]:
                if isinstance(self.frames[f], _Cache):
                    stamps.append(self.frames[f].latest())
        return min(stamps) if stamps else 0

    def _lookup(self, target, source, t):
        target, source = self._frame(target), self._frame(source)
        if target == source:
            return (0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0), t
        if t == 0:
            t = self._latest_common(target, source)
        s = ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0))
        f, top, extrap = source, source, False
        while True:
            c = self.frames.get(f)
            if c is None:
                top = f
                break
            if f == target:
                return s[0], s[1], t
            g = c.get(t)
            if g is None:
                top, extrap = f, True
                break
            s = (_add(_rot(g[3], s[0]), g[2]), _mul(g[3], s[1]))
            top, f = f, g[1]
        if top == target:
            return s[0], s[1], t
        d = ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0))
        f = target
        while f != top:
            c = self.frames.get(f)
            if c is None:
                break
            if f == source:
                q = _inv(d[1])
                return _rot(q, tuple(-x for x in d[0])), q, t
            g = c.get(t)
            if g is None:
                raise ExtrapolationException(f"extrapolation of {f} at {t}")
            d = (_add(_rot(g[3], d[0]), g[2]), _mul(g[3], d[1]))
            f = g[1]
        if f != top:
            if extrap:
                raise ExtrapolationException(f"extrapolation at {t}")
            raise ConnectivityException("not in the same tree")
        q = _inv(d[1])
        tr = _rot(q, tuple(a - b for a, b in zip(s[0], d[0])))
        return tr, _mul(q, s[1]), t

    def lookup_transform_core(self, target, source, time):
        tr, q, t = self._lookup(target, source, time.to_nsec())
        m = TYPES["geometry_msgs/TransformStamped"]()
        m.header.stamp = Time(t // 10**9, t % 10**9)
        m.header.frame_id = target
        m.child_frame_id = source
        m.transform.translation = TYPES["geometry_msgs/Vector3"](*tr)
        m.transform.rotation = TYPES["geometry_msgs/Quaternion"](*q)
        return m

    def can_transform_core(self, target, source, time):
        try:
            self._lookup(target, source, time.to_nsec())
            return True, ""
        except TransformException as e:
            return False, str(e)


class Buffer(BufferCore):
    def __init__(self, cache_time=None, debug=True):
        if cache_time is not None and not isinstance(cache_time, Duration):
            raise TypeError("cache_time must be a Duration")
        super().__init__(cache_time)

    def lookup_transform(self, target_frame, source_frame, time, timeout=None):
        return self.lookup_transform_core(target_frame, source_frame, time)

    def can_transform(self, target_frame, source_frame, time, timeout=None, return_debug_tuple=False):
        r = self.can_transform_core(target_frame, source_frame, time)
        return r if return_debug_tuple else r[0]

    def clear(self):
        self.frames.clear()


# -- tf2_geometry_msgs ---------------------------------------------------------
def _parts(tf):
    t, r = tf.transform.translation, tf.transform.rotation
    return (t.x, t.y, t.z), (r.x, r.y, r.z, r.w)


def _unit(q):
    n = math.sqrt(sum(x * x for x in q))
    return tuple(x / n for x in q)


def do_transform_point(p, tf):
    t, q = _parts(tf)
    r = TYPES["geometry_msgs/PointStamped"]()
    r.point = TYPES["geometry_msgs/Point"](
        *_add(_rot(q, (p.point.x, p.point.y, p.point.z)), t)
    )
    r.header = tf.header
    return r


def do_transform_vector3(v, tf):
    _, q = _parts(tf)
    r = TYPES["geometry_msgs/Vector3Stamped"]()
    r.vector = TYPES["geometry_msgs/Vector3"](
        *_rot(q, (v.vector.x, v.vector.y, v.vector.z))
    )
    r.header = tf.header
    return r


def do_transform_pose(p, tf):
    t, q = _parts(tf)
    r = TYPES["geometry_msgs/PoseStamped"]()
    pp, po = p.pose.position, p.pose.orientation
    r.pose.position = TYPES["geometry_msgs/Point"](*_add(_rot(q, (pp.x, pp.y, pp.z)), t))
    # KDL goes through a rotation matrix: unit norm, sign not preserved
    o = _unit(_mul(q, _unit((po.x, po.y, po.z, po.w))))
    if o[3] < 0:
        o = tuple(-x for x in o)
    r.pose.orientation = TYPES["geometry_msgs/Quaternion"](*o)
    r.header = tf.header
    return r
