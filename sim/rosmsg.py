"""genpy-like messages, times and durations."""

import copy
import struct


class TVal:
    __slots__ = ("secs", "nsecs")

    def __init__(self, secs=0, nsecs=0):
        if not isinstance(secs, int):
            if nsecs != 0:
                raise ValueError("if secs is a float, nsecs cannot be set")
            fs = float(secs)
            secs = int(fs)
            nsecs = int((fs - secs) * 1000000000)
        self.secs, self.nsecs = self._canon(int(secs), int(nsecs))
        self._check()

    @staticmethod
    def _canon(s, n):
        s += n // 1000000000
        return s, n % 1000000000

    def _check(self):
        pass

    @classmethod
    def from_sec(cls, float_secs):
        secs = int(float_secs)
        nsecs = int((float_secs - secs) * 1000000000)
        return cls(secs, nsecs)

    @classmethod
    def from_seconds(cls, s):
        return cls.from_sec(s)

    def to_sec(self):
        return float(self.secs) + float(self.nsecs) / 1e9

    to_seconds = to_sec

    def to_nsec(self):
        return self.secs * 1000000000 + self.nsecs

    def is_zero(self):
        return self.secs == 0 and self.nsecs == 0

    def __bool__(self):
        return not self.is_zero()

    def _k(self, other):
        if not isinstance(other, TVal):
            return NotImplemented
        return other.to_nsec()

    def __eq__(self, o):
        return isinstance(o, TVal) and self.to_nsec() == o.to_nsec()

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.to_nsec() < o.to_nsec()

    def __le__(self, o):
        return self.to_nsec() <= o.to_nsec()

    def __gt__(self, o):
        return self.to_nsec() > o.to_nsec()

    def __ge__(self, o):
        return self.to_nsec() >= o.to_nsec()

    def __hash__(self):
        return hash((self.secs, self.nsecs))

    def __repr__(self):
        return f"{type(self).__name__}[{self.to_nsec()}]"

    def __str__(self):
        return str(self.to_nsec())


class Duration(TVal):
    __slots__ = ()

    def __add__(self, o):
        if isinstance(o, Time):
            return type(o)(self.secs + o.secs, self.nsecs + o.nsecs)
        return type(self)(self.secs + o.secs, self.nsecs + o.nsecs)

    def __sub__(self, o):
        return type(self)(self.secs - o.secs, self.nsecs - o.nsecs)

    def __neg__(self):
        return type(self)(-self.secs, -self.nsecs)

    def __mul__(self, k):
        return type(self).from_sec(self.to_sec() * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        if isinstance(k, Duration):
            return self.to_sec() / k.to_sec()
        return type(self).from_sec(self.to_sec() / k)

    def __abs__(self):
        return self if self.to_nsec() >= 0 else -self


class Time(TVal):
    __slots__ = ()

    def _check(self):
        if self.secs < 0:
            raise TypeError("time values must be positive")
        if self.secs > 4294967295:
            raise ValueError("time value out of range")

    def __add__(self, o):
        if not isinstance(o, Duration):
            return NotImplemented
        return type(self)(self.secs + o.secs, self.nsecs + o.nsecs)

    def __sub__(self, o):
        if isinstance(o, Time):
            return Duration(self.secs - o.secs, self.nsecs - o.nsecs)
        return type(self)(self.secs - o.secs, self.nsecs - o.nsecs)

    @classmethod
    def now(cls):
        from . import ros

        return ros.R.now()

    def to_time(self):
        return self.to_sec()


class SerializationError(Exception):
    pass


class DeserializationError(Exception):
    pass


PRIM = {
    "float64": ("<d", 0.0), "float32": ("<f", 0.0), "int32": ("<i", 0),
    "uint32": ("<I", 0), "uint8": ("<B", 0), "bool": ("<B", False),
}
TYPES = {}


class Message:
    __slots__ = ()
    _slot_types = ()
    _type = ""
    _has_header = False

    def __init__(self, *args, **kwds):
        if args and kwds:
            raise TypeError("Message constructor may only use args OR keywords, not both")
        if args:
            if len(args) != len(self.__slots__):
                raise TypeError(
                    f"Invalid number of arguments, args should be {list(self.__slots__)} args are {args}"
                )
            for n, v in zip(self.__slots__, args):
                setattr(self, n, v)
            return
        for n, t in zip(self.__slots__, self._slot_types):
            setattr(self, n, kwds.pop(n) if n in kwds else default(t))
        if kwds:
            raise AttributeError(f"{type(self).__name__} has no {sorted(kwds)}")

    def serialize(self, buff):
        try:
            for n, t in zip(self.__slots__, self._slot_types):
                _ser(buff, t, getattr(self, n))
        except (struct.error, TypeError, AttributeError) as e:
            raise SerializationError(f"{type(e)}: {e}")

    def deserialize(self, data):
        pos = self._des(memoryview(bytes(data)), 0)
        if pos != len(data):
            raise DeserializationError("trailing data")
        return self

    def _des(self, mv, pos):
        for n, t in zip(self.__slots__, self._slot_types):
            v, pos = _des(mv, pos, t)
            setattr(self, n, v)
        return pos

    def __eq__(self, o):
        return type(self) is type(o) and all(
            getattr(self, n) == getattr(o, n) for n in self.__slots__
        )

    __hash__ = None

    def __repr__(self):
        return f"{self._type}({', '.join(f'{n}={getattr(self, n)!r}' for n in self.__slots__)})"


def default(t):
    if t.endswith("[]"):
        return []
    if t in PRIM:
        return PRIM[t][1]
    if t == "string":
        return ""
    if t == "time":
        return Time()
    if t == "duration":
        return Duration()
    return TYPES[t]()


def _ser(b, t, v):
    if t.endswith("[]"):
        b.write(struct.pack("<I", len(v)))
        for x in v:
            _ser(b, t[:-2], x)
    elif t in PRIM:
        b.write(struct.pack(PRIM[t][0], v))
    elif t == "string":
        e = v.encode() if isinstance(v, str) else v
        b.write(struct.pack("<I", len(e)) + e)
    elif t in ("time", "duration"):
        b.write(struct.pack("<II" if t == "time" else "<ii", v.secs, v.nsecs))
    else:
        v.serialize(b)


def _des(mv, pos, t):
    if t.endswith("[]"):
        (n,) = struct.unpack_from("<I", mv, pos)
        pos += 4
        out = []
        for _ in range(n):
            x, pos = _des(mv, pos, t[:-2])
            out.append(x)
        return out, pos
    if t in PRIM:
        f = PRIM[t][0]
        v = struct.unpack_from(f, mv, pos)[0]
        return (bool(v) if t == "bool" else v), pos + struct.calcsize(f)
    if t == "string":
        (n,) = struct.unpack_from("<I", mv, pos)
        return bytes(mv[pos + 4: pos + 4 + n]).decode(), pos + 4 + n
    if t in ("time", "duration"):
        s, n = struct.unpack_from("<II" if t == "time" else "<ii", mv, pos)
        return (Time if t == "time" else Duration)(s, n), pos + 8
    m = TYPES[t]()
    return m, m._des(mv, pos)


def msgtype(full, fields, consts=None):
    name = full.split("/")[1]
    ns = {
        "__slots__": [f[1] for f in fields],
        "_slot_types": [f[0] for f in fields],
        "_type": full,
        "_has_header": bool(fields) and fields[0][0] == "std_msgs/Header",
    }
    ns.update(consts or {})
    cls = type(name, (Message,), ns)
    cls.__module__ = full.split("/")[0] + ".msg"
    TYPES[full] = cls
    return cls


def _m(full, spec, **consts):
    fields = [tuple(x.split()) for x in spec.split(",") if x.strip()]
    return msgtype(full, fields, consts)


H = "std_msgs/Header header"
_m("std_msgs/Header", "uint32 seq, time stamp, string frame_id")
_m("std_msgs/ColorRGBA", "float32 r, float32 g, float32 b, float32 a")
_m("std_msgs/String", "string data")
_m("rosgraph_msgs/Clock", "time clock")
for n in ("Vector3", "Point"):
    _m("geometry_msgs/" + n, "float64 x, float64 y, float64 z")
_m("geometry_msgs/Quaternion", "float64 x, float64 y, float64 z, float64 w")
_m("geometry_msgs/Transform", "geometry_msgs/Vector3 translation, geometry_msgs/Quaternion rotation")
_m("geometry_msgs/Pose", "geometry_msgs/Point position, geometry_msgs/Quaternion orientation")
_m("geometry_msgs/Twist", "geometry_msgs/Vector3 linear, geometry_msgs/Vector3 angular")
_m("geometry_msgs/TransformStamped", H + ", string child_frame_id, geometry_msgs/Transform transform")
_m("geometry_msgs/PoseStamped", H + ", geometry_msgs/Pose pose")
_m("geometry_msgs/TwistStamped", H + ", geometry_msgs/Twist twist")
_m("geometry_msgs/PointStamped", H + ", geometry_msgs/Point point")
_m("geometry_msgs/Vector3Stamped", H + ", geometry_msgs/Vector3 vector")
_m("geometry_msgs/QuaternionStamped", H + ", geometry_msgs/Quaternion quaternion")
_m("geometry_msgs/PoseWithCovariance", "geometry_msgs/Pose pose, float64[] covariance")
_m("geometry_msgs/TwistWithCovariance", "geometry_msgs/Twist twist, float64[] covariance")
_m("nav_msgs/Odometry", H + ", string child_frame_id, geometry_msgs/PoseWithCovariance pose, geometry_msgs/TwistWithCovariance twist")
_m("tf2_msgs/TFMessage", "geometry_msgs/TransformStamped[] transforms")
_m(
    "visualization_msgs/Marker",
    H + ", string ns, int32 id, int32 type, int32 action, geometry_msgs/Pose pose, "
    "geometry_msgs/Vector3 scale, std_msgs/ColorRGBA color, duration lifetime, "
    "bool frame_locked, geometry_msgs/Point[] points, std_msgs/ColorRGBA[] colors, "
    "string text, string mesh_resource, bool mesh_use_embedded_materials",
    ARROW=0, CUBE=1, SPHERE=2, CYLINDER=3, LINE_STRIP=4, LINE_LIST=5,
    CUBE_LIST=6, SPHERE_LIST=7, POINTS=8, TEXT_VIEW_FACING=9,
    MESH_RESOURCE=10, TRIANGLE_LIST=11, ADD=0, MODIFY=0, DELETE=2, DELETEALL=3,
)
_m("visualization_msgs/MarkerArray", "visualization_msgs/Marker[] markers")


def clone(msg):
    return copy.deepcopy(msg)
