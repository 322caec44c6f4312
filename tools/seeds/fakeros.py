"""Minimal ROS stand-ins for a demonstration (no network, no files but bags)."""

import collections
import copy
import pickle
import sys
import types

PUBLISHED = []  # (topic, message)
SUBSCRIBERS = {}  # topic -> callbacks
LATCHED = {}
LOG = []


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name:
        p, leaf = name.rsplit(".", 1)
        setattr(sys.modules[p], leaf, m)
    return m


class Time:
    def __init__(self, secs=0, nsecs=0):
        n = int(secs) * 10**9 + int(nsecs)
        self.secs, self.nsecs = divmod(n, 10**9)

    @classmethod
    def from_sec(cls, s):
        return cls(0, round(float(s) * 1e9))

    def to_sec(self):
        return self.secs + self.nsecs / 1e9

    def to_nsec(self):
        return self.secs * 10**9 + self.nsecs

    def __eq__(self, o):
        return self.to_nsec() == o.to_nsec()

    def __lt__(self, o):
        return self.to_nsec() < o.to_nsec()

    def __gt__(self, o):
        return self.to_nsec() > o.to_nsec()

    def __hash__(self):
        return hash(self.to_nsec())


class Duration(Time):
    pass


class Msg:
    fields = ()
    _has_header = False

    def __init__(self, *args, **kw):
        if args and len(args) != len(self.fields):
            raise TypeError("wrong number of arguments")
        for (n, make), a in zip(self.fields, args or [None] * len(self.fields)):
            setattr(self, n, make() if not args else a)
        for n, v in kw.items():
            setattr(self, n, v)

    def plain(self):
        def p(v):
            if isinstance(v, Msg):
                return v.plain()
            if isinstance(v, (list, tuple)):
                return [p(x) for x in v]
            if isinstance(v, Time):
                return v.to_nsec()
            return v

        return {n: p(getattr(self, n)) for n, _ in self.fields}

    def serialize(self, buf):
        buf.write(repr(self.plain()).encode())


TYPES = {}


def msg(full, **fields):
    c = type(full.split("/")[1], (Msg,), {"fields": tuple(fields.items()), "_type": full, "_has_header": "header" in fields})
    c.__module__ = __name__
    globals()[c.__name__] = c
    TYPES[full] = c
    return c


f, s = float, str
msg("std_msgs/Header", seq=int, stamp=Time, frame_id=s)
msg("std_msgs/ColorRGBA", r=f, g=f, b=f, a=f)
for n in ("Point", "Vector3"):
    msg("geometry_msgs/" + n, x=f, y=f, z=f)
msg("geometry_msgs/Quaternion", x=f, y=f, z=f, w=f)
msg("geometry_msgs/Transform", translation=Vector3, rotation=Quaternion)  # noqa
msg("geometry_msgs/TransformStamped", header=Header, child_frame_id=s, transform=Transform)  # noqa
msg("geometry_msgs/Pose", position=Point, orientation=Quaternion)  # noqa
msg("geometry_msgs/PoseStamped", header=Header, pose=Pose)  # noqa
msg("geometry_msgs/PoseWithCovariance", pose=Pose)  # noqa
msg("geometry_msgs/Twist", linear=Vector3, angular=Vector3)  # noqa
msg("geometry_msgs/TwistStamped", header=Header, twist=Twist)  # noqa
msg("geometry_msgs/TwistWithCovariance", twist=Twist)  # noqa
msg("geometry_msgs/PointStamped", header=Header, point=Point)  # noqa
msg("geometry_msgs/Vector3Stamped", header=Header, vector=Vector3)  # noqa
msg("geometry_msgs/QuaternionStamped", header=Header, quaternion=Quaternion)  # noqa
msg("nav_msgs/Odometry", header=Header, child_frame_id=s, pose=PoseWithCovariance, twist=TwistWithCovariance)  # noqa
msg("tf2_msgs/TFMessage", transforms=list)
msg("visualization_msgs/Marker", header=Header, ns=s, id=int, type=int, action=int, pose=Pose, scale=Vector3,  # noqa
    color=ColorRGBA, lifetime=Duration, frame_locked=bool, points=list, colors=list, text=s)  # noqa
Marker.LINE_STRIP, Marker.ADD = 4, 0  # noqa


class Publisher:
    def __init__(self, topic, typ, queue_size=None, latch=False, **kw):
        self.topic, self.latch = topic, latch

    def publish(self, m):
        m = copy.deepcopy(m)
        PUBLISHED.append((self.topic, m))
        if self.latch:
            LATCHED[self.topic] = m
        for cb in list(SUBSCRIBERS.get(self.topic, [])):
            cb(m)


class Subscriber:
    def __init__(self, topic, typ, callback, **kw):
        SUBSCRIBERS.setdefault(topic, []).append(callback)
        if topic in LATCHED:
            callback(LATCHED[topic])


class Broadcaster:
    def sendTransform(self, t):
        for x in t if isinstance(t, list) else [t]:
            PUBLISHED.append(("/tf", copy.deepcopy(x)))


Message = collections.namedtuple("Message", "topic message timestamp")
Info = collections.namedtuple("Info", "msg_type message_count connections frequency")
Infos = collections.namedtuple("Infos", "msg_types topics")


class Bag:
    def __init__(self, path, mode="r"):
        self.path, self.mode, self.rows = str(path), mode, []
        if mode == "r":
            with open(self.path, "rb") as fh:
                self.rows = pickle.load(fh)

    def write(self, topic, m, t=None):
        self.rows.append((topic, copy.deepcopy(m), t or m.header.stamp))

    def read_messages(self, topics=None):
        rows = sorted(self.rows, key=lambda r: r[2].to_nsec())
        for t, m, ts in rows:
            if topics is None or t == topics or t in topics and not isinstance(topics, str):
                yield Message(t, copy.deepcopy(m), ts)

    def get_type_and_topic_info(self, topic_filters=None):
        d = {}
        for t, m, _ in self.rows:
            d[t] = Info(m._type, 1, 1, None)
        return Infos({}, d)

    def close(self):
        if self.mode == "w":
            with open(self.path, "wb") as fh:
                pickle.dump(self.rows, fh)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ROSInterruptException(Exception):
    pass


class ROSException(Exception):
    pass


def install():
    import time

    rospy = mod("rospy", Time=Time, Duration=Duration, Publisher=Publisher, Subscriber=Subscriber,
                sleep=lambda d: time.sleep(min(float(d), 0.001)), is_shutdown=lambda: False, loginfo=LOG.append,
                ROSInterruptException=ROSInterruptException, ROSException=ROSException,
                init_node=lambda *a, **k: None, get_master=None)
    mod("rospy.rostime", wallsleep=lambda d: time.sleep(0.001))
    for full, c in TYPES.items():
        p, n = full.split("/")
        if p not in sys.modules:
            mod(p)
            mod(p + ".msg")
        setattr(sys.modules[p + ".msg"], n, c)
    mod("tf")
    mod("tf.msg", tfMessage=TYPES["tf2_msgs/TFMessage"])
    mod("tf2_ros", TransformBroadcaster=Broadcaster, StaticTransformBroadcaster=Broadcaster, Buffer=None)
    mod("tf2_geometry_msgs")
    mod("rosbag", Bag=Bag)
    mod("roslaunch")
    mod("roslaunch.parent")
    return rospy
