"""Simulated ROS 1: node, topics, clock, tf2, rosbag, roslaunch.

Re-implements the client-library behaviour the package relies on (rospy,
genpy, tf2_ros, tf2_geometry_msgs, rosbag, roslaunch) on top of the simulator:
every publish, delivery, sleep and failure is one of its events.
"""

import collections
import io
import json
import os
import struct
import sys
import types

from . import core, patch, rosmsg, tf2
from .rosmsg import TYPES, Duration, Time


class ROSException(Exception):
    pass


class ROSSerializationException(ROSException):
    pass


class ROSInitException(ROSException):
    pass


class ROSInterruptException(ROSException, KeyboardInterrupt):
    pass


class ROSTimeMovedBackwardsException(ROSInterruptException):
    def __init__(self, time):
        self.time = time
        super().__init__("ROS time moved backwards")


class State:
    """All ROS state of the simulated process (one run per process)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.initialized = True
        self.shutdown = False
        self.hooks = []
        self.topics = {}
        self.records = []  # every successful publish
        self.attempts = 0
        self.publish_fault = None  # fn(topic, n) -> None | ("fail", exc) | ("slow", ns)
        self.sleep_fault = None  # fn(n, seconds) -> None | ("over", ns) | ("raise", exc)
        self.n_sleep = 0
        self.link = None  # fn(topic, conn_key, n) -> list of delays in ns ([] = lost)
        self.use_sim_time = False
        self.simclock = 0
        self.clock_cond = None
        self.cb_errors = []
        self.logs = []
        self.node_name = None
        self.master = None
        self.sleeps = []
        self.serialize_seq = True
        self.on_publish = None
        self.on_subscribe = None
        self.on_deliver = None

    # -- clock ---------------------------------------------------------------
    def now(self):
        if self.use_sim_time:
            return Time(self.simclock // 10**9, self.simclock % 10**9)
        ns = patch.wall_ns()
        return Time(ns // 10**9, ns % 10**9)

    def set_clock(self, ns):
        self.simclock = ns
        with self.clock_cond:
            self.clock_cond.notify_all()

    def topic(self, name):
        if name not in self.topics:
            self.topics[name] = Topic(name)
        return self.topics[name]


R = State()


def sim():
    return core.SIM


class Topic:
    def __init__(self, name):
        self.name = name
        self.pubs = []  # impls: objects with .key
        self.callbacks = []
        self.conns = {}
        self.latch = None
        self.seq = 0
        self.closed = False
        self.n = 0
        self.lock = patch.RLock()

    def connect_all(self):
        if not self.callbacks:
            return
        for key in self.pubs:
            if key not in self.conns:
                c = self.conns[key] = Conn(self, key)
                if key == "local" and self.latch is not None:
                    self.seq += 1
                    self.latch.header.seq = self.seq if _has(self.latch) else 0
                    c.feed(self.latch)


def _has(m):
    return getattr(type(m), "_has_header", False)


class Conn:
    """One publisher-subscriber connection with its receive thread."""

    def __init__(self, topic, key):
        self.topic = topic
        self.key = key
        self.q = collections.deque()
        self.n = 0
        self.delivered = 0
        self.t = sim().spawn(self.loop, f"conn:{topic.name}:{key}")

    def feed(self, msg):
        """Send one message over this connection (may be lost, doubled...)."""
        self.n += 1
        delays = [0]
        if R.link is not None:
            delays = R.link(self.topic.name, self.key, self.n)
            if delays is None:
                delays = [0]
        for d in delays:
            m = rosmsg.clone(msg)
            sim().after(d, lambda m=m: self.arrive(m))

    def arrive(self, m):
        self.q.append(m)
        sim().wake(self.t)

    def targets(self):
        return list(self.topic.callbacks)

    def loop(self):
        s = sim()
        while True:
            while not self.q:
                s.block(None)
            m = self.q.popleft()
            if R.shutdown:
                continue
            self.delivered += 1
            s.log("deliver", self.topic.name, self.key, self.delivered)
            if R.on_deliver is not None:
                R.on_deliver(self, m)
            for cb, args in self.targets():
                try:
                    if args is None:
                        cb(m)
                    else:
                        cb(m, args)
                except Exception as e:
                    R.cb_errors.append((self.topic.name, e))
                    s.log("callback-error", type(e).__name__, str(e)[:120])
                s.yield_()


class RemoteSub(Conn):
    """A subscriber of another node; gets the latched message on joining."""

    def __init__(self, name, callback):
        self.callback = callback
        topic = R.topic(name)
        n = 0
        while f"remote{n}" in topic.conns:
            n += 1
        key = f"remote{n}"
        super().__init__(topic, key)
        topic.conns[key] = self
        if topic.latch is not None:
            topic.seq += 1
            if _has(topic.latch):
                topic.latch.header.seq = topic.seq
            self.feed(topic.latch)

    def targets(self):
        return [(self.callback, None)]


class Publisher:
    def __init__(
        self, name, data_class, subscriber_listener=None, tcp_nodelay=False,
        latch=False, headers=None, queue_size=None
    ):
        if not name or not isinstance(name, str):
            raise ValueError("topic name must be a non-empty string")
        if data_class is None or not issubclass(data_class, rosmsg.Message):
            raise ValueError("data_class must be a message class")
        self.name = name
        self.resolved_name = name
        self.data_class = data_class
        self.type = data_class._type
        self.latch = latch
        self.queue_size = queue_size
        self.impl = R.topic(name)
        if "local" not in self.impl.pubs:
            self.impl.pubs.append("local")
        self.impl.connect_all()
        if core.SIM is not None:
            sim().yield_()

    def get_num_connections(self):
        return len(self.impl.conns)

    def unregister(self):
        self.impl = None

    def publish(self, *args, **kwds):
        if self.impl is None:
            raise ROSException("publish() to an unregistered() handle")
        if not R.initialized:
            raise ROSException(
                "ROS node has not been initialized yet. Please call init_node() first"
            )
        if len(args) == 1 and not kwds and isinstance(args[0], self.data_class):
            data = args[0]
        elif len(args) == 1 and not kwds and isinstance(args[0], rosmsg.Message):
            raise ROSSerializationException(
                f"expected [{self.data_class._type}] but got [{args[0]._type}]"
            )
        else:
            data = self.data_class(*args, **kwds)
        s = sim()
        s.yield_()
        impl = self.impl
        with impl.lock:
            R.attempts += 1
            impl.n += 1
            f = R.publish_fault(self.name, impl.n) if R.publish_fault else None
            if f is not None and f[0] == "slow":
                s.count("fault.slow-publish")
                s.sleep_ns(f[1])
            if f is not None and f[0] == "fail":
                s.count("fault.publish-error")
                s.log("publish-failed", self.name)
                raise f[1]
            if R.shutdown:
                # publishing to a closed topic during shutdown is ignored
                s.log("publish-ignored", self.name)
                return
            rec = {
                "seq": s.seq + 1,
                "now": s.now,
                "tid": s.cur.tid,
                "topic": self.name,
                "msg": rosmsg.clone(data),
                "pub": self,
            }
            s.log("publish", self.name, _digest(data))
            R.records.append(rec)
            if R.on_publish is not None:
                R.on_publish(rec)
            if self.latch:
                impl.latch = data
            if impl.conns:
                impl.seq += 1
                if _has(data):
                    # rospy stamps the sequence number into the message itself
                    data.header.seq = impl.seq
                buf = io.BytesIO()
                try:
                    data.serialize(buf)
                except rosmsg.SerializationError as e:
                    raise ROSSerializationException(str(e))
                for c in list(impl.conns.values()):
                    c.feed(data)
        s.yield_()


def _digest(m):
    b = io.BytesIO()
    try:
        c = rosmsg.clone(m)
        c.serialize(b)
        import hashlib

        return hashlib.sha1(b.getvalue()).hexdigest()[:10]
    except rosmsg.SerializationError:
        return "unserializable"


class Subscriber:
    def __init__(
        self, name, data_class, callback=None, callback_args=None,
        queue_size=None, buff_size=65536, tcp_nodelay=False
    ):
        if not name or not isinstance(name, str):
            raise ValueError("topic name must be a non-empty string")
        if data_class is None or not issubclass(data_class, rosmsg.Message):
            raise ValueError("data_class must be a message class")
        self.name = name
        self.resolved_name = name
        self.data_class = data_class
        self.callback = callback
        self.callback_args = callback_args
        self.impl = R.topic(name)
        if callback is not None:
            self.impl.callbacks.append((callback, callback_args))
        self.impl.connect_all()
        if R.on_subscribe is not None:
            R.on_subscribe(self)
        if core.SIM is not None:
            sim().yield_()

    def get_num_connections(self):
        return len(self.impl.conns)

    def unregister(self):
        if self.impl is None:
            return
        self.impl.callbacks = [
            c for c in self.impl.callbacks
            if not (c[0] == self.callback and c[1] is self.callback_args)
        ]
        if not self.impl.callbacks:
            self.impl.conns = {k: c for k, c in self.impl.conns.items() if isinstance(c, RemoteSub)}
        self.impl = None


class Peer:
    """Another node publishing on a topic of this node."""

    def __init__(self, key):
        self.key = key

    def advertise(self, topic):
        t = R.topic(topic)
        if self.key not in t.pubs:
            t.pubs.append(self.key)
            t.connect_all()

    def publish(self, topic, msg):
        self.advertise(topic)
        t = R.topic(topic)
        sim().log("peer-publish", self.key, topic, _digest(msg))
        c = t.conns.get(self.key)
        if c is not None:
            c.feed(msg)


# -- node ------------------------------------------------------------------------
def is_shutdown():
    return R.shutdown


def signal_shutdown(reason=""):
    if R.shutdown:
        return
    sim().log("shutdown", str(reason))
    R.shutdown = True
    if R.clock_cond is not None:
        with R.clock_cond:
            R.clock_cond.notify_all()
    for h in list(R.hooks):
        try:
            h()
        except Exception as e:
            R.logs.append(("error", repr(e)))


def on_shutdown(h):
    if not callable(h):
        raise TypeError("shutdown hook must be a function")
    if R.shutdown:
        h()
    else:
        R.hooks.append(h)


def sleep(duration):
    s = sim()
    R.n_sleep += 1
    sec = duration.to_sec() if isinstance(duration, Duration) else duration
    s.log("sleep", round(float(sec), 9))
    f = R.sleep_fault(R.n_sleep, float(sec)) if R.sleep_fault else None
    if f is not None and f[0] == "raise":
        s.count("fault.sleep-error")
        raise f[1]
    if not R.use_sim_time:
        if sec < 0:
            s.yield_()
            return
        ns = max(1000, round(float(sec) * 1e9))
        if f is not None and f[0] == "over":
            s.count("fault.sleep-overrun")
            ns += f[1]
        s.sleep_ns(ns)
        return
    if not isinstance(duration, Duration):
        duration = Duration.from_sec(duration)
    t0 = R.now()
    if t0 == Time(0):
        while R.now() == Time(0) and not R.shutdown:
            with R.clock_cond:
                R.clock_cond.wait(0.3)
        t0 = R.now()
    end = t0 + duration
    s.sleep_ns(1000)
    while R.now() < end and R.now() >= t0 and not R.shutdown:
        with R.clock_cond:
            R.clock_cond.wait(0.5)
    if R.now() < t0:
        s.count("fault.clock-backwards")
        raise ROSTimeMovedBackwardsException(R.now() - t0)
    if R.shutdown:
        raise ROSInterruptException("ROS shutdown request")


def spin():
    if not R.initialized:
        raise ROSInitException("client code must call rospy.init_node() first")
    try:
        while not R.shutdown:
            patch.sim_sleep(0.5)
    except KeyboardInterrupt:
        signal_shutdown("keyboard interrupt")


class Rate:
    def __init__(self, hz, reset=False):
        self.last = R.now()
        self.sleep_dur = Duration.from_sec(1.0 / hz)

    def remaining(self):
        return self.sleep_dur - (R.now() - self.last)

    def sleep(self):
        rem = self.remaining()
        sleep(rem if rem.to_nsec() > 0 else Duration(0))
        self.last = self.last + self.sleep_dur
        if (R.now() - self.last).to_nsec() > 2 * self.sleep_dur.to_nsec():
            self.last = R.now()


class TimerEvent:
    pass


class Timer(patch.Thread):
    def __init__(self, period, callback, oneshot=False, reset=False):
        super().__init__(name="ros-timer", daemon=True)
        self._period = period
        self._callback = callback
        self._oneshot = oneshot
        self._shutdown = False
        self.start()

    def shutdown(self):
        self._shutdown = True

    def run(self):
        while not R.shutdown and not self._shutdown:
            try:
                sleep(self._period)
            except ROSInterruptException:
                break
            if self._shutdown:
                break
            self._callback(TimerEvent())
            if self._oneshot:
                break


def _log(level):
    def f(msg, *args, **kw):
        R.logs.append((level, str(msg) % args if args else str(msg)))

    return f


# -- master / roslaunch -------------------------------------------------------------
class Master:
    """The ROS master as seen by this process; driven by the property."""

    def __init__(self):
        self.running = 0  # masters alive at the well-known address
        self.started = []  # ROSLaunchParent objects that started one
        self.contact_fault = None  # fn() -> exception or None
        self.start_fault = None
        self.register_fault = None
        self.registered = []
        self.events = []

    def ev(self, *what):
        self.events.append(what)
        sim().log("master", *what)


class MasterProxy:
    def __init__(self, uri="http://localhost:11311"):
        self.target = uri

    def getPid(self):
        m = R.master
        s = sim()
        s.sleep_ns(200_000)
        f = m.contact_fault() if m.contact_fault else None
        if f is not None:
            m.ev("contact-error", type(f).__name__)
            raise f
        if not m.running:
            m.ev("contact-refused")
            raise ConnectionRefusedError(111, "Connection refused")
        m.ev("contact-ok")
        return [1, "", 4242]

    def getUri(self):
        self.getPid()
        return [1, "", self.target]

    def getSystemState(self):
        self.getPid()
        return [1, "", [[], [], []]]


def get_master(env=None):
    return MasterProxy()


def is_master_online(master_uri=None):
    try:
        MasterProxy().getPid()
        return True
    except Exception:
        return False


def init_node(name, argv=None, anonymous=False, log_level=None, disable_rostime=False,
              disable_rosout=False, disable_signals=False, xmlrpc_port=0, tcpros_port=0):
    m = R.master
    s = sim()
    if m is None:
        R.initialized = True
        R.node_name = name
        return
    s.sleep_ns(300_000)
    m.ev("register", name)
    if not name:
        raise ValueError("name must not be empty")
    f = m.register_fault() if m.register_fault else None
    if f is not None:
        m.ev("register-error", type(f).__name__)
        raise f
    if not m.running:
        m.ev("register-error", "no-master")
        raise ROSInitException("could not contact master")
    if R.node_name is not None and R.node_name != name:
        raise ROSException("rospy.init_node() has already been called with different arguments")
    R.initialized = True
    R.node_name = name
    m.registered.append(name)


class ROSLaunchParent:
    def __init__(self, run_id, roslaunch_files, is_core=False, port=None, **kw):
        if not isinstance(run_id, str) or isinstance(roslaunch_files, str):
            raise TypeError("run_id must be a string, roslaunch_files a list of file names")
        self.run_id = run_id
        self.is_core = is_core
        self.alive = False
        self.shut = 0
        self.calls = 0
        R.master.ev("parent-created")

    def start(self, auto_terminate=True):
        m = R.master
        sim().sleep_ns(50_000_000)
        f = m.start_fault() if m.start_fault else None
        if f is not None:
            m.ev("start-error", type(f).__name__)
            raise f
        if m.running:
            m.ev("start-error", "already-running")
            raise RuntimeError("roscore cannot run as another roscore/master is already running")
        m.running += 1
        self.alive = True
        m.started.append(self)
        m.ev("master-started")

    def shutdown(self):
        m = R.master
        self.calls += 1
        if self.alive:
            self.alive = False
            m.running -= 1
            m.ev("master-shutdown")


# -- tf ------------------------------------------------------------------------------
class TransformBroadcaster:
    def __init__(self):
        self.pub_tf = Publisher("/tf", TYPES["tf2_msgs/TFMessage"], queue_size=100)

    def sendTransform(self, transform):
        if not isinstance(transform, list):
            if hasattr(transform, "__iter__"):
                transform = list(transform)
            else:
                transform = [transform]
        self.pub_tf.publish(TYPES["tf2_msgs/TFMessage"](transform))


class StaticTransformBroadcaster:
    def __init__(self):
        self.pub_tf = Publisher(
            "/tf_static", TYPES["tf2_msgs/TFMessage"], queue_size=100, latch=True
        )

    def sendTransform(self, transform):
        if not isinstance(transform, list):
            if hasattr(transform, "__iter__"):
                transform = list(transform)
            else:
                transform = [transform]
        self.pub_tf.publish(TYPES["tf2_msgs/TFMessage"](transform))


class TransformListener:
    def __init__(self, buffer, queue_size=None, buff_size=65536, tcp_nodelay=False):
        self.buffer = buffer
        T = TYPES["tf2_msgs/TFMessage"]
        self.tf_sub = Subscriber("/tf", T, self.callback)
        self.tf_static_sub = Subscriber("/tf_static", T, self.static_callback)

    def callback(self, data):
        for t in data.transforms:
            self.buffer.set_transform(t, "default_authority")

    def static_callback(self, data):
        for t in data.transforms:
            self.buffer.set_transform_static(t, "default_authority")


# -- rosbag ---------------------------------------------------------------------------
MAGIC = b"#ROSBAG V2.0\n"


class ROSBagException(Exception):
    pass


class ROSBagFormatException(ROSBagException):
    pass


class ROSBagUnindexedException(ROSBagException):
    pass


TopicTuple = collections.namedtuple("TopicTuple", "msg_type message_count connections frequency")
TypesAndTopicsTuple = collections.namedtuple("TypesAndTopicsTuple", "msg_types topics")
BagMessage = collections.namedtuple("BagMessage", "topic message timestamp")
BAG = {"open": [], "write_fault": None, "n_write": 0, "close_fault": None, "read_fault": None,
       "read_close_fault": None}


class Bag:
    """File-based bag: records, index written on close, read by record time."""

    def __init__(self, f, mode="r", compression="none", chunk_threshold=786432,
                 allow_unindexed=False, options=None, skip_index=False):
        if not f:
            raise ValueError("filename (or stream) is invalid")
        if mode not in ("r", "w", "a"):
            raise ValueError("mode must be 'r', 'w' or 'a'")
        self._mode = mode
        self.filename = str(f)
        self._file = None
        if mode == "r":
            self._file = open(f, "rb")
            try:
                self._load()
            except BaseException:
                self._file.close()
                self._file = None
                raise
            hook = BAG.pop("opened", None)
            if hook is not None:
                hook()
        elif mode == "a" and os.path.exists(f):
            self._file = open(f, "r+b")
            try:
                self._load()
            except BaseException:
                self._file.close()
                self._file = None
                raise
            self._file.seek(0, 2)
        else:
            self._file = open(f, "w+b")
            self._file.write(MAGIC + struct.pack("<Q", 0))
            self._index = []
        BAG["open"].append(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _load(self):
        head = self._file.read(len(MAGIC) + 8)
        if not head:
            raise ROSBagException("empty file")
        if head[: len(MAGIC)] != MAGIC or len(head) < len(MAGIC) + 8:
            raise ROSBagException("This does not appear to be a bag file")
        (pos,) = struct.unpack("<Q", head[len(MAGIC):])
        if pos == 0:
            raise ROSBagUnindexedException()
        self._file.seek(pos)
        try:
            self._index = json.loads(self._file.read())
        except ValueError:
            raise ROSBagFormatException("error reading index")

    def write(self, topic, msg, t=None, raw=False, connection_header=None):
        if not self._file:
            raise ValueError("I/O operation on closed bag")
        if not topic:
            raise ValueError("topic is invalid")
        if not msg:
            raise ValueError("msg is invalid")
        if t is None:
            ns = patch.wall_ns()
            t = Time(ns // 10**9, ns % 10**9)
        if not isinstance(t, Time):
            raise ValueError("t is not rospy.Time or genpy.Time")
        if core.SIM is not None:
            core.SIM.yield_()
        BAG["n_write"] += 1
        f = BAG["write_fault"]
        exc = f(BAG["n_write"]) if f else None
        if exc is not None:
            raise exc
        b = io.BytesIO()
        msg.serialize(b)
        pos = self._file.tell()
        self._file.write(struct.pack("<I", len(b.getvalue())) + b.getvalue())
        self._index.append([topic, msg._type, t.secs, t.nsecs, pos])

    def flush(self):
        if self._file:
            self._file.flush()

    def close(self):
        if not self._file:
            return
        f = self._file
        if self._mode in "wa":
            exc = BAG["close_fault"]() if BAG["close_fault"] else None
            if exc is not None:
                raise exc
            pos = f.tell()
            f.write(json.dumps(self._index).encode())
            f.seek(len(MAGIC))
            f.write(struct.pack("<Q", pos))
        self._file = None
        f.close()
        if self in BAG["open"]:
            BAG["open"].remove(self)
        if self._mode == "r" and BAG["read_close_fault"]:
            raise BAG["read_close_fault"]

    def get_type_and_topic_info(self, topic_filters=None):
        if topic_filters is not None and isinstance(topic_filters, str):
            topic_filters = [topic_filters]
        topics, types_ = {}, {}
        for topic, typ, *_ in self._index:
            if topic_filters is not None and topic not in topic_filters:
                continue
            n = topics[topic].message_count if topic in topics else 0
            topics[topic] = TopicTuple(typ, n + 1, 1, None)
            types_[typ] = "md5"
        return TypesAndTopicsTuple(types_, topics)

    def get_message_count(self, topic_filters=None):
        return sum(t.message_count for t in self.get_type_and_topic_info(topic_filters).topics.values())

    def read_messages(self, topics=None, start_time=None, end_time=None,
                      connection_filter=None, raw=False, return_connection_header=False):
        if isinstance(topics, str):
            topics = [topics]
        ents = [e for e in self._index if not topics or e[0] in topics]
        ents.sort(key=lambda e: (e[2], e[3]))
        for n, (topic, typ, secs, nsecs, pos) in enumerate(ents):
            t = Time(secs, nsecs)
            if start_time is not None and t < start_time:
                continue
            if end_time is not None and t > end_time:
                continue
            if not self._file:
                raise ValueError("I/O operation on closed bag")
            BAG["n_read"] = BAG.get("n_read", 0) + 1
            f = BAG["read_fault"]
            exc = f(n) if f else None
            if exc is not None:
                raise exc
            self._file.seek(pos)
            head = self._file.read(4)
            if len(head) < 4:
                raise ROSBagFormatException("short read")
            (ln,) = struct.unpack("<I", head)
            data = self._file.read(ln)
            if len(data) < ln:
                raise ROSBagFormatException("short read")
            yield BagMessage(topic, TYPES[typ]().deserialize(data), t)

    def get_start_time(self):
        return min(e[2] + e[3] / 1e9 for e in self._index)

    def get_end_time(self):
        return max(e[2] + e[3] / 1e9 for e in self._index)


# -- module objects --------------------------------------------------------------------
def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__simulated__ = True
    sys.modules[name] = m
    if "." in name:
        parent, leaf = name.rsplit(".", 1)
        setattr(sys.modules[parent], leaf, m)
    return m


def install():
    exc = dict(
        ROSException=ROSException,
        ROSSerializationException=ROSSerializationException,
        ROSInitException=ROSInitException,
        ROSInterruptException=ROSInterruptException,
        ROSTimeMovedBackwardsException=ROSTimeMovedBackwardsException,
    )
    rospy = _mod(
        "rospy", Time=Time, Duration=Duration, Publisher=Publisher,
        Subscriber=Subscriber, sleep=sleep, spin=spin, is_shutdown=is_shutdown,
        signal_shutdown=signal_shutdown, on_shutdown=on_shutdown, Rate=Rate,
        Timer=Timer, init_node=init_node, get_master=get_master,
        get_time=lambda: R.now().to_sec(), get_rostime=lambda: R.now(),
        get_name=lambda: R.node_name, Message=rosmsg.Message,
        loginfo=_log("info"), logwarn=_log("warn"), logerr=_log("error"),
        logdebug=_log("debug"), logfatal=_log("fatal"),
        logwarn_once=_log("warn"), loginfo_once=_log("info"),
        MasterProxy=MasterProxy, **exc,
    )
    _mod("rospy.exceptions", **exc)
    _mod("rospy.core", is_shutdown=is_shutdown, signal_shutdown=signal_shutdown,
         is_initialized=lambda: R.initialized)
    _mod("rospy.rostime", get_rostime=lambda: R.now(), is_wallclock=lambda: not R.use_sim_time,
         wallsleep=patch.sim_sleep)
    rospy.is_initialized = None
    del rospy.is_initialized
    _mod("genpy", Time=Time, Duration=Duration, TVal=rosmsg.TVal, Message=rosmsg.Message,
         SerializationError=rosmsg.SerializationError)
    pk = {}
    for full, cls in TYPES.items():
        p, n = full.split("/")
        pk.setdefault(p, {})[n] = cls
    for p, d in pk.items():
        _mod(p)
        _mod(p + ".msg", **d)
    T = TYPES["tf2_msgs/TFMessage"]
    _mod("tf")
    _mod("tf.msg", tfMessage=T)
    tfexc = {n: getattr(tf2, n) for n in (
        "TransformException", "ConnectivityException", "LookupException",
        "ExtrapolationException", "InvalidArgumentException", "TimeoutException")}
    _mod("tf2_ros", Buffer=tf2.Buffer, BufferCore=tf2.BufferCore,
         TransformBroadcaster=TransformBroadcaster,
         StaticTransformBroadcaster=StaticTransformBroadcaster,
         TransformListener=TransformListener, **tfexc)
    _mod("tf2_geometry_msgs", do_transform_point=tf2.do_transform_point,
         do_transform_vector3=tf2.do_transform_vector3,
         do_transform_pose=tf2.do_transform_pose)
    _mod("rosbag", Bag=Bag, ROSBagException=ROSBagException,
         ROSBagFormatException=ROSBagFormatException,
         ROSBagUnindexedException=ROSBagUnindexedException)
    _mod("rosbag.bag", Bag=Bag, ROSBagException=ROSBagException)
    _mod("rosgraph", is_master_online=is_master_online)
    _mod("roslaunch")
    _mod("roslaunch.parent", ROSLaunchParent=ROSLaunchParent)

    class ResourceNotFound(Exception):
        pass

    _mod("rospkg", ResourceNotFound=ResourceNotFound)


def start_run(use_sim_time=False):
    """Reset the node; call inside a run before using it."""
    R.reset()
    R.clock_cond = patch.Condition()
    R.use_sim_time = use_sim_time
