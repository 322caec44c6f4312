"""Planted bugs: what changes, what shows it."""
BUGS = []


def bug(**kw):
    BUGS.append(kw)


TREE = '''
import numpy as np
import rigid_body_motion as rbm
from rigid_body_motion import ReferenceFrame

n = 6
rs = np.random.RandomState(1)
ts = np.arange(n) * 0.5 + 100.0
q = rs.normal(size=(n, 4))
q /= np.linalg.norm(q, axis=1, keepdims=True)
pos = rs.uniform(-3, 3, (n, 3))
'''

# -- P01 ------------------------------------------------------------------------
bug(id="p01-pose-frame", prop="P01", ros=True,
    needs="a broadcaster of a moving frame with pose publishing whose base is not the frame's own parent",
    breaks="the published pose names the frame's parent instead of the base it is expressed in",
    edits=[("ros/transformer.py", '''                    self.rotation[idx],
                    self.base.name,
                    ts,
                )

        with''', '''                    self.rotation[idx],
                    self.frame.parent.name,
                    ts,
                )

        with''')],
    demo=TREE + '''
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

w = ReferenceFrame("world")
a = ReferenceFrame("a", parent=w, translation=(1, 2, 3))
b = ReferenceFrame("b", parent=a, translation=pos, rotation=q, timestamps=ts)
B(b, base=w, publish_pose=True).publish(2)
poses = [m for t, m in fakeros.PUBLISHED if t == "/b/pose"]
assert [m.header.frame_id for m in poses] == ["world"], [m.header.frame_id for m in poses]
''')

bug(id="p01-twist-reference", prop="P01", ros=True,
    needs="a broadcaster with twist publishing whose base moves with respect to the frame's parent",
    breaks="the published velocity is the one with respect to the frame's parent instead of the base",
    edits=[("ros/transformer.py", '''                reference=base,
''', '''                reference=self.frame.parent,
''')],
    demo=TREE + '''
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

w = ReferenceFrame("world")
a = ReferenceFrame("a", parent=w, translation=np.outer(ts, [1.0, 0, 0]), timestamps=ts)
b = ReferenceFrame("b", parent=a, translation=np.outer(ts, [0, 2.0, 0]), timestamps=ts)
B(b, base=w, publish_twist=True).publish(2)
tw = [m.twist.linear for t, m in fakeros.PUBLISHED if t == "/b/twist"]
got = [tw[0].x, tw[0].y, tw[0].z]
assert np.allclose(got, [1, 2, 0], atol=1e-6), got
''')

# -- P02 ------------------------------------------------------------------------
bug(id="p02-second-spin-blocks", prop="P02", ros=True,
    needs="a second non-blocking spin() of a marker publisher while its loop is still running",
    breaks="spin(block=False) blocks its caller instead of returning the thread",
    edits=[("ros/visualization.py", '''        if block:
            self._spin''', '''        if block or (self._thread is not None and self._thread.is_alive()):
            self._spin''')],
    demo=TREE + '''
import threading
from rigid_body_motion.ros.visualization import ReferenceFrameMarkerPublisher as M

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
m = M(b)
m.spin()
out = []
t = threading.Thread(target=lambda: out.append(m.spin()), daemon=True)
t.start()
t.join(5)
stuck = t.is_alive()
m.stop()
t.join(5)
assert not stuck and isinstance(out[0], threading.Thread), (stuck, out)
''')

# -- P03 ------------------------------------------------------------------------
bug(id="p03-batch-collapsed", prop="P03", ros=True,
    needs="one /tf message that holds several transforms of the subscribed frame",
    breaks="only the last of them is answered, the others are ignored",
    edits=[("ros/transformer.py", '''        for transform in msg.transforms:
''', '''        transforms = {t.child_frame_id: t for t in msg.transforms}
        for transform in transforms.values():
''')],
    demo=TREE + '''
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
B(b, subscribe=True)
T = fakeros.TYPES["geometry_msgs/TransformStamped"]
ms = []
for i in (1, 3):
    m = T()
    m.child_frame_id, m.header.stamp = "world", rospy.Time.from_sec(ts[i])
    ms.append(m)
msg = fakeros.TYPES["tf2_msgs/TFMessage"](ms)
for cb in fakeros.SUBSCRIBERS["/tf"]:
    cb(msg)
got = [m.header.stamp.to_sec() for t, m in fakeros.PUBLISHED if t == "/tf"]
assert got == [ts[1], ts[3]], got
''')

bug(id="p03-default-frame", prop="P03", ros=True,
    needs="subscribe=True with a base that is not the frame's own parent",
    breaks="the broadcaster answers transforms of the frame's parent instead of the base",
    edits=[("ros/transformer.py", '''                self.subscribe_to_frame = self.base.name
''', '''                self.subscribe_to_frame = self.frame.parent.name
''')],
    demo=TREE + '''
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

w = ReferenceFrame("world")
a = ReferenceFrame("a", parent=w, translation=(1, 2, 3))
b = ReferenceFrame("b", parent=a, translation=pos, rotation=q, timestamps=ts)
B(b, base=w, subscribe=True)
m = fakeros.TYPES["geometry_msgs/TransformStamped"]()
m.child_frame_id, m.header.stamp = "world", rospy.Time.from_sec(ts[1])
for cb in fakeros.SUBSCRIBERS["/tf"]:
    cb(fakeros.TYPES["tf2_msgs/TFMessage"]([m]))
assert len([1 for t, m in fakeros.PUBLISHED if t == "/tf"]) == 1, fakeros.PUBLISHED
''')

# -- P04 ------------------------------------------------------------------------
WIDGETS = '''
import types

class W:
    def __init__(self, **kw):
        self.__dict__.update(kw)
        made.append(self)

    def on_click(self, f):
        self.click = f


made = []
fakeros.mod("IPython")
fakeros.mod("IPython.core")
fakeros.mod("IPython.core.display", display=lambda *a: None)
names = {k: type(k, (W,), {}) for k in ("IntSlider", "Button", "Layout", "Play")}
names.update(HBox=lambda c: c, jslink=lambda a, b: None, interactive_output=lambda f, d: None)
fakeros.mod("ipywidgets", **names)
fakeros.mod("ipywidgets.widgets", **names)


class Slider(W):
    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        self._v = min(max(int(v), self.min), self.max)


names["IntSlider"] = sys.modules["ipywidgets"].widgets.IntSlider = sys.modules["ipywidgets"].IntSlider = Slider
import numpy as np
from rigid_body_motion.ros.utils import play_publisher
'''
bug(id="p04-no-clamp", prop="P04", ros=True,
    needs="pressing the forward button closer to the end than the skip width",
    breaks="the position stays where it is instead of moving to the last index",
    edits=[("ros/utils.py", '''        s_idx.value += skip or step if s_idx.value < s_idx.max else 0
''', '''        target = s_idx.value + (skip or step)
        s_idx.value = target if target <= s_idx.max else s_idx.value
''')],
    demo=WIDGETS + '''
class Slider2(Slider):
    def __init__(self, min, max, value, description):
        self.min, self.max = min, max
        self.value = value
        made.append(self)

sys.modules["ipywidgets"].widgets.IntSlider = Slider2
play_publisher(types.SimpleNamespace(publish=lambda idx: None), skip=4, timestamps=np.arange(11) * 0.1)
s = [m for m in made if isinstance(m, Slider2)][0]
fwd = [m for m in made if type(m).__name__ == "Button"][0]
got = []
for _ in range(4):
    fwd.click(fwd)
    got.append(s.value)
assert got == [4, 8, 10, 10], got
''')

bug(id="p04-interval-truncated", prop="P04", ros=True,
    needs="a playback step greater than one and a sample spacing that is no whole number of milliseconds",
    breaks="the tick interval is truncated before it is multiplied by the step, playback runs too fast",
    edits=[("ros/utils.py", '''        interval=int(interval * step),
''', '''        interval=int(interval) * step,
''')],
    demo=WIDGETS + '''
class Slider2(Slider):
    def __init__(self, min, max, value, description):
        self.min, self.max = min, max
        self.value = value
        made.append(self)

sys.modules["ipywidgets"].widgets.IntSlider = Slider2
play_publisher(types.SimpleNamespace(publish=lambda idx: None), step=10, timestamps=np.arange(101) / 240)
play = [m for m in made if type(m).__name__ == "Play"][0]
assert play.interval == 41, play.interval
''')

# -- P05 ------------------------------------------------------------------------
bug(id="p05-first-dropped", prop="P05", ros=True,
    needs="a path with more positions than max_points",
    breaks="the sub-sampled path starts in the middle of the first stride instead of at the first position",
    edits=[("ros/visualization.py", '''        marker.points = [Point(*row) for row in self.translation[::show_every]]
''', '''        shown = self.translation[show_every - 1 :: show_every]
        marker.points = [Point(*row) for row in shown]
''')],
    demo=TREE + '''
from rigid_body_motion.ros.visualization import ReferenceFrameMarkerPublisher as M

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
m = M(b, max_points=3)
got = [[p.x, p.y, p.z] for p in m.marker.points]
assert np.allclose(got, pos[::2]), got
''')

bug(id="p05-not-latched", prop="P05", ros=True,
    needs="a subscriber that joins after the marker has been published",
    breaks="late subscribers never get the marker as it does not change any more",
    edits=[("ros/visualization.py", '''            self.topic, Marker, queue_size=1, latch=True
''', '''            self.topic, Marker, queue_size=1
''')],
    demo=TREE + '''
from rigid_body_motion.ros.visualization import ReferenceFrameMarkerPublisher as M

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
m = M(b, topic="/m")
m.publish()
got = []
rospy.Subscriber("/m", None, got.append)
m.publish()
assert len(got) == 1, got
''')

# -- P06 ------------------------------------------------------------------------
BUFFER = '''
class Buffer:
    def __init__(self, cache_time=None, debug=False):
        self.set, self.asked = [], []

    def set_transform(self, t, authority):
        self.set.append(t)

    set_transform_static = set_transform

    def lookup_transform(self, target, source, time):
        self.asked.append(time.to_sec())
        return fakeros.TYPES["geometry_msgs/TransformStamped"]()


sys.modules["tf2_ros"].Buffer = Buffer
sys.modules["tf2_geometry_msgs"].do_transform_point = lambda p, t: p
'''
bug(id="p06-subtree", prop="P06", ros=True,
    needs="constructing a transformer from a frame that is not the root of its tree",
    breaks="transforms outside of the subtree below that frame are missing from the buffer",
    edits=[("ros/transformer.py", '''        root = reference_frame.root
''', '''        root = reference_frame.parent or reference_frame
''')],
    demo=TREE + BUFFER + '''
from rigid_body_motion.ros.transformer import Transformer

w = ReferenceFrame("world")
a = ReferenceFrame("a", parent=w, translation=(1, 2, 3))
b = ReferenceFrame("b", parent=a, translation=(1, 0, 0))
c = ReferenceFrame("c", parent=w, translation=(1, 0, 0))
t = Transformer.from_reference_frame(b)
got = sorted(x.child_frame_id for x in t._buffer.set)
assert got == ["a", "b", "c"], got
''')

bug(id="p06-latest-point", prop="P06", ros=True,
    needs="transforming a point at an instant other than the latest one through a moving frame",
    breaks="transform_point uses the latest transform instead of the one at the given time",
    edits=[("ros/transformer.py", '''            target_frame, source_frame, rospy.Time.from_sec(time)
        )
        p_msg = make_point_msg(''', '''            target_frame, source_frame, rospy.Time(0)
        )
        p_msg = make_point_msg(''')],
    demo=TREE + BUFFER + '''
from rigid_body_motion.ros.transformer import Transformer

t = Transformer(cache_time=1e3)
t.transform_point((1.0, 2.0, 3.0), "world", "b", 101.5)
assert t._buffer.asked == [101.5], t._buffer.asked
''')

bug(id="p06-can-latest", prop="P06", ros=True,
    needs="asking whether a transform is available at an instant outside of the recorded samples",
    breaks="can_transform answers for the latest transform instead of the given time",
    edits=[("ros/transformer.py", '''        return self._buffer.can_transform(
            target_frame, source_frame, rospy.Time.from_sec(time)
        )
''', '''        return self._buffer.can_transform(
            target_frame, source_frame, rospy.Time()
        )
''')],
    demo=TREE + BUFFER + '''
from rigid_body_motion.ros.transformer import Transformer

Buffer.can_transform = lambda self, target, source, time: time.to_sec() <= 102.5
w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
t = Transformer.from_reference_frame(w)
assert t.can_transform("world", "b", 101.5)
assert not t.can_transform("world", "b", 200.0)
''')

# -- P07 ------------------------------------------------------------------------
MASTER = '''
import atexit

events = []
hooks = []
atexit.register = lambda f, *a, **k: (hooks.append(f), f)[1]


class Launch:
    def __init__(self, *a, **k):
        pass

    def start(self):
        events.append("start")

    def shutdown(self):
        events.append("shutdown")


sys.modules["roslaunch.parent"].ROSLaunchParent = Launch
from rigid_body_motion.ros.utils import init_node
'''
bug(id="p07-any-error-starts", prop="P07", ros=True,
    needs="an error other than a refused connection, e.g. a timeout, while contacting a master that is running",
    breaks="a further master is started instead of raising the error",
    edits=[("ros/utils.py", '''    except ConnectionRefusedError:
''', '''    except OSError:
''')],
    demo=MASTER + '''
import socket


class M:
    def getPid(self):
        raise socket.timeout("timed out")


rospy.get_master = M
try:
    init_node("n", start_master=True)
except OSError:
    pass
assert events == [], events
''')

bug(id="p07-hook-too-late", prop="P07", ros=True,
    needs="an error while registering the node after the master has been started",
    breaks="the started master is not shut down at interpreter exit",
    edits=[("ros/utils.py", '''            master.start()
            # make sure master is shut down on exit
            atexit.register(master.shutdown)
''', '''            master.start()
'''), ("ros/utils.py", '''    rospy.init_node(name)

    return master
''', '''    rospy.init_node(name)

    # make sure master is shut down on exit
    if not isinstance(master, ROSMasterStub):
        atexit.register(master.shutdown)

    return master
''')],
    demo=MASTER + '''
class M:
    def getPid(self):
        raise ConnectionRefusedError(111, "refused")


def fail(name):
    raise rospy.ROSException("cannot register")


rospy.get_master = M
rospy.init_node = fail
try:
    init_node("n", start_master=True)
except rospy.ROSException:
    pass
for h in hooks:
    h()
assert events == ["start", "shutdown"], events
''')

# -- P08 ------------------------------------------------------------------------
SCRATCH = '''
import shutil
import tempfile

tmp = tempfile.mkdtemp()
'''
bug(id="p08-ragged-rotation", prop="P08", ros=True,
    needs="a rotation array that is longer or shorter than the timestamps",
    breaks="the input is accepted and only the common part of it is written",
    edits=[("ros/io.py", '''        if rotation.shape != (len(timestamps), 4):
''', '''        if rotation.ndim != 2 or rotation.shape[-1] != 4:
''')],
    demo=TREE + SCRATCH + '''
from rigid_body_motion.ros.io import RosbagWriter

try:
    with RosbagWriter(os.path.join(tmp, "a.bag")) as w:
        try:
            w.write_transform_stamped(ts, pos, q[:-1], "/t", "world", "b")
            ok = False
        except ValueError:
            ok = True
finally:
    shutil.rmtree(tmp)
assert ok
''')

bug(id="p08-record-time", prop="P08", ros=True,
    needs="samples whose timestamps are not in ascending order",
    breaks="the time at which a message was recorded is returned instead of its stamp",
    edits=[("ros/io.py", '''                        (msg.header.stamp if msg._has_header else ts).to_sec(),
                        *unpack_point_msg(msg.transform.translation),
''', '''                        ts.to_sec(),
                        *unpack_point_msg(msg.transform.translation),
''')],
    demo=TREE + SCRATCH + '''
from rigid_body_motion.ros.io import RosbagReader, RosbagWriter

t = ts[[0, 1, 3, 2, 4, 5]]
try:
    with RosbagWriter(os.path.join(tmp, "a.bag")) as w:
        w.write_transform_stamped(t, pos, q, "/t", "world", "b")
    with RosbagReader(os.path.join(tmp, "a.bag")) as r:
        got = r.load_messages("/t")["timestamps"]
finally:
    shutil.rmtree(tmp)
assert np.allclose(got, t), got
''')

# -- P09 ------------------------------------------------------------------------
WRITE = TREE + SCRATCH + '''
from rigid_body_motion.ros.io import RosbagReader, RosbagWriter
import xarray as xr

bag = os.path.join(tmp, "a.bag")
out = os.path.join(tmp, "a.nc")
with RosbagWriter(bag) as w:
    w.write_transform_stamped(ts, pos, q, "/t", "world", "b")
'''
bug(id="p09-unlink-first", prop="P09", ros=True,
    needs="a crash or an error after an export has started to replace an existing file",
    breaks="the previous export is gone although the new one has not been written",
    edits=[("ros/io.py", '''        folder.mkdir(parents=True, exist_ok=True)
''', '''        folder.mkdir(parents=True, exist_ok=True)
        filename.unlink(missing_ok=True)
'''), ("ros/io.py", '''        """Get export filename and create folder."""
''', '''        """Get export filename, create folder and remove an earlier file."""
''')],
    demo=WRITE + '''
def fail(*a, **k):
    raise OSError(28, "No space left on device")

try:
    with RosbagReader(bag) as r:
        r.export("/t", out)
        old = open(out, "rb").read()
        real, xr.Dataset.to_netcdf = xr.Dataset.to_netcdf, fail
        try:
            r.export("/t", out)
        except OSError:
            pass
    ok = os.path.exists(out) and open(out, "rb").read() == old
finally:
    shutil.rmtree(tmp)
assert ok
''')

bug(id="p09-error-swallowed", prop="P09", ros=True,
    needs="the disk failing or filling up while a file is exported",
    breaks="the export seems to have succeeded although nothing was written",
    edits=[("ros/io.py", '''        ds = self.load_dataset(topic, cache=False)
        self._write_netcdf(ds, self._get_filename(output_file, "nc"))
''', '''        ds = self.load_dataset(topic, cache=False)
        filename = self._get_filename(output_file, "nc")
        try:
            self._write_netcdf(ds, filename)
        except PermissionError:
            raise
        except OSError as err:
            print(f"Could not export to {filename}: {err}")
''')],
    demo=WRITE + '''
def fail(*a, **k):
    raise OSError(28, "No space left on device")

ok = False
try:
    xr.Dataset.to_netcdf = fail
    with RosbagReader(bag) as r:
        try:
            r.export("/t", out)
        except OSError:
            ok = True
finally:
    shutil.rmtree(tmp)
assert ok
''')

# -- P10 ------------------------------------------------------------------------
bug(id="p10-zero-is-missing", prop="P10", ros=True,
    needs="a topic with a value that is exactly zero, loaded with caching",
    breaks="zeros come back as missing values from the cache",
    edits=[("ros/io.py", '''            "_FillValue": np.iinfo(dtype).min,
''', '''            "_FillValue": 0,
''')],
    demo=WRITE.replace("pos, q, ", "pos * (np.arange(3) > 0), q, ") + '''
try:
    with RosbagReader(bag) as r:
        r.load_dataset("/t", cache=True)
        got = r.load_dataset("/t", cache=True).position.values
finally:
    shutil.rmtree(tmp)
assert np.allclose(got, pos * (np.arange(3) > 0), atol=1e-4), got
''')

bug(id="p10-cache-in-cwd", prop="P10", ros=True,
    needs="loading with caching from a working directory that is not the bag's folder",
    breaks="the cache is created in the working directory instead of beside the bag",
    edits=[("ros/io.py", '''                self.bag_file.parent
                / "cache"
''', '''                Path("cache")
''')],
    demo=WRITE + '''
os.mkdir(os.path.join(tmp, "elsewhere"))
os.chdir(os.path.join(tmp, "elsewhere"))
try:
    with RosbagReader(bag) as r:
        r.load_dataset("/t", cache=True)
    ok = os.listdir(".") == [] and len(os.listdir(os.path.join(tmp, "cache"))) == 1
finally:
    os.chdir("/")
    shutil.rmtree(tmp)
assert ok
''')

bug(id="p10-reader-memo", prop="P10", ros=True,
    needs="entering a reader again after its bag has been replaced by another recording",
    breaks="the messages of the earlier content are returned",
    edits=[("ros/io.py", '''        motion = self.load_messages(topic)
''', '''        motion = self._loaded.get(topic)
        if motion is None:
            motion = self._loaded[topic] = self.load_messages(topic)
'''), ("ros/io.py", '''class RosbagReader:
    """Reader for motion topics from rosbag files."""

    def __init__(self, bag_file):
        """Constructor.

        Parameters
        ----------
        bag_file: str
            Path to rosbag file.
        """
        self.bag_file = Path(bag_file)
''', '''class RosbagReader:
    """Reader for motion topics from rosbag files."""

    def __init__(self, bag_file):
        """Constructor.

        Parameters
        ----------
        bag_file: str
            Path to rosbag file.
        """
        self.bag_file = Path(bag_file)
        self._loaded = {}
''')],
    demo=WRITE + '''
try:
    r = RosbagReader(bag)
    with r:
        a = r.load_dataset("/t").position.values
    with RosbagWriter(bag) as w:
        w.write_transform_stamped(ts, pos + 1, q, "/t", "world", "b")
    with r:
        b = r.load_dataset("/t").position.values
finally:
    shutil.rmtree(tmp)
assert np.allclose(b, a + 1), (a, b)
''')

# -- P11 ------------------------------------------------------------------------
POOCH = '''
import shutil
import tempfile

tmp = tempfile.mkdtemp()
os.environ["XDG_CACHE_HOME"] = os.environ["HOME"] = tmp
import pooch
import rigid_body_motion as rbm

asked = []


class Download:
    def __init__(self, *a, **k):
        pass

    def __call__(self, url, output_file, pooch, **kw):
        asked.append(url)
        with open(output_file, "wb") as f:
            f.write(b"<html>error</html>")


pooch.core.choose_downloader = lambda *a, **k: Download()
'''
bug(id="p11-trusts-existing", prop="P11",
    needs="a download folder that holds a truncated or corrupted file from an earlier attempt",
    breaks="the damaged file is returned without comparing its checksum",
    edits=[("utils.py", '''        return Path(
            pooch.retrieve(url=self.base_url + dataset, known_hash=known_hash)
        )
''', '''        path = Path(pooch.os_cache("pooch")) / dataset
        if not path.exists():
            # don't hash the whole file on every access
            pooch.retrieve(
                url=self.base_url + dataset,
                known_hash=known_hash,
                fname=dataset,
                path=path.parent,
            )

        return path
''')],
    demo=POOCH + '''
import hashlib

try:
    # whatever name the file gets: let a download "succeed", then damage it
    good = b"published content"
    sha = hashlib.sha256(good).hexdigest()
    rbm.example_data.registry["head"] = ("head.nc", sha)
    Download.__call__ = lambda self, url, output_file, pooch, **kw: (asked.append(url), open(output_file, "wb").write(good))[0]
    p = rbm.example_data["head"]
    assert open(p, "rb").read() == good
    open(p, "wb").write(good[:5])
    p = rbm.example_data["head"]
    ok = open(p, "rb").read() == good
finally:
    shutil.rmtree(tmp)
assert ok
''')

bug(id="p11-unknown-requested", prop="P11",
    needs="asking for a name that is not a registered dataset",
    breaks="an arbitrary file is downloaded without a checksum instead of raising KeyError",
    edits=[("utils.py", '''        try:
            dataset, known_hash = self.registry[item]
        except KeyError:
            raise KeyError(f"'{item}' is not a valid example dataset")
''', '''        dataset, known_hash = self.registry.get(item, (f"{item}.nc", None))
''')],
    demo=POOCH + '''
try:
    try:
        rbm.example_data["right_ear"]
        ok = False
    except KeyError:
        ok = not asked
finally:
    shutil.rmtree(tmp)
assert ok, asked
''')

# -- P12 ------------------------------------------------------------------------
CSV = '''
import shutil
import tempfile

import numpy as np
import rigid_body_motion as rbm

tmp = tempfile.mkdtemp()


def load(rows, order="XYZ", bodies=("a", "b"), **kw):
    n = len(bodies)
    lines = [f"Format Version,1.22,Capture Start Time,2020-06-16 07.51.41.245 PM,Rotation Type,{order},Length Units,Meters", ""]
    lines.append(",," + ",".join(["Rigid Body"] * 6 * n))
    lines.append(",," + ",".join(b for b in bodies for _ in range(6)))
    lines.append(",," + ",".join("id" for b in bodies for _ in range(6)))
    lines.append(",," + ",".join((["Rotation"] * 3 + ["Position"] * 3) * n))
    lines.append("Frame,Time (Seconds)," + ",".join(["X", "Y", "Z"] * 2 * n))
    for i, r in enumerate(rows):
        lines.append(f"{i},{i / 60}," + ",".join("" if x is None else str(x) for x in r))
    p = os.path.join(tmp, "t.csv")
    with open(p, "w") as f:
        f.write("\\n".join(lines) + "\\n")
    return rbm.io.load_optitrack(p, **kw)
'''
bug(id="p12-surplus-skipped", prop="P12",
    needs="a row with more values than there are columns",
    breaks="the row is left out instead of failing the import",
    edits=[("io.py", '''        filepath, header=[2, 3, 5, 6], index_col=0, skip_blank_lines=False
    )
''', '''        filepath,
        header=[2, 3, 5, 6],
        index_col=0,
        skip_blank_lines=False,
        on_bad_lines="skip",
    )
''')],
    demo=CSV + '''
try:
    row = [10, 20, 30, 1, 2, 3, 40, 50, 60, 4, 5, 6]
    assert len(load([row, row])["a"][0]) == 2
    try:
        load([row, row, row + [7, 8], row])
    except Exception:
        ok = True
    else:
        ok = False
finally:
    shutil.rmtree(tmp)
assert ok
''')

bug(id="p12-rotation-key", prop="P12",
    needs="an export with a rotation order other than XYZ",
    breaks="the rotation order of the file is ignored",
    edits=[("io.py", '''            meta.get("Rotation Type", "XYZ")
''', '''            meta.get("Rotation type", "XYZ")
''')],
    demo=CSV + '''
try:
    rows = [[10, 20, 30, 1, 2, 3, 40, 50, 60, 4, 5, 6]]
    a = load(rows, "XYZ")["a"][1]
    b = load(rows, "ZYX")["a"][1]
finally:
    shutil.rmtree(tmp)
assert not np.allclose(a, b), (a, b)
''')

bug(id="p12-lost-dropped", prop="P12",
    needs="an export in which one of several bodies was lost in some frames",
    breaks="these frames are dropped for all bodies",
    edits=[("io.py", '''    df = df["Rigid Body"]

    # set index to timestamps and multi-index levels
    df = df.set_index(timestamps).rename_axis("time")
''', '''    df = df["Rigid Body"]

    # set index to timestamps and multi-index levels
    df = df.set_index(timestamps).rename_axis("time").dropna()
''')],
    demo=CSV + '''
try:
    rows = [[10, 20, 30, 1, 2, 3, 40, 50, 60, 4, 5, 6] for _ in range(4)]
    rows[2][:6] = [None] * 6
    d = load(rows)
finally:
    shutil.rmtree(tmp)
assert len(d["b"][0]) == 4 and np.isnan(d["a"][0][2]).all(), {k: v[0].shape for k, v in d.items()}
''')

# -- P13 ------------------------------------------------------------------------
bug(id="p13-attached-invalid", prop="P13",
    needs="constructing a discrete frame without timestamps below an existing frame",
    breaks="the frame that could not be constructed remains a child of its parent",
    edits=[("reference_frames.py", '''        if discrete and self.timestamps is None:
            raise ValueError("timestamps must be provided when discrete=True")
        else:
            self.discrete = discrete
''', '''        self.discrete = discrete
        self.parent = parent
        if self.discrete and self.timestamps is None:
            raise ValueError("timestamps must be provided when discrete=True")
''')],
    demo=TREE + '''
w = ReferenceFrame("world")
try:
    ReferenceFrame("b", parent=w, translation=(1, 2, 3), discrete=True)
except ValueError:
    pass
assert w.children == (), w.children
''')

bug(id="p13-update-drops", prop="P13",
    needs="updating a registered frame with invalid arguments",
    breaks="the registered frame is gone although the update failed",
    edits=[("reference_frames.py", '''    # TODO make this a class with __call__, from_dataset etc. methods?
''', '''    # the new frame replaces any frame of the same name
    if update and not isinstance(parent, str) and name in _registry:
        _registry.pop(name)
''')],
    demo=TREE + '''
rbm.register_frame("world")
rbm.register_frame("b", parent="world", translation=(1, 2, 3))
w = rbm.registry["world"]
try:
    rbm.register_frame("b", parent=w, translation=(1, 2), update=True)
except ValueError:
    pass
assert "b" in rbm.registry, rbm.registry
''')

# -- P14 ------------------------------------------------------------------------
bug(id="p14-check-then-register", prop="P14",
    needs="two threads registering frames of the same name at the same time",
    breaks="both registrations succeed, one frame silently replaces the other",
    edits=[("reference_frames.py", '''        _register(self, update=update)
''', '''        if not update and self.name in _registry:
            raise ValueError(
                f"Reference frame with name {self.name} is already registered."
                f" Specify update=True to overwrite."
            )

        _register(self, update=True)
''')],
    demo=TREE + '''
import threading
import rigid_body_motion.reference_frames as rf

barrier = threading.Barrier(2)
real = rf._register


def reg(*a, **k):
    try:
        barrier.wait(2)
    except threading.BrokenBarrierError:
        pass
    return real(*a, **k)


rf._register = reg
done = []


def go(f):
    try:
        f.register()
        done.append(f)
    except ValueError:
        pass


fs = [ReferenceFrame("b"), ReferenceFrame("b")]
th = [threading.Thread(target=go, args=(f,)) for f in fs]
[t.start() for t in th]
[t.join() for t in th]
assert len(done) == 1, done
''')

bug(id="p14-twist-mixture", prop="P14",
    needs="a twist lookup represented in a frame given by name that is replaced while the lookup runs",
    breaks="the linear velocity is represented in the old frame, the angular velocity in the new one",
    edits=[("reference_frames.py", '''            represent_in = _resolve_rf(represent_in or self.parent)
        except TypeError:
            raise ValueError(f"Frame {self.name} has no parent frame")

        translation, rotation, timestamps = self.lookup_transform(reference)

        if timestamps is None:
            if allow_static:
                return np.zeros(3), np.zeros(3), None
''', '''            represent_in = represent_in or _resolve_rf(self.parent)
        except TypeError:
            raise ValueError(f"Frame {self.name} has no parent frame")

        translation, rotation, timestamps = self.lookup_transform(reference)

        if timestamps is None:
            if allow_static:
                return np.zeros(3), np.zeros(3), None
''')],
    demo=TREE + '''
def tree(update=False):
    rbm.register_frame("r", parent=w, rotation=(1, 0, 0, 0) if not update else (0, 1, 0, 0), update=update)


w = ReferenceFrame("world")
s = np.sqrt(0.5)
rot = np.stack([np.cos(ts), 0 * ts, 0 * ts, np.sin(ts)], -1)
b = ReferenceFrame("b", parent=w, translation=np.outer(ts, [0, 1.0, 1.0]), rotation=rot, timestamps=ts)
tree()
old = b.lookup_twist(w, "r")
tree(True)
new = b.lookup_twist(w, "r")
tree2 = tree
rbm.deregister_frame("r")
tree()
real = ReferenceFrame.transform_vectors
calls = []


def tv(self, *a, **k):
    calls.append(1)
    out = real(self, *a, **k)
    if len(calls) == 1:
        tree(True)  # what another thread does meanwhile
    return out


ReferenceFrame.transform_vectors = tv
try:
    got = b.lookup_twist(w, "r")
except Exception:
    sys.exit(0)  # an error is allowed, a mixture is not
same = lambda x, y: all(np.allclose(i, j) for i, j in zip(x, y))
assert same(got, old) or same(got, new), (got, old, new)
''')

# -- P15 ------------------------------------------------------------------------
bug(id="p15-moved-not-detached", prop="P15",
    needs="replacing a registered frame by one of the same name under another parent",
    breaks="the replaced frame stays in the tree, with its children",
    edits=[("reference_frames.py", '''            # TODO keep children?
            _registry[rf.name].parent = None
''', '''            # TODO keep children?
            old = _registry[rf.name]
            if old.parent is rf.parent:
                old.parent = None
''')],
    demo=TREE + '''
rbm.register_frame("world")
rbm.register_frame("p", parent="world", translation=(1, 0, 0))
rbm.register_frame("a", parent="world", translation=(1, 0, 0))
old = rbm.registry["a"]
rbm.register_frame("a", parent="p", update=True)
assert old.parent is None, old.parent
names = [f.name for f in rbm.registry["world"].descendants]
assert sorted(names) == ["a", "p"], names
''')

bug(id="p15-frame-attribute", prop="P15",
    needs="transforming the reference frame of points in a DataArray that also names the frame of its coordinates",
    breaks="the result still names the old frame as the one its coordinates are in",
    edits=[("core.py", '''        attrs[what] = into.name
        attrs["representation_frame"] = into.name
''', '''        attrs[what] = into.name
        attrs.setdefault("representation_frame", into.name)
''')],
    demo=TREE + '''
import xarray as xr

w = ReferenceFrame("world")
s = ReferenceFrame("s", parent=w, translation=(1, 2, 3), rotation=(0, 1, 0, 0))
w.register()
s.register()
attrs = {"reference_frame": "s", "representation_frame": "s"}
da = xr.DataArray(pos, {"time": ts}, ("time", "axis"), attrs=attrs)
out = rbm.transform_points(da, into="world", dim="axis", timestamps="time")
assert out.attrs["reference_frame"] == "world", out.attrs
assert out.attrs["representation_frame"] == "world", out.attrs
''')

bug(id="p15-cached-path", prop="P15",
    needs="replacing a frame on the path between two lookups of the same pair",
    breaks="the second lookup still goes through the replaced frame's transform",
    edits=[("reference_frames.py", '''        up, down = self._walk(to_frame)

        matcher''', '''        # walking the tree is slow, remember the path
        to_frame = _resolve_rf(to_frame)
        paths = self.__dict__.setdefault("_paths", {})
        key = (to_frame.name, self.parent, self.root)
        if key not in paths:
            paths[key] = self._walk(to_frame)
        up, down = paths[key]

        matcher''')],
    demo=TREE + '''
rbm.register_frame("world")
rbm.register_frame("a", parent="world", translation=(1, 0, 0))
b = ReferenceFrame("b", parent="world")
assert np.allclose(b.lookup_transform("a")[0], [-1, 0, 0])
rbm.register_frame("a", parent="world", translation=(5, 0, 0), update=True)
got = b.lookup_transform("a")[0]
assert np.allclose(got, [-5, 0, 0]), got
''')

# -- P16 ------------------------------------------------------------------------
bug(id="p16-shared-matcher", prop="P16",
    needs="two threads looking up transforms of the same frame at the same time",
    breaks="the frames of both lookups are mixed up in one result",
    edits=[("reference_frames.py", '''        up, down = self._walk(to_frame)

        matcher = TransformMatcher()
        for rf in up:
''', '''        up, down = self._walk(to_frame)

        # re-use the matcher of this frame
        matcher = self.__dict__.setdefault("_matcher", TransformMatcher())
        matcher.__init__()
        for rf in up:
''')],
    demo=TREE + '''
import threading
from rigid_body_motion.core import TransformMatcher

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=(1, 2, 3))
barrier = threading.Barrier(2)
real = TransformMatcher.add_reference_frame


def add(self, *a, **k):
    try:
        barrier.wait(2)
    except threading.BrokenBarrierError:
        pass
    real(self, *a, **k)


TransformMatcher.add_reference_frame = add
got = []
th = [threading.Thread(target=lambda: got.append(b.lookup_transform(w)[0])) for _ in range(2)]
[t.start() for t in th]
[t.join() for t in th]
assert len(got) == 2 and all(np.allclose(g, (1, 2, 3)) for g in got), got
''')

bug(id="p16-aliased-result", prop="P16",
    needs="a caller that overwrites the result of a lookup to the parent frame",
    breaks="the frame's own arrays are overwritten as well, later lookups are wrong",
    edits=[("reference_frames.py", '''        matcher = self._get_matcher(to_frame)

        return matcher.get_transformation()

    def transform_vectors''', '''        if _resolve_rf(to_frame) is self.parent:
            # nothing to compose
            return self.translation, self.rotation, self.timestamps

        matcher = self._get_matcher(to_frame)

        return matcher.get_transformation()

    def transform_vectors''')],
    demo=TREE + '''
w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
t = b.lookup_transform(w)[0]
t -= t[0]
again = b.lookup_transform(w)[0]
assert np.allclose(again[0], np.random.RandomState(1) and pos[0]) and not np.allclose(again[0], 0), again
''')

# -- P17 ------------------------------------------------------------------------
IMPORTS = '''
import importlib.abc
import importlib.machinery

BAD = {}


class L(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise ImportError(f"{module.__name__}: cannot open shared object file")


class F:
    def find_spec(self, name, path=None, target=None):
        if name in BAD:
            return importlib.machinery.ModuleSpec(name, L())


sys.meta_path.insert(0, F())
'''
bug(id="p17-broken-matplotlib", prop="P17",
    needs="a matplotlib that is installed but fails to load one of its libraries",
    breaks="the whole package cannot be imported",
    edits=[("plot.py", '''except ImportError:
    reference_frame''', '''except ModuleNotFoundError:
    reference_frame''')],
    demo=IMPORTS + '''
BAD["matplotlib"] = 1
import rigid_body_motion as rbm

try:
    rbm.plot.points(None)
    ok = False
except ImportError:
    ok = True
assert ok
''')

bug(id="p17-kdl-order", prop="P17",
    needs="an environment with both PyKDL and matplotlib",
    breaks="matplotlib is imported before PyKDL, after which PyKDL cannot be loaded any more",
    edits=[("__init__.py", '''# ROS module has to be imported first because of PyKDL
from . import ros  # noqa
from . import io, plot  # noqa
''', '''from . import io, plot  # noqa
from . import ros  # noqa
''')],
    demo='''
import importlib.abc
import importlib.machinery

order = []


class F:
    def find_spec(self, name, path=None, target=None):
        if name in ("PyKDL", "matplotlib"):
            order.append(name)


sys.meta_path.insert(0, F())
import rigid_body_motion  # noqa

assert order.index("PyKDL") < order.index("matplotlib"), order
''')

bug(id="p17-pooch-once", prop="P17",
    needs="pooch being installed after the package has been imported",
    breaks="example data stays unavailable in this process",
    edits=[("utils.py", '''        try:
            import pooch
        except ImportError:
            raise ModuleNotFoundError(
                "pooch must be installed to load example data"
            )
''', '''        if pooch is None:
            raise ModuleNotFoundError(
                "pooch must be installed to load example data"
            )
'''), ("utils.py", '''from rigid_body_motion.core import _resolve_axis
''', '''from rigid_body_motion.core import _resolve_axis

try:
    import pooch
except ImportError:
    pooch = None
''')],
    demo=IMPORTS + '''
BAD["pooch"] = 1
import rigid_body_motion as rbm

BAD.clear()
try:
    rbm.example_data["nothing"]
    ok = False
except KeyError:
    ok = True
assert ok
''')

# -- second batch ---------------------------------------------------------------
bug(id="p01-twist-not-latched", prop="P01", ros=True,
    needs="a subscriber of the twist topic that appears after the last sample was published",
    breaks="it never gets the velocity although it gets the pose of the same sample",
    edits=[("ros/transformer.py", '''                f"/{self.frame.name}/twist",
                TwistStamped,
                queue_size=1,
                latch=True,
''', '''                f"/{self.frame.name}/twist",
                TwistStamped,
                queue_size=1,
''')],
    demo=TREE + '''
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
B(b, publish_pose=True, publish_twist=True).publish(2)
got = {}
for kind in ("pose", "twist"):
    rospy.Subscriber(f"/b/{kind}", None, lambda m, k=kind: got.setdefault(k, m))
assert set(got) == {"pose", "twist"}, set(got)
''')

bug(id="p02-respin-orphaned", prop="P02", ros=True,
    needs="a second non-blocking spin() of a marker publisher while its loop is still running",
    breaks="the second call makes the running loop end without starting its own, publishing stops for good",
    edits=[("ros/visualization.py", '''        else:
            thread = Thread(target=self._spin_blocking, args=(loop,))
            self._thread = thread
            thread.start()
            return thread
''', '''        elif self._thread is None or not self._thread.is_alive():
            thread = Thread(target=self._spin_blocking, args=(loop,))
            self._thread = thread
            thread.start()

        return self._thread
''')],
    demo=TREE + '''
import threading
from rigid_body_motion.ros.visualization import ReferenceFrameMarkerPublisher as M

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
m = M(b)
m.spin()
m.spin()
import time
time.sleep(0.5)
alive = [t for t in threading.enumerate() if t is not threading.main_thread() and t.is_alive()]
m.stop()
assert len(alive) == 1, alive
''')

bug(id="p03-suffix-match", prop="P03", ros=True,
    needs="a message for a frame whose name ends with the name of the subscribed frame",
    breaks="transforms of other frames are answered too",
    edits=[("ros/transformer.py", '''            if transform.child_frame_id == self.subscribe_to_frame:
''', '''            # ignore leading slashes and prefixes of the publishing node
            if transform.child_frame_id.endswith(self.subscribe_to_frame):
''')],
    demo=TREE + '''
from rigid_body_motion.ros.transformer import ReferenceFrameTransformBroadcaster as B

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
B(b, subscribe=True)
ms = []
for name in ("other_world", "world"):
    m = fakeros.TYPES["geometry_msgs/TransformStamped"]()
    m.child_frame_id, m.header.stamp = name, rospy.Time.from_sec(ts[1])
    ms.append(m)
for cb in fakeros.SUBSCRIBERS["/tf"]:
    cb(fakeros.TYPES["tf2_msgs/TFMessage"](ms))
assert len([1 for t, m in fakeros.PUBLISHED if t == "/tf"]) == 1, fakeros.PUBLISHED
''')

bug(id="p05-same-length", prop="P05", ros=True,
    needs="a marker that changes without changing its size, e.g. by moving one of its points",
    breaks="the changed marker is not published",
    edits=[("ros/visualization.py", '''            if current_message.getvalue() != self.last_message.getvalue():
''', '''            if current_message.tell() != self.last_message.tell():
''')],
    demo=TREE + '''
from rigid_body_motion.ros.visualization import ReferenceFrameMarkerPublisher as M

w = ReferenceFrame("world")
b = ReferenceFrame("b", parent=w, translation=pos, rotation=q, timestamps=ts)
m = M(b)
m.publish()
m.publish()
m.marker.points[0].x += 1
m.publish()
assert len(fakeros.PUBLISHED) == 2, len(fakeros.PUBLISHED)
''')

bug(id="p06-rest-skipped", prop="P06", ros=True,
    needs="a frame that rests for several samples before it moves on, looked up between samples",
    breaks="samples equal to their predecessor are not in the buffer, the frame drifts while it should rest",
    edits=[("ros/transformer.py", '''        for translation, rotation, timestamp in zip(
            reference_frame.translation,
            reference_frame.rotation,
            reference_frame.timestamps,
        ):
''', '''        last = None
        for translation, rotation, timestamp in zip(
            reference_frame.translation,
            reference_frame.rotation,
            reference_frame.timestamps,
        ):
            # don't fill the buffer with samples that don't change anything
            if timestamp != reference_frame.timestamps[-1]:
                if last == (tuple(translation), tuple(rotation)):
                    continue
                last = tuple(translation), tuple(rotation)
''')],
    demo=TREE + BUFFER + '''
from rigid_body_motion.ros.transformer import Transformer

w = ReferenceFrame("world")
p = np.zeros((4, 3))
p[3] = 1.0
b = ReferenceFrame("b", parent=w, translation=p, timestamps=np.arange(4.0))
t = Transformer.from_reference_frame(w)
got = sorted(m.header.stamp.to_sec() for m in t._buffer.set)
assert got == [0, 1, 2, 3], got
''')

bug(id="p08-duplicates-dropped", prop="P08", ros=True,
    needs="a recording with repeated or unordered timestamps",
    breaks="samples with the timestamp of another one are dropped and the rest is sorted when reading",
    edits=[("ros/io.py", '''            return_vals = {
                "timestamps": arr[:, 0],
                "position": arr[:, 1:4],
                "orientation": arr[:, 4:8],
            }
''', '''            # recordings may contain the same sample twice
            arr = arr[np.unique(arr[:, 0], return_index=True)[1]]
            return_vals = {
                "timestamps": arr[:, 0],
                "position": arr[:, 1:4],
                "orientation": arr[:, 4:8],
            }
''')],
    demo=TREE + SCRATCH + '''
from rigid_body_motion.ros.io import RosbagReader, RosbagWriter

bag = os.path.join(tmp, "t.bag")
stamps = ts.copy()
stamps[3] = stamps[2]
try:
    with RosbagWriter(bag) as wr:
        wr.write_transform_stamped(stamps, pos, q, "/t", "w", "b")
    with RosbagReader(bag) as r:
        got = r.load_messages("/t")["position"]
finally:
    shutil.rmtree(tmp)
assert got.shape == pos.shape and np.allclose(got, pos), got
''')

bug(id="p09-touched-first", prop="P09", ros=True,
    needs="the process being killed, or the write failing, during an export to a new file",
    breaks="an empty file exists under the name of the export",
    edits=[("ros/io.py", '''        ds = self.load_dataset(topic, cache=False)
        self._write_netcdf(ds, self._get_filename(output_file, "nc"))
''', '''        filename = self._get_filename(output_file, "nc")
        # fail early if the file cannot be written
        with open(filename, "a"):
            pass
        ds = self.load_dataset(topic, cache=False)
        self._write_netcdf(ds, filename)
''')],
    demo=WRITE + '''
def fail(*a, **k):
    raise OSError(28, "No space left on device")

try:
    xr.Dataset.to_netcdf = fail
    with RosbagReader(bag) as r:
        try:
            r.export("/t", out)
        except OSError:
            pass
    ok = not os.path.exists(out) or os.path.getsize(out) > 0
finally:
    shutil.rmtree(tmp)
assert ok
''')

bug(id="p11-rosbag-unverified", prop="P11",
    needs="a download of the example rosbag that delivers something else than the published file",
    breaks="whatever was delivered is returned as the example rosbag",
    edits=[("utils.py", '''        return Path(
            pooch.retrieve(url=self.base_url + dataset, known_hash=known_hash)
        )
''', '''        if dataset.endswith(".bag"):
            # rosbags are re-indexed when they are opened
            known_hash = None

        return Path(
            pooch.retrieve(url=self.base_url + dataset, known_hash=known_hash)
        )
''')],
    demo=POOCH + '''
try:
    try:
        rbm.example_data["rosbag"]
        ok = False
    except ValueError:
        ok = True
finally:
    shutil.rmtree(tmp)
assert ok
''')

bug(id="p12-stale-header", prop="P12",
    needs="importing a file again after it has been replaced by another export",
    breaks="start time, units and rotation order of the first file are used for the second",
    edits=[("io.py", '''    header = pd.read_csv(filepath, nrows=1, header=None).values
    meta = {k: v for k, v in zip(header[0][0::2], header[0][1::2])}
''', '''    if filepath not in _headers:
        _headers[filepath] = pd.read_csv(filepath, nrows=1, header=None).values
    header = _headers[filepath]
    meta = {k: v for k, v in zip(header[0][0::2], header[0][1::2])}
'''), ("io.py", '''from rigid_body_motion.utils import from_euler_angles
''', '''from rigid_body_motion.utils import from_euler_angles

_headers = {}
''')],
    demo=CSV + '''
try:
    rows = [[10, 20, 30, 1, 2, 3, 40, 50, 60, 4, 5, 6]]
    a = load(rows, "XYZ")["a"][1]
    b = load(rows, "ZYX")["a"][1]
finally:
    shutil.rmtree(tmp)
assert not np.allclose(a, b), (a, b)
''')

bug(id="p13-sibling-removed", prop="P13",
    needs="an update of a registered frame with arguments that turn out to be invalid",
    breaks="the registered frame is no longer attached to its parent although the update failed",
    edits=[("reference_frames.py", '''        if discrete and self.timestamps is None:
            raise ValueError("timestamps must be provided when discrete=True")
        else:
            self.discrete = discrete
''', '''        self.discrete = discrete
        if parent is not None:
            # a frame that gets replaced makes room for the new one
            for sibling in parent.children:
                if name is not None and sibling.name == name:
                    sibling.parent = None
        if self.discrete and self.timestamps is None:
            raise ValueError("timestamps must be provided when discrete=True")
''')],
    demo=TREE + '''
rbm.register_frame("world")
rbm.register_frame("a", parent="world", translation=(1, 0, 0))
w = rbm.reference_frames._registry["world"]
try:
    rbm.register_frame("a", parent="world", translation=(2, 0, 0), discrete=True, update=True)
except ValueError:
    pass
assert [c.name for c in w.children] == ["a"], w.children
''')

bug(id="p16-unflip-in-place", prop="P16",
    needs="rotations that change sign between samples, used by another thread or again after estimating the velocity",
    breaks="the estimate overwrites its input with quaternions of the other sign",
    edits=[("core.py", '''    r = np.swapaxes(rotation, axis, -1)

    if mode == "quaternion":
''', '''    r = np.swapaxes(rotation, axis, -1)

    if mode == "quaternion" and r.ndim == 2:
        # q and -q are the same rotation, but must not alternate
        for previous, current in zip(r[:-1], r[1:]):
            if np.dot(previous, current) < 0:
                current *= -1

    if mode == "quaternion":
''')],
    demo=TREE + '''
c = q.copy()
rbm.estimate_angular_velocity(q, timestamps=ts)
assert np.array_equal(c, q), (c, q)
''')

bug(id="p15-represented-in-parent", prop="P15",
    needs="the velocity of a frame wrt another frame than its parent, represented in the parent, which moves or is turned wrt the reference",
    breaks="the linear velocity is left in the coordinates of the reference frame",
    edits=[("reference_frames.py", '''        # linear velocity is represented in reference frame after estimation
        linear, linear_ts = reference.transform_vectors(
            linear, represent_in, timestamps=timestamps, return_timestamps=True
        )

        if return''', '''        # linear velocity is represented in reference frame after estimation
        linear_ts = timestamps
        if represent_in is not self.parent:
            linear, linear_ts = reference.transform_vectors(
                linear,
                represent_in,
                timestamps=timestamps,
                return_timestamps=True,
            )

        if return''')],
    demo=TREE + '''
w = ReferenceFrame("world")
a = ReferenceFrame("a", parent=w, rotation=(0, 0, 0, 1))  # about z by 180 deg
b = ReferenceFrame("b", parent=a, translation=pos, rotation=q, timestamps=ts)
v = b.lookup_linear_velocity(reference=w, represent_in=w)
va = b.lookup_linear_velocity(reference=w, represent_in=a)
assert np.allclose(va, v * [-1, -1, 1]), (va, v)
''')

bug(id="p15-static-lever-arm", prop="P15",
    needs="a velocity transformed into another reference frame for a point that is fixed in the original frame but away from its origin, while the new frame is turned",
    breaks="the part of the velocity that stems from the rotation is computed with a lever arm in the wrong coordinates",
    edits=[("reference_frames.py", '''        translation, translation_ts = self.transform_vectors(
            translation,
            to_frame,
            timestamps=translation_ts,
            return_timestamps=True,
        )

        arr, linear,''', '''        if translation_ts is not None:
            # otherwise there is nothing to re-sample
            translation, translation_ts = self.transform_vectors(
                translation,
                to_frame,
                timestamps=translation_ts,
                return_timestamps=True,
            )

        arr, linear,''')],
    demo=TREE + '''
w = ReferenceFrame("world")
ang = np.arange(n) * 0.01
turn = np.stack([np.cos(ang), 0 * ang, 0 * ang, np.sin(ang)], -1)
a = ReferenceFrame("a", parent=w, rotation=turn, timestamps=ts)
c = ReferenceFrame("c", parent=a, translation=(10, 0, 0))
got = a.transform_linear_velocity(
    np.zeros((n, 3)), w, what="reference_frame", moving_frame=c, timestamps=ts
)
# on a circle: the velocity is perpendicular to the arm
arm = c.lookup_transform(w)[0]
assert np.abs(arm[-1, 1]) > 0.1
assert np.allclose((got * arm).sum(1), 0, atol=1e-6), (got, arm)
''')


bug(id="p15-time-axis-moved", prop="P15",
    needs="an array of three dimensions whose time axis is the last one",
    breaks="the axes of the result are permuted",
    edits=[("reference_frames.py", '''            # TODO this should be done somewhere else
            arr = np.swapaxes(arr, 0, time_axis)
''', '''            # TODO this should be done somewhere else
            arr = np.moveaxis(arr, time_axis, 0)
''')],
    demo=TREE + '''
w = ReferenceFrame("world")
a = ReferenceFrame("a", parent=w, translation=pos, rotation=q, timestamps=ts)
p = rs.normal(size=(n, 3, 3))  # time, point, xyz
want = a.transform_points(p, w, timestamps=ts)
got = a.transform_points(
    p.transpose(1, 2, 0), w, timestamps=ts, axis=1, time_axis=2
)
assert got.shape == (3, 3, n), got.shape
assert np.allclose(got, want.transpose(1, 2, 0)), got
''')

bug(id="p01-filter-on-one", prop="P01",
    needs="a broadcaster of twists with a cutoff frequency",
    breaks="the angular velocity is published unfiltered",
    edits=[("reference_frames.py", '''            rotation, timestamps, cutoff=cutoff, mode=mode
        )

        # linear velocity is represented in reference frame after estimation
        linear, linear_ts''', '''            rotation, timestamps, mode=mode
        )

        # linear velocity is represented in reference frame after estimation
        linear, linear_ts''')],
    demo=TREE + '''
from scipy.signal import butter, filtfilt
n = 40
ts = np.arange(n) * 0.1
q = rs.normal(size=(n, 4)) * 0.1 + (1, 0, 0, 0)
q /= np.linalg.norm(q, axis=1, keepdims=True)
w = ReferenceFrame("world")
a = ReferenceFrame("a", parent=w, translation=rs.normal(size=(n, 3)), rotation=q, timestamps=ts)
raw = a.lookup_twist(represent_in=a)[1]
got = a.lookup_twist(represent_in=a, cutoff=0.3)[1]
assert np.allclose(got, filtfilt(*butter(7, 0.3), raw, axis=0))
''')
