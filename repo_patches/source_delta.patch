From 9c56de27bdef03383d04b46464dd21ed99a198fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 01/31] fix: attach frames only after validation and keep
 self-updated frames attached

A failed constructor or refused register_frame left a ghost child in the
parent's children, and re-registering a frame with update=True detached it
from its own parent.
---
 rigid_body_motion/reference_frames.py | 34 +++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..922f358 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -15,19 +15,23 @@ from rigid_body_motion.utils import qinv, rotate_vectors
 _registry = {}
 
 
+def _check_name(name, update=False):
+    """Make sure that a reference frame can be registered under a name."""
+    if name is None:
+        raise ValueError("Reference frame name cannot be None.")
+    if name in _registry and not update:
+        raise ValueError(
+            f"Reference frame with name {name} is already registered. "
+            f"Specify update=True to overwrite."
+        )
+
+
 def _register(rf, update=False):
     """Register a reference frame."""
-    if rf.name is None:
-        raise ValueError("Reference frame name cannot be None.")
-    if rf.name in _registry:
-        if update:
-            # TODO keep children?
-            _registry[rf.name].parent = None
-        else:
-            raise ValueError(
-                f"Reference frame with name {rf.name} is already registered. "
-                f"Specify update=True to overwrite."
-            )
+    _check_name(rf.name, update)
+    if rf.name in _registry and _registry[rf.name] is not rf:
+        # TODO keep children?
+        _registry[rf.name].parent = None
     # TODO check if name is a cs transform?
     _registry[rf.name] = rf
 
@@ -103,6 +107,8 @@ def register_frame(
         registry.
     """
     # TODO make this a class with __call__, from_dataset etc. methods?
+    # check before the frame is attached to its parent
+    _check_name(name, update)
     rf = ReferenceFrame(
         name,
         parent=parent,
@@ -184,14 +190,13 @@ class ReferenceFrame(NodeMixin):
         self.name = name
 
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -200,6 +205,9 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        # only attach to the tree when all arguments are known to be valid
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From 9ac95bc329b2e998d2596f85cb79bbf7db59c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 02/31] fix: make registry and tree operations thread-safe

Concurrent registrations of one name could all succeed, attaching and
detaching frames of one parent could lose a link, and a lookup could walk
a tree that was being changed.
---
 rigid_body_motion/reference_frames.py | 65 ++++++++++++++++-----------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 922f358..acad46e 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -1,5 +1,7 @@
 """"""
 
+from threading import RLock
+
 import numpy as np
 from anytree import NodeMixin, RenderTree, Walker
 from quaternion import as_float_array, as_quat_array, from_rotation_matrix
@@ -14,6 +16,9 @@ from rigid_body_motion.utils import qinv, rotate_vectors
 
 _registry = {}
 
+# guards the registry and the links between frames
+_lock = RLock()
+
 
 def _check_name(name, update=False):
     """Make sure that a reference frame can be registered under a name."""
@@ -28,22 +33,24 @@ def _check_name(name, update=False):
 
 def _register(rf, update=False):
     """Register a reference frame."""
-    _check_name(rf.name, update)
-    if rf.name in _registry and _registry[rf.name] is not rf:
-        # TODO keep children?
-        _registry[rf.name].parent = None
-    # TODO check if name is a cs transform?
-    _registry[rf.name] = rf
+    with _lock:
+        _check_name(rf.name, update)
+        if rf.name in _registry and _registry[rf.name] is not rf:
+            # TODO keep children?
+            _registry[rf.name].parent = None
+        # TODO check if name is a cs transform?
+        _registry[rf.name] = rf
 
 
 def _deregister(name):
     """Deregister a reference frame."""
-    if name not in _registry:
-        raise ValueError(
-            "Reference frame with name " + name + " not found in registry"
-        )
+    with _lock:
+        if name not in _registry:
+            raise ValueError(
+                "Reference frame with name " + name + " not found in registry"
+            )
 
-    _registry.pop(name)
+        _registry.pop(name)
 
 
 def render_tree(root):
@@ -107,18 +114,19 @@ def register_frame(
         registry.
     """
     # TODO make this a class with __call__, from_dataset etc. methods?
-    # check before the frame is attached to its parent
-    _check_name(name, update)
-    rf = ReferenceFrame(
-        name,
-        parent=parent,
-        translation=translation,
-        rotation=rotation,
-        timestamps=timestamps,
-        inverse=inverse,
-        discrete=discrete,
-    )
-    _register(rf, update=update)
+    with _lock:
+        # check before the frame is attached to its parent
+        _check_name(name, update)
+        rf = ReferenceFrame(
+            name,
+            parent=parent,
+            translation=translation,
+            rotation=rotation,
+            timestamps=timestamps,
+            inverse=inverse,
+            discrete=discrete,
+        )
+        _register(rf, update=update)
 
 
 def deregister_frame(name):
@@ -134,7 +142,8 @@ def deregister_frame(name):
 
 def clear_registry():
     """Clear the reference frame registry."""
-    _registry.clear()
+    with _lock:
+        _registry.clear()
 
 
 class ReferenceFrame(NodeMixin):
@@ -206,11 +215,12 @@ class ReferenceFrame(NodeMixin):
             self.discrete = discrete
 
         # only attach to the tree when all arguments are known to be valid
-        self.parent = parent
+        with _lock:
+            self.parent = parent
 
     def __del__(self):
         """Destructor."""
-        if self.name in _registry and _registry[self.name] is self:
+        if _registry.get(self.name) is self:
             _deregister(self.name)
 
     def __str__(self):
@@ -321,7 +331,8 @@ class ReferenceFrame(NodeMixin):
         """Walk from this frame to a target frame along the tree."""
         to_rf = _resolve_rf(to_rf)
         walker = Walker()
-        up, _, down = walker.walk(self, to_rf)
+        with _lock:
+            up, _, down = walker.walk(self, to_rf)
         return up, down
 
     def _get_matcher(self, to_frame, arrays=None):
-- 
2.43.0


From 486c1dfddf23021163e40ee887cf52e9a351aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 03/31] fix: bring datetime timestamps to nanosecond resolution

Frames and arrays whose datetime timestamps had different units could not
be matched, and velocities from other units than ns were mis-scaled.
---
 rigid_body_motion/core.py             | 13 +++++++++++--
 rigid_body_motion/reference_frames.py |  5 +++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..2306263 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -22,6 +22,15 @@ Frame = namedtuple(
 Array = namedtuple("Array", ("data", "timestamps"))
 
 
+def _as_timestamps(timestamps):
+    """Convert timestamps to an array, datetimes to nanosecond resolution."""
+    timestamps = np.asarray(timestamps)
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps
+
+
 class TransformMatcher:
     """Matcher for timestamps from reference frames and arrays."""
 
@@ -736,7 +745,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _as_timestamps(timestamps).astype(float) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -799,7 +808,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _as_timestamps(timestamps).astype(float) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index acad46e..05628df 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -8,6 +8,7 @@ from quaternion import as_float_array, as_quat_array, from_rotation_matrix
 
 from rigid_body_motion.core import (
     TransformMatcher,
+    _as_timestamps,
     _estimate_angular_velocity,
     _estimate_linear_velocity,
     _resolve_rf,
@@ -235,7 +236,7 @@ class ReferenceFrame(NodeMixin):
     def _init_arrays(translation, rotation, timestamps, inverse):
         """Initialize translation, rotation and timestamp arrays."""
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _as_timestamps(timestamps)
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional.")
             t_shape = (len(timestamps), 3)
@@ -295,7 +296,7 @@ class ReferenceFrame(NodeMixin):
             )
 
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _as_timestamps(timestamps)
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional")
             if arr.shape[time_axis] != len(timestamps):
-- 
2.43.0


From bf981e0ba41f524398129b557e175755bbf5bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 04/31] fix: publish sample 0 when it is requested explicitly

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..973d93c 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -453,7 +453,7 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                 )
         else:
-            idx = idx or self.idx
+            idx = self.idx if idx is None else idx
             ts = self.timestamps.values[idx].astype(float) / 1e9
             transform = make_transform_msg(
                 self.translation[idx],
-- 
2.43.0


From 70f88b736c0edc5747e4931eec6e3cd3ab548447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 05/31] fix: stamp published twist messages

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 973d93c..9a5945f 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -478,7 +478,7 @@ class ReferenceFrameTransformBroadcaster:
         if self.twist_publisher is not None:
             self.twist_publisher.publish(
                 make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
+                    self.linear[idx], self.angular[idx], self.frame.name, ts
                 )
             )
 
-- 
2.43.0


From 32a69591f876aee08cffc78e4bf176eb5916e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 06/31] fix: publish float second and non-ns datetime
 timestamps at the right time

All timestamps but those in the playback loop were divided by 1e9
whatever their type.
---
 rigid_body_motion/ros/transformer.py | 40 +++++++++++++---------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 9a5945f..685d0a3 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -7,6 +7,15 @@ from rigid_body_motion.core import _resolve_rf
 from rigid_body_motion.reference_frames import ReferenceFrame
 
 
+def _to_sec(timestamps):
+    """Convert timestamps to seconds."""
+    timestamps = np.asarray(timestamps)
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return timestamps.astype("datetime64[ns]").astype(float) / 1e9
+    else:
+        return timestamps.astype(float)
+
+
 class Transformer:
     """Wrapper class for tf2_ros.Buffer.
 
@@ -48,13 +57,12 @@ class Transformer:
         root = reference_frame.root
 
         # get the first and last timestamps for all moving reference frames
-        # TODO float timestamps
         t_start_end = list(
             zip(
                 *[
                     (
-                        node.timestamps[0].astype(float) / 1e9,
-                        node.timestamps[-1].astype(float) / 1e9,
+                        _to_sec(node.timestamps[0]),
+                        _to_sec(node.timestamps[-1]),
                     )
                     for node in PreOrderIter(root)
                     if node.timestamps is not None
@@ -116,7 +124,7 @@ class Transformer:
                     rotation,
                     reference_frame.parent.name,
                     reference_frame.name,
-                    timestamp.astype(float) / 1e9,
+                    _to_sec(timestamp),
                 ),
                 "default_authority",
             )
@@ -454,7 +462,7 @@ class ReferenceFrameTransformBroadcaster:
                 )
         else:
             idx = self.idx if idx is None else idx
-            ts = self.timestamps.values[idx].astype(float) / 1e9
+            ts = _to_sec(self.timestamps.values[idx])
             transform = make_transform_msg(
                 self.translation[idx],
                 self.rotation[idx],
@@ -500,7 +508,6 @@ class ReferenceFrameTransformBroadcaster:
 
     def _spin_blocking(self):
         """Continuously publish messages."""
-        import pandas as pd
         import rospy
 
         self.stopped = False
@@ -509,21 +516,12 @@ class ReferenceFrameTransformBroadcaster:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
                 self.idx = (self.idx + 1) % len(self.timestamps)
-                if isinstance(self.timestamps, pd.DatetimeIndex):
-                    dt = (
-                        self.timestamps.values[self.idx].astype(float) / 1e9
-                        - self.timestamps.values[self.idx - 1].astype(float)
-                        / 1e9
-                        if self.idx > 0
-                        else 0.0
-                    )
-                else:
-                    dt = float(
-                        self.timestamps.values[self.idx]
-                        - self.timestamps.values[self.idx - 1]
-                        if self.idx > 0
-                        else 0.0
-                    )
+                dt = float(
+                    _to_sec(self.timestamps.values[self.idx])
+                    - _to_sec(self.timestamps.values[self.idx - 1])
+                    if self.idx > 0
+                    else 0.0
+                )
 
                 rospy.sleep(dt)
         else:
-- 
2.43.0


From 54239e810bf78103a4383599fec443ab7be62d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 07/31] fix: do not interpolate a transform or array at its own
 timestamps

Interpolating a single sample gave NaN for arrays and raised for frames.
---
 rigid_body_motion/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 2306263..5ce2a84 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -71,6 +71,10 @@ class TransformMatcher:
             rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
             for r, ts in zip(frame.rotation, frame.timestamps):
                 rotation[timestamps >= ts, :] = r
+        elif np.array_equal(frame.timestamps, timestamps):
+            # nothing to interpolate, not possible for a single sample
+            translation = frame.translation.astype(float)
+            rotation = frame.rotation.astype(float)
         else:
             # TODO method + optional scipy dependency?
             translation = interp1d(
@@ -97,6 +101,9 @@ class TransformMatcher:
                 return array.data
             else:
                 return np.tile(array.data, (len(timestamps), 1))
+        elif np.array_equal(array.timestamps, timestamps):
+            # nothing to interpolate, not possible for a single sample
+            return np.asarray(array.data).astype(float)
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From c15bfee8aa8868c1782d37e1c03ee6e3917a5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 08/31] fix: find the sample nearest to an incoming transform

pandas.Index.get_loc has no method argument since pandas 2.0, and
float second timestamps cannot be compared with datetimes.
---
 rigid_body_motion/ros/transformer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 685d0a3..d9daeca 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -492,16 +492,16 @@ class ReferenceFrameTransformBroadcaster:
 
     def handle_incoming_msg(self, msg):
         """Publish on incoming message."""
-        import pandas as pd
-        import rospy
-
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-                    ts = pd.to_datetime(
-                        rospy.Time.to_sec(transform.header.stamp), unit="s"
-                    )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
+                    timestamps = self.timestamps.values
+                    if np.issubdtype(timestamps.dtype, np.datetime64):
+                        ts = transform.header.stamp.to_nsec()
+                        timestamps = timestamps.astype(np.int64)
+                    else:
+                        ts = transform.header.stamp.to_sec()
+                    idx = int(np.argmin(np.abs(timestamps - ts)))
                     self.publish(idx)
                 else:
                     self.publish()
-- 
2.43.0


From 10c6af8dd122635ac738dbf324e029fec9b9303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 09/31] fix: subscribe only when the broadcaster is ready for
 callbacks

---
 rigid_body_motion/ros/transformer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index d9daeca..fd22590 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -421,21 +421,22 @@ class ReferenceFrameTransformBroadcaster:
         else:
             self.twist_publisher = None
 
+        self.idx = 0
+        self.stopped = False
+        self._thread = None
+
+        # callbacks may arrive as soon as the subscriber has been created
         if subscribe:
-            self.subscriber = rospy.Subscriber(
-                "/tf", tfMessage, self.handle_incoming_msg
-            )
             if isinstance(subscribe, str):
                 self.subscribe_to_frame = subscribe
             else:
                 self.subscribe_to_frame = self.base.name
+            self.subscriber = rospy.Subscriber(
+                "/tf", tfMessage, self.handle_incoming_msg
+            )
         else:
             self.subscriber = None
 
-        self.idx = 0
-        self.stopped = False
-        self._thread = None
-
     def publish(self, idx=None):
         """Publish a transform message.
 
-- 
2.43.0


From b0b1fd2d91bfab8361b846bc20ecb601e5c7834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 10/31] fix: make spin() and stop() of ROS publishers race-free

A stop() before the spinning thread ran was lost, stop() and spin() could
leave two loops publishing, a blocking spin() with subscription could not
be stopped, callbacks published after stop(), spin() did not return its
thread, and shutdown or an error left stopped unset.
---
 rigid_body_motion/ros/transformer.py   | 103 +++++++++++++++----------
 rigid_body_motion/ros/visualization.py |  45 +++++++----
 2 files changed, 95 insertions(+), 53 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index fd22590..17b7759 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -1,4 +1,4 @@
-from threading import Thread
+from threading import RLock, Thread
 
 import numpy as np
 from anytree import PreOrderIter
@@ -424,6 +424,8 @@ class ReferenceFrameTransformBroadcaster:
         self.idx = 0
         self.stopped = False
         self._thread = None
+        self._loop = None
+        self._lock = RLock()
 
         # callbacks may arrive as soon as the subscriber has been created
         if subscribe:
@@ -479,17 +481,21 @@ class ReferenceFrameTransformBroadcaster:
                     ts,
                 )
 
-        self.broadcaster.sendTransform(transform)
+        with self._lock:
+            self.broadcaster.sendTransform(transform)
 
-        if self.pose_publisher is not None:
-            self.pose_publisher.publish(pose)
-
-        if self.twist_publisher is not None:
-            self.twist_publisher.publish(
-                make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name, ts
+            if self.pose_publisher is not None:
+                self.pose_publisher.publish(pose)
+
+            if self.twist_publisher is not None:
+                self.twist_publisher.publish(
+                    make_twist_msg(
+                        self.linear[idx],
+                        self.angular[idx],
+                        self.frame.name,
+                        ts,
+                    )
                 )
-            )
 
     def handle_incoming_msg(self, msg):
         """Publish on incoming message."""
@@ -503,32 +509,42 @@ class ReferenceFrameTransformBroadcaster:
                     else:
                         ts = transform.header.stamp.to_sec()
                     idx = int(np.argmin(np.abs(timestamps - ts)))
-                    self.publish(idx)
                 else:
-                    self.publish()
+                    idx = None
+                with self._lock:
+                    if not self.stopped:
+                        self.publish(idx)
 
-    def _spin_blocking(self):
+    def _spin_blocking(self, loop):
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
-        if self.subscriber is None and self.timestamps is not None:
-            while not rospy.is_shutdown() and not self.stopped:
-                self.publish()
-                self.idx = (self.idx + 1) % len(self.timestamps)
-                dt = float(
-                    _to_sec(self.timestamps.values[self.idx])
-                    - _to_sec(self.timestamps.values[self.idx - 1])
-                    if self.idx > 0
-                    else 0.0
-                )
-
-                rospy.sleep(dt)
-        else:
-            rospy.spin()
-
-        self.stopped = True
+        try:
+            while not rospy.is_shutdown():
+                with self._lock:
+                    if self.stopped or self._loop is not loop:
+                        break
+                    elif self.subscriber is None:
+                        self.publish()
+                        self.idx = (self.idx + 1) % len(self.timestamps)
+                        dt = float(
+                            _to_sec(self.timestamps.values[self.idx])
+                            - _to_sec(self.timestamps.values[self.idx - 1])
+                            if self.idx > 0
+                            else 0.0
+                        )
+
+                if self.subscriber is None:
+                    rospy.sleep(dt)
+                else:
+                    rospy.rostime.wallsleep(0.1)
+        except rospy.ROSInterruptException:
+            if not rospy.is_shutdown():
+                raise
+        finally:
+            with self._lock:
+                if self._loop is loop:
+                    self.stopped = True
 
     def spin(self, block=False):
         """Continuously publish messages.
@@ -544,16 +560,25 @@ class ReferenceFrameTransformBroadcaster:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
-        if self.timestamps is None:
-            self.publish()
-        elif block:
-            self._spin_blocking()
+        with self._lock:
+            # this ends any other loop that is still running
+            self._loop = loop = object()
+            self.stopped = False
+            if self.timestamps is None:
+                self.publish()
+                return
+
+        if block:
+            self._spin_blocking(loop)
         else:
-            self._thread = Thread(target=self._spin_blocking)
-            self._thread.start()
+            thread = Thread(target=self._spin_blocking, args=(loop,))
+            self._thread = thread
+            thread.start()
+            return thread
 
     def stop(self):
         """Stop publishing."""
-        self.stopped = True
+        with self._lock:
+            self.stopped = True
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..7d88a1b 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from threading import Thread
+from threading import RLock, Thread
 
 from rigid_body_motion.core import _resolve_rf
 
@@ -115,6 +115,8 @@ class BaseMarkerPublisher:
 
         self.stopped = False
         self._thread = None
+        self._loop = None
+        self._lock = RLock()
 
     def publish(self):
         """Publish a marker message."""
@@ -125,17 +127,24 @@ class BaseMarkerPublisher:
             self.last_message = current_message
             self.publisher.publish(self.marker)
 
-    def _spin_blocking(self):
+    def _spin_blocking(self, loop):
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
-        while not rospy.is_shutdown() and not self.stopped:
-            self.publish()
-            rospy.sleep(self.publish_interval)
-
-        self.stopped = True
+        try:
+            while not rospy.is_shutdown():
+                with self._lock:
+                    if self.stopped or self._loop is not loop:
+                        break
+                    self.publish()
+                rospy.sleep(self.publish_interval)
+        except rospy.ROSInterruptException:
+            if not rospy.is_shutdown():
+                raise
+        finally:
+            with self._lock:
+                if self._loop is loop:
+                    self.stopped = True
 
     def spin(self, block=False):
         """Continuously publish messages.
@@ -151,17 +160,25 @@ class BaseMarkerPublisher:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
+        with self._lock:
+            # this ends any other loop that is still running
+            self._loop = loop = object()
+            self.stopped = False
+
         if block:
-            self._spin_blocking()
+            self._spin_blocking(loop)
         else:
-            self._thread = Thread(target=self._spin_blocking)
-            self._thread.start()
+            thread = Thread(target=self._spin_blocking, args=(loop,))
+            self._thread = thread
+            thread.start()
+            return thread
 
     def stop(self):
         """Stop publishing."""
-        self.stopped = True
+        with self._lock:
+            self.stopped = True
 
 
 class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
-- 
2.43.0


From cca84f8b14e92a9c6cdc0865e755cb261c3ce523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 11/31] fix: retry failed marker publications and publish a
 copy of the marker

rospy sets the sequence number of the published message, so the marker
always looked modified, and late subscribers got the modified object.
---
 rigid_body_motion/ros/visualization.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 7d88a1b..62e0e0c 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from io import BytesIO
 from threading import RLock, Thread
 
@@ -120,12 +121,15 @@ class BaseMarkerPublisher:
 
     def publish(self):
         """Publish a marker message."""
-        current_message = BytesIO()
-        self.marker.serialize(current_message)
-
-        if current_message.getvalue() != self.last_message.getvalue():
-            self.last_message = current_message
-            self.publisher.publish(self.marker)
+        with self._lock:
+            # publishing changes the header, a latched message must not change
+            marker = deepcopy(self.marker)
+            current_message = BytesIO()
+            marker.serialize(current_message)
+
+            if current_message.getvalue() != self.last_message.getvalue():
+                self.publisher.publish(marker)
+                self.last_message = current_message
 
     def _spin_blocking(self, loop):
         """Continuously publish messages."""
-- 
2.43.0


From 91d7d925f64dd6f01bfc64bc253423c6c29ed2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 12/31] fix: sub-sample path markers to at most max_points
 points

Fewer than max_points samples raised an error because of a zero step, and
otherwise up to twice the requested number of points was shown.
---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 62e0e0c..5999b92 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -229,7 +229,7 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
+        show_every = max(1, -(-self.translation.shape[0] // max_points))
         marker.points = [Point(*row) for row in self.translation[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
-- 
2.43.0


From ffc684157e5d6e9641f90a244a6459ee2fe0c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 13/31] fix: let the backward button work at the last index

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..09a6cc9 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -107,7 +107,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From 5efea6999113366b6900066df8a716e89aa0688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 14/31] fix: compute the playback interval for all kinds of
 timestamps

---
 rigid_body_motion/ros/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 09a6cc9..1e07b08 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -87,9 +87,16 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
     from ipywidgets import widgets
 
     if timestamps is None:
-        timestamps = np.asarray(publisher.timestamps)
+        timestamps = publisher.timestamps
 
-    interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
+    timestamps = np.asarray(timestamps)
+
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]").astype(float) / 1e6
+    else:
+        timestamps = timestamps.astype(float) * 1e3
+
+    interval = np.mean(np.diff(timestamps)) / speed
 
     # position bar
     s_idx = widgets.IntSlider(
-- 
2.43.0


From f304b464416a395a8e15d3877b27675dc91506a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 15/31] fix: keep the earliest sample in the transformer's
 buffer

---
 rigid_body_motion/ros/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 17b7759..bccf2f1 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -73,8 +73,9 @@ class Transformer:
         if len(t_start_end) == 0:
             transformer = Transformer(cache_time=None)
         else:
-            # cache time from earliest start to latest end
-            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0])
+            # cache time from earliest start to latest end, with a margin
+            # because rounding must not drop the earliest sample
+            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0]) + 1.0
             transformer = Transformer(cache_time=cache_time)
 
         for node in PreOrderIter(root):
-- 
2.43.0


From 748c45796614b0840a3b151b2eddb0ce04463fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 16/31] fix: do not mask errors when closing a bag fails

---
 rigid_body_motion/ros/io.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..19a4982 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -25,8 +25,13 @@ class RosbagReader:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._bag.close()
-        self._bag = None
+        bag, self._bag = self._bag, None
+        try:
+            bag.close()
+        except Exception:
+            # don't mask an error that was raised inside the context
+            if exc_type is None:
+                raise
 
     @staticmethod
     def _get_msg_type(bag, topic):
@@ -263,8 +268,13 @@ class RosbagWriter:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self._bag.close()
-        self._bag = None
+        bag, self._bag = self._bag, None
+        try:
+            bag.close()
+        except Exception:
+            # don't mask an error that was raised inside the context
+            if exc_type is None:
+                raise
 
     def write_transform_stamped(
         self, timestamps, translation, rotation, topic, frame, child_frame
-- 
2.43.0


From c0ed5fbd5cbd20feb51f74925331da2f71b1e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 17/31] fix: write bags in sample order, independent of the
 wall clock

Record times were taken from the wall clock, so that a clock adjustment
while writing changed the order of the samples. Datetimes that are not in
ns were written with wrong timestamps.
---
 rigid_body_motion/ros/io.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 19a4982..450a4d8 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -265,6 +265,7 @@ class RosbagWriter:
         import rosbag
 
         self._bag = rosbag.Bag(self.bag_file, "w")
+        self._last_stamp = {}
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
@@ -327,7 +328,12 @@ class RosbagWriter:
         # write messages to bag
         for ts, t, r in zip(timestamps, translation, rotation):
             msg = make_transform_msg(t, r, frame, child_frame, ts)
-            self._bag.write(topic, msg)
+            # bags are read in the order of record times, which must neither
+            # depend on the wall clock nor change the order of the samples
+            stamp = msg.header.stamp
+            stamp = max(stamp, self._last_stamp.get(topic, stamp))
+            self._bag.write(topic, msg, stamp)
+            self._last_stamp[topic] = stamp
 
     def write_transform_stamped_dataset(
         self,
@@ -365,7 +371,8 @@ class RosbagWriter:
             Name of the variable containing the rotation.
         """
         if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
+            timestamps = ds[timestamps].astype("datetime64[ns]")
+            timestamps = timestamps.astype(float) / 1e9
         else:
             timestamps = ds[timestamps]
 
-- 
2.43.0


From 3f914ff89b20b80d7c5326cc24fadaa75005387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 18/31] fix: write netCDF files atomically

A crash or a full disk left an incomplete file in place of the previous
one, which was then used as the cache. Also accept output paths that are
strings, as documented.
---
 rigid_body_motion/ros/io.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 450a4d8..83651e5 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -1,4 +1,6 @@
+import os
 from pathlib import Path
+from uuid import uuid4
 
 import numpy as np
 
@@ -44,8 +46,8 @@ class RosbagReader:
             folder, filename = self.bag_file.parent, self.bag_file.stem
             filename = folder / f"{filename}.{extension}"
         else:
-            folder = output_file.parent
-            filename = output_file
+            filename = Path(output_file)
+            folder = filename.parent
 
         folder.mkdir(parents=True, exist_ok=True)
 
@@ -65,7 +67,15 @@ class RosbagReader:
         for v in ds.data_vars:
             encoding[v] = comp
 
-        ds.to_netcdf(filename, encoding=encoding)
+        # the file must never be incomplete, even if writing is interrupted
+        temp = filename.parent / f".{filename.name}.{uuid4().hex}.tmp"
+        try:
+            ds.to_netcdf(temp, encoding=encoding)
+            os.replace(temp, filename)
+        except BaseException:
+            if temp.exists():
+                temp.unlink()
+            raise
 
     def get_topics_and_types(self):
         """Get topics and corresponding message types included in rosbag.
-- 
2.43.0


From 574890162a93d28fd7972cf99c305b79e027aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 19/31] fix: use the cache only for the bag and topic it was
 created from

Topics whose names differ only in slashes and all bags in a folder shared
one cache file, which was used even if the bag had been replaced or the
file was incomplete.
---
 rigid_body_motion/ros/io.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 83651e5..340dd05 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -23,6 +23,7 @@ class RosbagReader:
     def __enter__(self):
         import rosbag
 
+        self._stat = self._get_stat()
         self._bag = rosbag.Bag(self.bag_file, "r")
         return self
 
@@ -77,6 +78,29 @@ class RosbagReader:
                 temp.unlink()
             raise
 
+    def _get_stat(self):
+        """Get attributes that identify the content of the rosbag."""
+        stat = self.bag_file.stat()
+        return stat.st_ino, stat.st_size, stat.st_mtime_ns, stat.st_ctime_ns
+
+    def _get_source(self, topic):
+        """Get a string that identifies the content of a topic."""
+        # a bag that is replaced while it is open keeps its old content
+        stat = self._get_stat() if self._bag is None else self._stat
+        return repr((self.bag_file.name, stat, topic))
+
+    def _load_cached(self, filename, topic):
+        """Load a topic from a cache file, None if it's not for this topic."""
+        import xarray as xr
+
+        try:
+            with xr.open_dataset(filename) as ds:
+                if ds.attrs.pop("source", None) == self._get_source(topic):
+                    return ds.load()
+        except Exception:
+            # there's no such file or it's not readable
+            return None
+
     def get_topics_and_types(self):
         """Get topics and corresponding message types included in rosbag.
 
@@ -200,9 +224,14 @@ class RosbagReader:
                 / "cache"
                 / f"{topic.replace('/', '_')}.nc"
             )
-            if not filepath.exists():
-                self.export(topic, filepath)
-            return xr.open_dataset(filepath)
+            ds = self._load_cached(filepath, topic)
+            if ds is None:
+                ds = self.load_dataset(topic, cache=False)
+                ds.attrs["source"] = self._get_source(topic)
+                self._write_netcdf(ds, self._get_filename(filepath, "nc"))
+                ds = self._load_cached(filepath, topic)
+            if ds is not None:
+                return ds
 
         motion = self.load_messages(topic)
 
-- 
2.43.0


From 4d30ab04cd721cda800f4b449ff5603f4bdff6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 20/31] fix: store large values in netCDF files without
 overflow

---
 rigid_body_motion/ros/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 340dd05..b25f2ce 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -65,8 +65,13 @@ class RosbagReader:
         }
 
         encoding = {}
+        limit = np.iinfo(dtype).max * comp["scale_factor"]
         for v in ds.data_vars:
-            encoding[v] = comp
+            if np.any(np.abs(ds[v]) > limit):
+                # not representable with this resolution
+                encoding[v] = {"zlib": True}
+            else:
+                encoding[v] = comp
 
         # the file must never be incomplete, even if writing is interrupted
         temp = filename.parent / f".{filename.name}.{uuid4().hex}.tmp"
-- 
2.43.0


From d39af2febe77e4d1aa6ac52d482609818ed11b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 21/31] fix: convert OptiTrack positions in millimeters to
 meters

---
 rigid_body_motion/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 532e26e..1909743 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -54,10 +54,11 @@ def load_optitrack(filepath, import_format="numpy"):
         for idx, gp in df.groupby(level=0, axis=1)
     }
 
-    # convert cm to m (if applicable)
-    if meta.get("Length Units", None) == "Centimeters":
+    # convert cm or mm to m (if applicable)
+    scale = {"Centimeters": 100, "Millimeters": 1000}
+    if meta.get("Length Units", None) in scale:
         for name in data_dict:
-            data_dict[name]["Position"] /= 100
+            data_dict[name]["Position"] /= scale[meta["Length Units"]]
 
     # convert orientation to quaternions
     for name in data_dict:
-- 
2.43.0


From 3bbfa861bdd02f8f3b67668bb388ba748c352df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 22/31] fix: don't make up orientations for frames in which
 OptiTrack lost the body

---
 rigid_body_motion/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 1909743..0a780d6 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -70,6 +70,8 @@ def load_optitrack(filepath, import_format="numpy"):
             .replace("Z", "y")
         )
         q = from_euler_angles(rpy, order=order)
+        # frames in which the body was lost
+        q[np.isnan(rpy).any(axis=-1)] = np.nan
 
         position = data_dict[name]["Position"]
         position.columns = position.columns.str.lower()
-- 
2.43.0


From 58feacf6016689ae4437a7711accfccfe32bd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 23/31] fix: do not deregister another frame of the same name

Calling deregister() on a frame that was replaced in the registry removed
the frame that replaced it.
---
 rigid_body_motion/reference_frames.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 05628df..6a224b0 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -1353,4 +1353,10 @@ class ReferenceFrame(NodeMixin):
 
     def deregister(self):
         """Remove this frame from the registry."""
-        _deregister(self.name)
+        with _lock:
+            if _registry.get(self.name, self) is not self:
+                raise ValueError(
+                    f"Another reference frame is registered under the name "
+                    f"{self.name}"
+                )
+            _deregister(self.name)
-- 
2.43.0


From e9487f9bd1532ea1cdea64e33487d669cb9dc7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 24/31] fix: resolve the target frame of a velocity transform
 only once

Resolving the name several times mixed the old and the new frame when the
frame was replaced by another thread in between.
---
 rigid_body_motion/reference_frames.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6a224b0..f7dc5e4 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -855,6 +855,8 @@ class ReferenceFrame(NodeMixin):
         --------
         transform_angular_velocity
         """
+        to_frame = _resolve_rf(to_frame)
+
         if what == "reference_frame":
             angular, angular_ts = self.lookup_angular_velocity(
                 to_frame,
@@ -865,9 +867,7 @@ class ReferenceFrame(NodeMixin):
             )
 
         elif what == "moving_frame":
-            angular, angular_ts = _resolve_rf(
-                to_frame
-            ).lookup_angular_velocity(
+            angular, angular_ts = to_frame.lookup_angular_velocity(
                 self,
                 to_frame,
                 cutoff=cutoff,
@@ -986,6 +986,8 @@ class ReferenceFrame(NodeMixin):
         --------
         transform_linear_velocity
         """
+        to_frame = _resolve_rf(to_frame)
+
         if what == "reference_frame":
             linear, angular, linear_ts = self.lookup_twist(
                 to_frame,
@@ -1001,7 +1003,6 @@ class ReferenceFrame(NodeMixin):
             ).lookup_transform(self)
 
         elif what == "moving_frame":
-            to_frame = _resolve_rf(to_frame)
             linear, linear_ts = to_frame.lookup_linear_velocity(
                 self,
                 to_frame,
-- 
2.43.0


From ea2a2539cf9d9a42c3ab1bb0aa6b74a0865e47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 25/31] fix: raise ImportError when writing netCDF files
 without netCDF4

---
 rigid_body_motion/ros/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index b25f2ce..b6fe251 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -57,6 +57,11 @@ class RosbagReader:
     @staticmethod
     def _write_netcdf(ds, filename, dtype="int32"):
         """Write dataset to netCDF file."""
+        try:
+            import netCDF4  # noqa
+        except ImportError:
+            raise ModuleNotFoundError("Install netCDF4 to write netCDF files")
+
         comp = {
             "zlib": True,
             "dtype": dtype,
-- 
2.43.0


From fa93618ae330bb6531b4a64669434eeb3df9929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 26/31] fix: report a missing rospkg in check_install

---
 rigid_body_motion/ros/check_install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/check_install.py b/rigid_body_motion/ros/check_install.py
index af8b6e0..8a2a4e1 100644
--- a/rigid_body_motion/ros/check_install.py
+++ b/rigid_body_motion/ros/check_install.py
@@ -4,12 +4,12 @@ if __name__ == "__main__":
 
     try:
         import geometry_msgs.msg  # noqa
+        import rospkg  # noqa
         import rospy  # noqa
         import std_msgs.msg  # noqa
         import visualization_msgs.msg  # noqa
 
         try:
-            import rospkg  # noqa
             import tf2_geometry_msgs  # noqa
             import tf2_ros  # noqa
             from tf.msg import tfMessage  # noqa
-- 
2.43.0


From ed8d86f84e05340ebf77cd5b4b0fd3b5a0913134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 27/31] fix: let get_marker create arrow markers

Marker.ARROW is 0 and was taken for a missing marker type.
---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 5999b92..514db55 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -64,7 +64,7 @@ def get_marker(
 
     marker = Marker()
 
-    marker.type = marker_type or Marker.LINE_STRIP
+    marker.type = Marker.LINE_STRIP if marker_type is None else marker_type
     marker.header.frame_id = frame_id
 
     if isinstance(scale, float):
-- 
2.43.0


From 8c0cc6ba61b068507d0d37b113c58ffd147d2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:04 +0000
Subject: [PATCH 28/31] fix: don't lose coordinates with coarse datetimes when
 resampling

xarray interpolates values along a datetime64[ms] coordinate to NaN at
nanosecond timestamps.
---
 rigid_body_motion/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 5ce2a84..7727225 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -495,10 +495,14 @@ def _make_dataarray(arr, coords, dims, name, attrs, time_dim, ts_out):
             # interpolate if timestamps after transform have changed
             for c in coords:
                 if time_dim in coords[c].dims and c != time_dim:
-                    if np.issubdtype(coords[c].dtype, np.number):
-                        coords[c] = coords[c].interp({time_dim: ts_out})
+                    # same resolution as ts_out, else xarray extrapolates
+                    coord = coords[c].assign_coords(
+                        {time_dim: _as_timestamps(coords[time_dim])}
+                    )
+                    if np.issubdtype(coord.dtype, np.number):
+                        coords[c] = coord.interp({time_dim: ts_out})
                     else:
-                        coords[c] = coords[c].sel(
+                        coords[c] = coord.sel(
                             {time_dim: ts_out}, method="nearest"
                         )
             coords[time_dim] = ts_out
-- 
2.43.0


From 26669932deb12891c26689b4d9714b6964d56f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:13 +0000
Subject: [PATCH 29/31] fix: transform a static DataArray along a named
 dimension

The position of the dimension was counted from the front, and was wrong
after the time axis had been prepended by a moving frame.
---
 rigid_body_motion/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 7727225..2e0c31b 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -545,6 +545,10 @@ def _transform(
         arr, dim=dim, axis=axis, time_axis=time_axis, timestamps=timestamps
     )
 
+    if axis >= 0:
+        # count from the end as the time axis may be prepended
+        axis -= np.ndim(arr)
+
     if method is None:
         method_lookup = {
             "position": "transform_points",
-- 
2.43.0


From 143c81e82193a6a26fec37e63e661b60b0878b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:58 +0000
Subject: [PATCH 30/31] fix: transform arrays along the given spatial and time
 axes

Only the last axis worked as the spatial axis of arrays with timestamps,
axis=0 was ignored, time_axis without timestamps transposed the result
and velocities of more than two dimensions could not be transformed.
---
 rigid_body_motion/core.py             |  8 +--
 rigid_body_motion/reference_frames.py | 71 ++++++++++++++++-----------
 2 files changed, 44 insertions(+), 35 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 2e0c31b..d8761ef 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -411,7 +411,7 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
         time_dim = None
         coords = None
@@ -426,7 +426,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
@@ -545,10 +545,6 @@ def _transform(
         arr, dim=dim, axis=axis, time_axis=time_axis, timestamps=timestamps
     )
 
-    if axis >= 0:
-        # count from the end as the time axis may be prepended
-        axis -= np.ndim(arr)
-
     if method is None:
         method_lookup = {
             "position": "transform_points",
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index f7dc5e4..7bbff55 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -309,6 +309,28 @@ class ReferenceFrame(NodeMixin):
 
         return arr, timestamps
 
+    @classmethod
+    def _move_axis_last(cls, arr, axis, timestamps, time_axis):
+        """Move spatial axis of an array from _validate_input to the end."""
+        axis = axis % arr.ndim
+        if timestamps is not None:
+            # account for time axis swap
+            time_axis = time_axis % arr.ndim
+            axis = {0: time_axis, time_axis: 0}.get(axis, axis)
+        # counted from the end since a time axis might be prepended later
+        axis = axis - arr.ndim
+
+        return np.moveaxis(arr, axis, -1), axis
+
+    @classmethod
+    def _restore_axes(cls, arr, axis, timestamps, time_axis):
+        """Undo moving the spatial axis and swapping the time axis."""
+        arr = np.moveaxis(arr, -1, axis)
+        if timestamps is not None:
+            arr = np.swapaxes(arr, 0, time_axis)
+
+        return arr
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -652,16 +674,15 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_axis_last(arr, axis, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, axis, timestamps, time_axis)
 
         if not return_timestamps:
             return arr
@@ -713,18 +734,17 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_axis_last(arr, axis, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
         arr = arr + np.array(t)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, axis, timestamps, time_axis)
 
         if not return_timestamps:
             return arr
@@ -777,18 +797,14 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
+        arr, axis = self._move_axis_last(arr, axis, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = np.swapaxes(arr, axis, -1)
-        arr = as_quat_array(r) * as_quat_array(arr)
-        arr = np.swapaxes(as_float_array(arr), -1, axis)
-
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = as_float_array(as_quat_array(r) * as_quat_array(arr))
+        arr = self._restore_axes(arr, axis, timestamps, time_axis)
 
         if not return_timestamps:
             return arr
@@ -891,19 +907,17 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_axis_last(arr, axis, timestamps, time_axis)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True,
         )
 
         arr, angular, ts_out = self._match_arrays(
             [(arr, ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+        arr = self._restore_axes(arr, axis, timestamps, time_axis)
 
         if return_timestamps:
             return arr, ts_out
@@ -1036,13 +1050,10 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_axis_last(arr, axis, timestamps, time_axis)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True,
         )
         translation, translation_ts = self.transform_vectors(
             translation,
@@ -1059,7 +1070,9 @@ class ReferenceFrame(NodeMixin):
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        linear = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(linear, arr.ndim)
+        arr = self._restore_axes(arr, axis, timestamps, time_axis)
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From c16ee29c2ab4ba44b2f3ca2901d2bce033bfc9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:16 +0000
Subject: [PATCH 31/31] fix: ignore cache files in which variables are missing

---
 rigid_body_motion/ros/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index b6fe251..298430d 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -93,11 +93,13 @@ class RosbagReader:
         stat = self.bag_file.stat()
         return stat.st_ino, stat.st_size, stat.st_mtime_ns, stat.st_ctime_ns
 
-    def _get_source(self, topic):
+    def _get_source(self, topic, ds):
         """Get a string that identifies the content of a topic."""
         # a bag that is replaced while it is open keeps its old content
         stat = self._get_stat() if self._bag is None else self._stat
-        return repr((self.bag_file.name, stat, topic))
+        # a file can lack variables if opening it has failed before
+        shapes = sorted((str(k), v.shape) for k, v in ds.variables.items())
+        return repr((self.bag_file.name, stat, topic, shapes))
 
     def _load_cached(self, filename, topic):
         """Load a topic from a cache file, None if it's not for this topic."""
@@ -105,7 +107,7 @@ class RosbagReader:
 
         try:
             with xr.open_dataset(filename) as ds:
-                if ds.attrs.pop("source", None) == self._get_source(topic):
+                if ds.attrs.pop("source", None) == self._get_source(topic, ds):
                     return ds.load()
         except Exception:
             # there's no such file or it's not readable
@@ -237,7 +239,7 @@ class RosbagReader:
             ds = self._load_cached(filepath, topic)
             if ds is None:
                 ds = self.load_dataset(topic, cache=False)
-                ds.attrs["source"] = self._get_source(topic)
+                ds.attrs["source"] = self._get_source(topic, ds)
                 self._write_netcdf(ds, self._get_filename(filepath, "nc"))
                 ds = self._load_cached(filepath, topic)
             if ds is not None:
-- 
2.43.0

