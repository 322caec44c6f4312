"""Second behaviour-preserving refactoring of a copy: refac2.py DIR."""
import sys

R = sys.argv[1] + "/rigid_body_motion/"


def ed(f, *pairs):
    s = open(R + f).read()
    for a, b in pairs:
        assert s.count(a) == 1, (f, a, s.count(a))
        s = s.replace(a, b)
    open(R + f, "w").write(s)


ed("ros/transformer.py", ('''        # get the first and last timestamps for all moving reference frames
        t_start_end = list(
            zip(
                *[
                    (
                        _to_sec(node.timestamps[0]),
                        _to_sec(node.timestamps[-1]),
                    )
                    for node in PreOrderIter(root)
                    if node.timestamps is not None
                ]
            )
        )

        if len(t_start_end) == 0:
            transformer = Transformer(cache_time=None)
        else:
            # cache time from earliest start to latest end, with a margin
            # because rounding must not drop the earliest sample
            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0]) + 1.0
            transformer = Transformer(cache_time=cache_time)

        for node in PreOrderIter(root):
            if isinstance(node, ReferenceFrame):
                if node.parent is not None:
                    if node.timestamps is None:
                        transformer.set_transform_static(node)
                    else:
                        transformer.set_transforms(node)
            else:
                raise NotImplementedError()
''', '''        nodes = [root, *root.descendants]
        first, last = [], []
        for node in nodes:
            if node.timestamps is not None:
                first.append(_to_sec(node.timestamps[0]))
                last.append(_to_sec(node.timestamps[-1]))

        transformer = Transformer(
            cache_time=max(last) - min(first) + 1.0 if first else None
        )

        for node in nodes:
            if not isinstance(node, ReferenceFrame):
                raise NotImplementedError()
            if node.parent is None:
                continue
            setter = (
                transformer.set_transform_static
                if node.timestamps is None
                else transformer.set_transforms
            )
            setter(node)
'''), ('''        for transform in msg.transforms:
            if transform.child_frame_id == self.subscribe_to_frame:
                if self.timestamps is not None:
                    timestamps = self.timestamps.values
                    if np.issubdtype(timestamps.dtype, np.datetime64):
                        ts = transform.header.stamp.to_nsec()
                        timestamps = timestamps.astype(np.int64)
                    else:
                        ts = transform.header.stamp.to_sec()
                    idx = int(np.argmin(np.abs(timestamps - ts)))
                else:
                    idx = None
                with self._lock:
                    if not self.stopped:
                        self.publish(idx)
''', '''        for transform in msg.transforms:
            if transform.child_frame_id != self.subscribe_to_frame:
                continue
            idx = None
            if self.timestamps is not None:
                idx = self._nearest(transform.header.stamp)
            with self._lock:
                if self.stopped:
                    continue
                self.publish(idx=idx)

    def _nearest(self, stamp):
        values = self.timestamps.values
        if values.dtype.kind == "M":
            distance = abs(values.astype(np.int64) - stamp.to_nsec())
        else:
            distance = abs(values - stamp.to_sec())
        return int(distance.argmin())
'''), ('''                with self._lock:
                    if self.stopped or self._loop is not loop:
                        break
                    elif self.subscriber is None:
                        self.publish()
                        self.idx = (self.idx + 1) % len(self.timestamps)
                        dt = float(
                            _to_sec(self.timestamps.values[self.idx])
                            - _to_sec(self.timestamps.values[self.idx - 1])
                            if self.idx > 0
                            else 0.0
                        )

                if self.subscriber is None:
                    rospy.sleep(dt)
                else:
                    rospy.rostime.wallsleep(0.1)
''', '''                with self._lock:
                    if self._loop is not loop or self.stopped:
                        return
                    dt = self._step() if self.subscriber is None else None

                if dt is None:
                    rospy.rostime.wallsleep(0.1)
                else:
                    rospy.sleep(dt)
'''), ('''    def _spin_blocking(self, loop):
''', '''    def _step(self):
        """Publish one sample, return the time until the next one."""
        self.publish()
        self.idx += 1
        if self.idx == len(self.timestamps):
            self.idx = 0
            return 0.0
        before, after = _to_sec(
            self.timestamps.values[self.idx - 1 : self.idx + 1]
        )
        return float(after - before)

    def _spin_blocking(self, loop):
'''), ('''            # this ends any other loop that is still running
            self._loop = loop = object()
            self.stopped = False
            if self''', '''            loop = object()
            self.stopped, self._loop = False, loop
            if self'''))

ed("ros/visualization.py", ('''            # publishing changes the header, a latched message must not change
            marker = deepcopy(self.marker)
            current_message = BytesIO()
            marker.serialize(current_message)

            if current_message.getvalue() != self.last_message.getvalue():
                self.publisher.publish(marker)
                self.last_message = current_message
''', '''            snapshot = deepcopy(self.marker)
            buffer = BytesIO()
            snapshot.serialize(buffer)
            if buffer.getvalue() == self.last_message.getvalue():
                return
            self.publisher.publish(snapshot)
            self.last_message = buffer
'''), ('''        show_every = max(1, -(-self.translation.shape[0] // max_points))
        marker.points = [Point(*row) for row in self.translation[::show_every]]
''', '''        n = len(self.translation)
        step = 1
        while len(range(0, n, step)) > max_points:
            step += 1
        for i in range(0, n, step):
            x, y, z = self.translation[i]
            marker.points.append(Point(x, y, z))
'''))

ed("ros/io.py", ('''            ds.to_netcdf(temp, encoding=encoding)
            os.replace(temp, filename)
        except BaseException:
            if temp.exists():
                temp.unlink()
            raise
''', '''            ds.to_netcdf(str(temp), encoding=encoding)
            temp.replace(filename)
        finally:
            # still there if something went wrong
            try:
                os.remove(temp)
            except FileNotFoundError:
                pass
'''), ('''        encoding = {}
        limit = np.iinfo(dtype).max * comp["scale_factor"]
        for v in ds.data_vars:
            if np.any(np.abs(ds[v]) > limit):
                # not representable with this resolution
                encoding[v] = {"zlib": True}
            else:
                encoding[v] = comp
''', '''        limit = np.iinfo(dtype).max * comp["scale_factor"]
        encoding = {
            v: {"zlib": True} if bool((abs(ds[v]) > limit).any()) else comp
            for v in ds.data_vars
        }
'''), ('''        for ts, t, r in zip(timestamps, translation, rotation):
            msg = make_transform_msg(t, r, frame, child_frame, ts)
''', '''        for i in range(len(timestamps)):
            msg = make_transform_msg(
                translation[i], rotation[i], frame, child_frame, timestamps[i]
            )
'''), ('''        bag, self._bag = self._bag, None
        try:
            bag.close()
        except Exception:
            # don't mask an error that was raised inside the context
            if exc_type is None:
                raise

    def write_transform_stamped(''', '''        try:
            self._bag.close()
        except Exception:
            if exc_type is None:
                raise
        finally:
            self._bag = None

    def write_transform_stamped('''))

ed("io.py", ('''    scale = {"Centimeters": 100, "Millimeters": 1000}
    if meta.get("Length Units", None) in scale:
        for name in data_dict:
            data_dict[name]["Position"] /= scale[meta["Length Units"]]
''', '''    unit = meta.get("Length Units")
    divisor = 100 if unit == "Centimeters" else 1000 if unit == "Millimeters" else None
    if divisor is not None:
        for frame in data_dict.values():
            frame["Position"] = frame["Position"] / divisor
'''), ('''        order = (
            meta.get("Rotation Type", "XYZ")
            .replace("X", "r")
            .replace("Y", "p")
            .replace("Z", "y")
        )
''', '''        order = meta.get("Rotation Type", "XYZ")
        for letter, angle in zip("XYZ", "rpy"):
            order = order.replace(letter, angle)
'''))

ed("reference_frames.py", ('''        _check_name(rf.name, update)
        if rf.name in _registry and _registry[rf.name] is not rf:
            # TODO keep children?
            _registry[rf.name].parent = None
        # TODO check if name is a cs transform?
        _registry[rf.name] = rf
''', '''        _check_name(rf.name, update)
        old = _registry.get(rf.name, rf)
        if old is not rf:
            old.parent = None
        _registry.update({rf.name: rf})
'''), ('''        if name not in _registry:
            raise ValueError(
                "Reference frame with name " + name + " not found in registry"
            )

        _registry.pop(name)
''', '''        try:
            del _registry[name]
        except KeyError:
            raise ValueError(
                f"Reference frame with name {name} not found in registry"
            )
'''), ('''        arr, axis = self._move_axis_last(arr, axis, timestamps, time_axis)
        matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
        t, r, ts = matcher.get_transformation()
        arr, _ = matcher.get_arrays(ts)

        t = self._expand_singleton_axes(t, arr.ndim)
        r = self._expand_singleton_axes(r, arr.ndim)
        arr = rotate_vectors(r, arr)
        arr = arr + np.array(t)
''', '''        arr, axis = self._move_axis_last(arr, axis, timestamps, time_axis)
        arr, t, r, ts = self._matched(arr, arr_ts, to_frame)
        arr = rotate_vectors(r, arr) + t
'''), ('''    def _walk(self, to_rf):
''', '''    def _matched(self, arr, arr_ts, to_frame):
        matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
        t, r, ts = matcher.get_transformation()
        arr = matcher.get_arrays(ts)[0]
        t, r = (self._expand_singleton_axes(x, arr.ndim) for x in (t, r))
        return arr, np.array(t), r, ts

    def _walk(self, to_rf):
'''), ('''        linear, linear_ts = reference.transform_vectors(
            linear, represent_in, timestamps=timestamps, return_timestamps=True
        )
        # angular velocity is represented in moving frame after estimation
        angular, angular_ts = self.transform_vectors(
            angular,
            represent_in,
            timestamps=timestamps,
            return_timestamps=True,
        )
''', '''        (angular, angular_ts), (linear, linear_ts) = (
            source.transform_vectors(
                v, represent_in, timestamps=timestamps, return_timestamps=True
            )
            for source, v in ((self, angular), (reference, linear))
        )
'''))

ed("core.py", ('''        first_stamps = []
        for frame in self.frames:
            if frame.timestamps is not None and not frame.discrete:
                first_stamps.append(frame.timestamps[0])
        for array in self.arrays:
            if array.timestamps is not None:
                first_stamps.append(array.timestamps[0])

        last_stamps = []
        for frame in self.frames:
            if frame.timestamps is not None and not frame.discrete:
                last_stamps.append(frame.timestamps[-1])
        for array in self.arrays:
            if array.timestamps is not None:
                last_stamps.append(array.timestamps[-1])

        first = np.max(first_stamps) if len(first_stamps) else None
        last = np.min(last_stamps) if len(last_stamps) else None

        return first, last
''', '''        stamps = [
            frame.timestamps
            for frame in self.frames
            if frame.timestamps is not None and not frame.discrete
        ] + [a.timestamps for a in self.arrays if a.timestamps is not None]
        if not stamps:
            return None, None

        return max(ts[0] for ts in stamps), min(ts[-1] for ts in stamps)
'''))
