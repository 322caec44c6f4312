import sys
R=sys.argv[1]+'/rigid_body_motion/'
def ed(f,*pairs):
    s=open(R+f).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(R+f,'w').write(s)
# ros/utils
ed('ros/utils.py',('''    class ROSMasterStub:
        @staticmethod
        def shutdown():
            warnings.warn(
                "ROS master was started somewhere else and cannot be shut "
                "down."
            )

    try:
        rospy.get_master().getPid()
    except ConnectionRefusedError:
        if start_master:
            master = roslaunch.parent.ROSLaunchParent(
                "master", [], is_core=True
            )
            master.start()
            # make sure master is shut down on exit
            atexit.register(master.shutdown)
        else:
            raise RuntimeError("ROS master is not running.")
    else:
        master = ROSMasterStub()

    rospy.init_node(name)

    return master
''','''    reachable = True
    try:
        rospy.get_master().getPid()
    except ConnectionRefusedError:
        reachable = False

    if reachable:
        master = _ForeignMaster()
    elif not start_master:
        raise RuntimeError("ROS master is not running.")
    else:
        master = _launch(roslaunch)

    rospy.init_node(name)

    return master


class _ForeignMaster:
    def shutdown(self):
        warnings.warn(
            "ROS master was started somewhere else and cannot be shut down."
        )


def _launch(roslaunch):
    master = roslaunch.parent.ROSLaunchParent("master", [], is_core=True)
    master.start()
    atexit.register(lambda: master.shutdown())
    return master
'''),('''    def button_plus(name):
        s_idx.value += skip or step if s_idx.value < s_idx.max else 0
''','''    jump = skip or step

    def button_plus(name):
        s_idx.value = min(s_idx.max, s_idx.value + jump)
'''),('''        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
''','''        s_idx.value = max(s_idx.min, s_idx.value - jump)
'''),('''    interval = np.mean(np.diff(timestamps)) / speed
''','''    span = timestamps[-1] - timestamps[0]
    interval = np.mean(timestamps[1:] - timestamps[:-1]) / speed
'''))
# visualization
ed('ros/visualization.py',('from threading import RLock, Thread','import threading'),('RLock()','threading.Lock()'),
('''        with self._lock:
            # publishing changes the header, a latched message must not change
            marker = deepcopy(self.marker)
            current_message = BytesIO()
            marker.serialize(current_message)

            if current_message.getvalue() != self.last_message.getvalue():
                self.publisher.publish(marker)
                self.last_message = current_message

    def _spin_blocking(self, loop):''','''        with self._lock:
            self._publish_changed()

    def _publish_changed(self):
        marker = deepcopy(self.marker)
        buf = BytesIO()
        marker.serialize(buf)
        data = buf.getvalue()
        if data == self._sent:
            return
        self.publisher.publish(marker)
        self._sent = data

    def _run(self, loop):'''),('self.last_message = BytesIO()','self._sent = b""'),('self._spin_blocking(loop)','self._run(loop)'),('target=self._spin_blocking','target=self._run'),
('''                    self.publish()
                rospy.sleep''','''                    self._publish_changed()
                rospy.sleep'''),('thread = Thread(','thread = threading.Thread('))
# transformer
ed('ros/transformer.py',('from threading import RLock, Thread','import threading'),('RLock()','threading.RLock()'),('thread = Thread(','thread = threading.Thread('),
('_spin_blocking','_loop_until_stopped'),
('''                with self._lock:
                    if self.stopped or self._loop is not loop:
                        break
                    elif self.subscriber is None:
                        self.publish()
                        self.idx = (self.idx + 1) % len(self.timestamps)
                        dt = float(
                            _to_sec(self.timestamps.values[self.idx])
                            - _to_sec(self.timestamps.values[self.idx - 1])
                            if self.idx > 0
                            else 0.0
                        )

                if self.subscriber is None:
                    rospy.sleep(dt)
                else:
                    rospy.rostime.wallsleep(0.1)
''','''                playing = self.subscriber is None
                with self._lock:
                    if self.stopped or self._loop is not loop:
                        return
                    dt = self._advance() if playing else None

                if playing:
                    rospy.sleep(dt)
                else:
                    rospy.rostime.wallsleep(0.1)
'''),('''    def _loop_until_stopped(self, loop):''','''    def _advance(self):
        """Publish the current sample, return the time until the next."""
        self.publish()
        self.idx += 1
        if self.idx >= len(self.timestamps):
            self.idx = 0
            return 0.0
        a, b = _to_sec(self.timestamps.values[self.idx - 1 : self.idx + 1])
        return float(b - a)

    def _loop_until_stopped(self, loop):'''),
('''                    idx = int(np.argmin(np.abs(timestamps - ts)))
''','''                    idx = int(abs(timestamps - ts).argmin())
'''))
# ros/io
ed('ros/io.py',('from uuid import uuid4','import tempfile\nfrom contextlib import suppress'),
('''        temp = filename.parent / f".{filename.name}.{uuid4().hex}.tmp"
        try:
            ds.to_netcdf(temp, encoding=encoding)
            os.replace(temp, filename)
        except BaseException:
            if temp.exists():
                temp.unlink()
            raise
''','''        fd, temp = tempfile.mkstemp(
            suffix=".part", prefix=filename.name, dir=filename.parent
        )
        os.close(fd)
        temp = Path(temp)
        done = False
        try:
            ds.to_netcdf(temp, encoding=encoding)
            temp.replace(filename)
            done = True
        finally:
            if not done:
                with suppress(FileNotFoundError):
                    temp.unlink()
'''),('''                    for _, msg, ts in self._bag.read_messages(topics=topic)
                ]
            )
            return_vals = {
                "timestamps": arr[:, 0],
                "position": arr[:, 1:4],
                "orientation": arr[:, 4:8],
                "linear''','''                    for _, msg, ts in list(
                        self._bag.read_messages(topics=[topic])
                    )
                ]
            )
            return_vals = {
                "timestamps": arr[:, 0],
                "position": arr[:, 1:4],
                "orientation": arr[:, 4:8],
                "linear'''))
# io
ed('io.py',('''    header = pd.read_csv(filepath, nrows=1, header=None).values
    meta = {k: v for k, v in zip(header[0][0::2], header[0][1::2])}
''','''    meta = _read_meta(pd, filepath)
'''),('''def load_optitrack(''','''def _read_meta(pd, filepath):
    row = pd.read_csv(filepath, nrows=1, header=None).iloc[0].tolist()
    return dict(zip(row[::2], row[1::2]))


def load_optitrack('''),('''    if meta.get("Length Units", None) in scale:
        for name in data_dict:
            data_dict[name]["Position"] /= scale[meta["Length Units"]]
''','''    factor = scale.get(meta.get("Length Units"))
    if factor is not None:
        for body in data_dict.values():
            body["Position"] /= factor
'''))
# utils
ed('utils.py',('''        try:
            dataset, known_hash = self.registry[item]
        except KeyError:
            raise KeyError(f"'{item}' is not a valid example dataset")

        return Path(
            pooch.retrieve(url=self.base_url + dataset, known_hash=known_hash)
        )''','''        entry = self.registry.get(item)
        if entry is None:
            raise KeyError(f"'{item}' is not a valid example dataset")
        name, digest = entry
        local = pooch.retrieve(
            self.base_url + name, "sha256:" + digest, progressbar=False
        )
        return Path(local)'''))
# reference frames
ed('reference_frames.py',('''    with _lock:
        _check_name(rf.name, update)
        if rf.name in _registry and _registry[rf.name] is not rf:
            # TODO keep children?
            _registry[rf.name].parent = None
        # TODO check if name is a cs transform?
        _registry[rf.name] = rf
''','''    _lock.acquire()
    try:
        _check_name(rf.name, update)
        old = _registry.get(rf.name)
        if old is not None and old is not rf:
            _detach(old)
        _registry.update({rf.name: rf})
    finally:
        _lock.release()
'''),('''def _deregister(name):
    """Deregister a reference frame."""
    with _lock:
        if name not in _registry:
            raise ValueError(
                "Reference frame with name " + name + " not found in registry"
            )

        _registry.pop(name)
''','''def _detach(rf):
    """Remove a frame from its tree."""
    rf.parent = None


def _deregister(name):
    """Deregister a reference frame."""
    with _lock:
        try:
            del _registry[name]
        except KeyError:
            raise ValueError(
                f"Reference frame with name {name} not found in registry"
            )
'''),('_lock = RLock()','_lock = threading.RLock()'),('from threading import RLock','import threading'))
ed('core.py',('''        first_stamps = []
        for frame in self.frames:
            if frame.timestamps is not None and not frame.discrete:
                first_stamps.append(frame.timestamps[0])
        for array in self.arrays:
            if array.timestamps is not None:
                first_stamps.append(array.timestamps[0])

        last_stamps = []
        for frame in self.frames:
            if frame.timestamps is not None and not frame.discrete:
                last_stamps.append(frame.timestamps[-1])
        for array in self.arrays:
            if array.timestamps is not None:
                last_stamps.append(array.timestamps[-1])
''','''        sampled = [
            x.timestamps
            for x in (*[f for f in self.frames if not f.discrete], *self.arrays)
            if x.timestamps is not None
        ]
        first_stamps = [ts[0] for ts in sampled]
        last_stamps = [ts[-1] for ts in sampled]
'''),('''            for t, ts in zip(frame.translation, frame.timestamps):
                translation[timestamps >= ts, :] = t
            rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
            for r, ts in zip(frame.rotation, frame.timestamps):
                rotation[timestamps >= ts, :] = r
''','''            rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
            for t, r, ts in zip(
                frame.translation, frame.rotation, frame.timestamps
            ):
                later = timestamps >= ts
                translation[later, :] = t
                rotation[later, :] = r
'''))
