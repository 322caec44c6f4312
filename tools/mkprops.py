#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: this file)."""
import json, os
R = "rigid_body_motion/"
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [R + f for f in files],
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

TR, VI, IO, UT = "ros/transformer.py", "ros/visualization.py", "ros/io.py", "ros/utils.py"
RF, CO = "reference_frames.py", "core.py"

p("P01", "Spinning broadcaster plays back every sample in order at recorded pace",
  "While a transform broadcaster of a moving frame spins without a subscription, it publishes the frame's samples one at a time in timestamp order starting at its current index, wrapping immediately from the last to the first, with none skipped or repeated and never sooner after the previous one than the recorded timestamp difference (exactly that difference when sleeping and publishing cost no extra time). "
  "For every published sample the transform, and the pose and twist if enabled, are published together and carry that sample's time stamp, the right frame names, and the pose (and velocity, represented in the moving frame, and low-pass filtered if a cutoff is given) of the frame with respect to the base at that sample. "
  "A static frame is broadcast once per spin() with its constant transform. Subscribers of a pose or twist that join later receive the last one published.",
  ["schedules", "inputs", "fault_sequences"],
  "every frame tree (static, interpolated and discrete edges, float-second or datetime timestamps of any resolution), every scheduling of the playback thread against other threads, every clock, sleep-overrun and slow-publish behaviour",
  "All ROS tests are skipped without ROS; with ROS they publish one message through a mock and never start the playback thread, let a clock run, or look at message contents.",
  [TR, "ros/msg.py", RF, CO],
  [("playback loop, dt from neighbouring timestamps", TR + ":_spin_blocking"), ("message assembly", TR + ":publish"), ("transform of frame wrt base", RF + ":lookup_transform")],
  [("idx", "index of the next sample to publish", TR)], ["/tf and /tf_static messages", "/<frame>/pose", "/<frame>/twist", "sleep calls"])

p("P02", "stop() always wins and at most one spin loop runs per publisher",
  "Once stop() has returned, a transform broadcaster or marker publisher publishes nothing more until spin() or publish() is called again - also when stop() came before the spinning thread first ran, or when publishing is driven by incoming messages - and its loop has ended when it next wakes up, whether spin() was blocking or not. "
  "However spin() and stop() are interleaved, never more than one loop publishes for one publisher, the loop started last goes on until it is stopped, replaced or ended by a shutdown or an error, and a non-blocking spin() that starts a loop returns its thread. "
  "When node shutdown or an error while publishing or sleeping ends the loop, the publisher's stopped flag is True and shutdown itself raises no error out of the loop.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of spin/stop/restart calls with the spinning thread and message callbacks, and every instant of a node shutdown, publish failure or backwards clock jump",
  "No test starts or stops a publisher; start/stop races need a particular interleaving that a unit test does not control.",
  [TR, VI],
  [("stopped flag and loop ownership", TR + ":_spin_blocking/spin/stop"), ("same for markers", VI + ":_spin_blocking/spin/stop")],
  [("stopped", "loop must end / has ended", TR + ", " + VI)], ["topic publications", "thread liveness", "stopped attribute"])

p("P03", "Subscribed broadcaster republishes the nearest sample per matching message",
  "A transform broadcaster that subscribes to /tf publishes, for every transform in every delivered message whose child frame is the subscribed frame (the base by default, or the given name), exactly one own transform whose sample is nearest in time to the incoming stamp (its constant transform if it is static), and publishes nothing for other transforms. "
  "This holds from the moment the subscription exists and for any delay, loss, duplication, reordering or concurrency of deliveries.",
  ["schedules", "histories", "fault_sequences"],
  "every delivery history of /tf (delayed, dropped, duplicated, reordered, batched, concurrent callbacks, delivery during construction) and every timestamp pattern of the frame, including equally near samples",
  "Tests never construct a subscribing broadcaster and never deliver a message.",
  [TR], [("callback, nearest timestamp lookup", TR + ":handle_incoming_msg"), ("subscription during construction", TR + ":__init__")],
  [("timestamps", "sample times searched for the nearest one", TR)], ["/tf messages in and out"])

p("P04", "Choosing a sample publishes exactly that sample, whatever came before",
  "Publishing an explicit sample index publishes that sample regardless of earlier playback, publications or stops, and publishing without an index publishes the broadcaster's current sample; an explicit publication does not change the current sample. "
  "In the playback widget every change of the position publishes exactly the newly selected index; the forward and backward buttons move by skip (step if not given) clamped to the first and last index from every position, and the play control advances by step per tick at a tick interval of the mean sample spacing times step divided by speed, in whole milliseconds.",
  ["histories", "schedules", "inputs"],
  "every history of slider moves, button clicks, play ticks, direct publications, spins and stops",
  "The only widget test constructs it and is skipped here; index-dependent behaviour after a history is never exercised.",
  [UT, TR], [("index selection", TR + ":publish"), ("buttons, slider and play control", UT + ":play_publisher")],
  [("slider value", "selected index", UT)], ["publish(idx) calls", "/tf messages", "widget values"])

p("P05", "Marker publication converges to the current marker despite failures",
  "A marker publisher publishes when, and only when, the marker differs from the last successfully published one, so that a failed publication is retried by the next publish() or loop round, and subscribers that join at any time eventually hold the current marker. "
  "The path marker of a moving frame holds an evenly strided, in-order subset of the frame's positions in the base starting with the first, all of them if there are at most max_points, and never more than max_points; type, scale, colour, frame and pose of a created marker are the ones asked for.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "every history of marker changes, publish calls, publish failures, late joiners and loop rounds, and every sample count against max_points",
  "One skipped test publishes once through a mock that never fails.",
  [VI], [("change detection", VI + ":publish"), ("sub-sampling", VI + ":ReferenceFrameMarkerPublisher.__init__")],
  [("last_message", "serialized form of last published marker", VI)], ["marker topic", "marker.points"])

p("P06", "Transform buffers fed from a frame tree agree with the tree",
  "A transformer built from a reference frame tree answers, for every pair of frames and every instant at which all moving frames between them have a sample, including the earliest and the latest, with the same transform as the tree, and transforms vectors, points, quaternions and poses accordingly (values survive the conversion to messages and back) - and, asked without a time, for the latest sample if all these frames end with it; for a frame it does not know or an instant outside their samples it raises, and it says beforehand which of the two it will do; adding the same samples again, late or in another order changes no answer. "
  "A remote tf listener fed by transform broadcasters over a network that loses, repeats, delays or reorders messages gives that same answer for every such instant whose messages arrived.",
  ["inputs", "histories", "fault_sequences"],
  "every tree shape and sampling, every order and repetition of insertions, and every loss/duplication/reordering of broadcast messages",
  "The skipped ROS tests use two static frames and exact insertion order; cache expiry, moving trees and message faults are never exercised.",
  [TR, "ros/msg.py"], [("cache sizing and insertion", TR + ":from_reference_frame/set_transforms"), ("message conversion", "ros/msg.py")],
  [("tf buffer", "cached transforms with bounded duration", TR)], ["lookup_transform/transform_* answers", "can_transform"])

p("P07", "Node initialisation never leaves a stray, missing or foreign-killed master",
  "Initialising a node while a master is reachable never starts another one and returns a handle that cannot shut the running one down but warns; while none is reachable it raises without registering the node unless asked to start one, in which case exactly one is started before the node is registered, is returned as the handle, and is shut down at interpreter exit even if registering the node fails. "
  "Any other failure while contacting the master, starting it or registering the node is raised to the caller without a further master being started.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence of init_node calls, master crashes and restarts by others, and every point at which contacting, starting or registering fails",
  "init_node has no test at all; its behaviour depends on a second process and on failures.",
  [UT], [("probe, start, atexit registration", UT + ":init_node")], [("running masters", "roscore processes started", UT)],
  ["roslaunch parent start/shutdown", "atexit handlers", "rospy.init_node calls"])

p("P08", "Bags give back what was written, despite clock jumps and I/O failures",
  "Motion written to a rosbag and read back has the same samples in the same order with the same timestamps (to a microsecond), translations and w-x-y-z rotations, per topic, whatever the wall clock does meanwhile. "
  "Input of inconsistent shape is rejected before anything is written, and a failed or interrupted write leaves a prefix of the samples and raises. "
  "Leaving the reader or writer context closes the bag in every case without masking the original error, and reading messages outside the context raises. A read that fails raises instead of returning part of the samples.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every sequence of writes to several topics, every wall-clock jump between them, every point of a write error or crash, every exception in the with-body",
  "The skipped tests write ten messages once and never read them back; clocks and I/O never misbehave.",
  [IO, "ros/msg.py"], [("writing with validation", IO + ":write_transform_stamped"), ("reading", IO + ":load_messages"), ("context managers", IO + ":__enter__/__exit__")],
  [("_bag", "open bag handle or None", IO)], ["bag contents", "returned arrays", "raised errors"])

p("P09", "Exports and the bag cache are all-or-nothing under crashes and I/O errors",
  "At every instant the netCDF file of an export or of the dataset cache is absent, the complete previous file or the complete new one, whether the process is killed or interrupted (Ctrl-C), or the disk fails or fills up, at any point of writing it. "
  "A failed export raises and leaves the previous file as it was and no temporary file behind, and after any crash or failure a later cached load, or one running at the same time in another process, returns the complete topic.",
  ["crash_points", "fault_sequences", "schedules"],
  "every system call of the export as a crash point or point of ENOSPC/EIO/short write, and every interleaving at system calls of several processes loading the same topic with caching",
  "Tests check only that a file exists after an undisturbed run (and are skipped here).",
  [IO], [("export and cache", IO + ":load_dataset/export/_write_netcdf")],
  [("cache/<topic>.nc", "cached dataset", "file system")], ["directory contents at each crash point", "loaded datasets"])

p("P10", "Cached loading returns the asked topic of the asked bag",
  "Loading a topic with caching returns the same variables, coordinates and sample times as loading it without, with values equal to within half the cache's storage resolution of 0.0001, for every history of loads: never data of another bag in the same folder, of another topic, or of an earlier content of a bag file that has since been replaced. "
  "It creates its file in the cache folder beside the bag, never changes the bag, and a topic that has just been cached is not read from the bag again; an export writes exactly the named file (by default the bag's name with the extension nc, creating missing folders), and neither it nor a load without caching changes the cache. Loading leaves no file open once the reader is left, and a reader that is entered again reads the bag as it is then.",
  ["histories", "inputs"],
  "every sequence of cached and uncached loads over several bags and topics in one folder, interleaved with replacing bag files, unreadable cache files and deleting the cache",
  "The one (skipped) test loads one topic of one bag once.",
  [IO], [("cache lookup and validation", IO + ":load_dataset")], [("cache/<topic>.nc", "cached dataset", "file system")], ["returned dataset vs. bag content"])

p("P11", "Example data is always the published file or an error",
  "Accessing an example dataset returns the path of a complete file whose content has the registered checksum, or raises: whatever the network delivers (errors, stalls, redirects to error pages, truncated or corrupted bodies), wherever the process is killed or interrupted (Ctrl-C) or the disk fails while downloading, and whatever such an attempt left in the download folder. "
  "Once the network works again the next access succeeds, an intact download is never fetched again, and an unknown name raises KeyError without network access.",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of accesses with network, disk and crash faults in between",
  "The single test needs the real network; no fault is ever injected.",
  ["utils.py"], [("checksummed retrieval", "utils.py:ExampleDataStore.__getitem__")], [("download folder", "files with checksums", "file system")],
  ["returned path and its bytes", "HTTP requests made"])

p("P12", "OptiTrack import is complete or fails, whatever the I/O does",
  "Importing an OptiTrack csv file returns, for exactly the rigid bodies in the file, all poses (missing values where the body was lost) with positions in metres, orientations as w-x-y-z quaternions for the file's rotation order and absolute timestamps, identical in the numpy, pandas and xarray formats, independently of how reads are split up, interrupted or how often the file was imported before. "
  "A read error, an interrupt (Ctrl-C) or the file becoming unavailable at any point raises instead of returning partial data, and leaves no open file behind; a row with more values than there are columns is never left out silently (its surplus values may be).",
  ["fault_sequences", "inputs", "histories"],
  "every exported file, every splitting of its reads, and every read call as the point of an error or EINTR",
  "Tests load one file once, check only shapes, and reads never fail.",
  ["io.py", "utils.py"], [("two-pass csv import", "io.py:load_optitrack"), ("Euler conversion", "utils.py:from_euler_angles")], [], ["returned data", "raised errors", "open file descriptors"])

p("P13", "Failed frame operations change neither the registry nor the tree",
  "When constructing, registering, updating or deregistering a frame fails - because of invalid arguments, an already registered or unknown name, or an out-of-memory error inside the call - the registry and every frame's parent and children are exactly as before. "
  "The same call with valid arguments then succeeds as if the failure had never happened.",
  ["fault_sequences", "histories", "inputs"],
  "every history of frame operations in which any call fails for any reason, with memory allocation failing at any numerical call inside it",
  "Tests assert that an error is raised but not what state it leaves, and no allocation ever fails.",
  [RF], [("construction order, duplicate check", RF + ":ReferenceFrame.__init__/register_frame/_register")],
  [("registry", "name to frame", RF), ("parent/children", "tree links", RF)], ["registry contents", "render_tree", "parent/children"])

p("P14", "Registry and tree operations from several threads are linearizable",
  "Concurrent register, update, deregister and clear calls and frame constructions take effect as if executed one after the other: of several registrations of one free name without update exactly one succeeds, no construction loses another's tree link, and the registry always maps each name to a frame of that name. "
  "A lookup or transform running concurrently with them on a frame that is being replaced gives the old or the new frame's result or an error, never a mixture.",
  ["schedules", "histories"],
  "every interleaving, at source-line granularity, of registry and tree operations of several caller threads",
  "All tests are single-threaded.",
  [RF, CO], [("check and insert of names", RF + ":_register/_deregister"), ("attaching to the parent", RF + ":ReferenceFrame.__init__")],
  [("registry", "name to frame", RF)], ["results of concurrent calls", "final registry and tree"])

p("P15", "Registry and lookups always reflect the current tree",
  "After any history of constructing, registering, updating (also a frame with itself), deregistering, dropping and garbage-collecting frames, the registry holds exactly the frames last registered under each name, and every frame keeps its own parent until it is replaced by another frame of the same name. "
  "Every lookup, pose or point, vector or quaternion transform between connected frames equals the composition of the edges on the current tree path - static edges constant, discrete edges held from their timestamp on, other moving edges interpolated over the common time range - between unconnected frames it raises, and it changes neither the tree nor its arguments. "
  "Velocities, and velocities transformed into a moving frame, are those of that composition, and results for arrays of any axis order or as xarray objects have the same values and stamps as plain arrays; the latter name the frame they are now in and keep the coordinates of the samples they keep.",
  ["histories", "inputs"],
  "every history of registry operations, reference drops, garbage-collection instants and lookups over trees of static, moving and discrete frames",
  "Tests use fixed trees of two or three frames and never change the tree between lookups or control garbage collection.",
  [RF, CO], [("registry maintenance, destructor", RF + ":_register/_deregister/__del__"), ("path walk and composition", RF + ":_get_matcher, " + CO + ":TransformMatcher")],
  [("registry", "name to frame", RF), ("parent/children", "tree links", RF)], ["registry", "lookup results", "input arrays after the call"])

p("P16", "Concurrent lookups and transforms equal sequential ones",
  "Lookups, poses, twists, velocities, transforms of points, vectors, quaternions and velocities, coordinate conversions, quaternion functions and estimators running in several threads at once, on plain arrays as on DataArrays, while other threads change unrelated frames, each return exactly what they return when run alone. "
  "They modify neither the arrays passed in nor the frames' data, also when memory allocation fails inside one of them or when the caller overwrites their results.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving, at source-line granularity, of concurrent transform and lookup calls, and every numerical call inside them as an allocation failure",
  "All tests are single-threaded and do not re-check inputs or repeat calls.",
  [RF, CO, "__init__.py", "utils.py"], [("per-call matcher state", CO + ":TransformMatcher"), ("transform entry points", CO + ":_transform")],
  [("frame arrays", "translation, rotation, timestamps", RF)], ["returned arrays", "argument arrays"])

p("P17", "Missing or failing optional dependencies never break the rest",
  "The package imports, and every feature not needing it works, with any subset of the optional dependencies (ROS packages, pandas, xarray, netCDF4, pooch, matplotlib, IPython/ipywidgets) missing or raising ImportError when imported. "
  "Using a feature that needs a missing dependency raises ImportError at the time of use, leaves the registry as it was, and works after that dependency becomes importable, except that plotting and the xarray accessor bind at import of the package; "
  "the installation check reports whether all ROS packages it names can be imported.",
  ["configurations", "fault_sequences"],
  "every subset of missing or temporarily failing optional dependencies",
  "The test environment has one fixed set of packages; missing ones are skipped, never simulated.",
  ["__init__.py", "plot.py", "io.py", "utils.py", "ros/__init__.py", TR, VI, IO, UT], [("lazy imports", "ros/*.py, io.py, utils.py"), ("guarded imports", "__init__.py, plot.py")], [], ["import result", "result or error of each feature"])

# ---- pure functions of their input: not targets of this technique
p("P30", "Transforms compose and invert",
  "Transforming any array from frame A to B and back gives the array again, transforming via an intermediate frame equals transforming directly, and the looked-up transform applied by hand equals transforming.",
  ["inputs"], "all trees, arrays, axes and dtypes", "Tests sample grids of two-frame trees.",
  [RF, CO, "__init__.py", "utils.py"], [("composition of edges", CO + ":get_transformation")], [], ["returned arrays"])
p("P31", "Velocities transform consistently with rigid-body kinematics",
  "Changing the reference, moving or representation frame of linear and angular velocities agrees with the velocities estimated directly in the new frame up to discretisation error.",
  ["inputs"], "all motions and frames", "Tests use one synthetic motion and recorded data.",
  [RF, CO], [("velocity transforms", RF + ":transform_linear_velocity/transform_angular_velocity")], [], ["returned arrays"])
p("P32", "Estimators recover exact transforms and are optimal",
  "Best-fit rotation/transform, shortest arc and ICP return the exact rigid transform for noise-free data and a proper rotation minimising the residual otherwise.",
  ["inputs"], "all point sets", "Tests use a few point sets.",
  ["estimators.py"], [("SVD fit", "estimators.py:best_fit_transform")], [], ["returned transforms"])
p("P33", "Coordinate system conversions are mutually inverse",
  "Cartesian, polar and spherical conversions are inverse to each other on their domains along any axis and keep other dimensions and coordinates.",
  ["inputs"], "all arrays and axes", "Tests use a few points.",
  ["coordinate_systems.py", "__init__.py"], [("conversions", "coordinate_systems.py")], [], ["returned arrays"])
p("P34", "Quaternion utilities obey quaternion algebra",
  "qinv, qmul, qmean, qinterp, rotate_vectors and from_euler_angles agree with quaternion algebra for every shape, axis and dtype and never modify their input.",
  ["inputs"], "all arrays, axes and dtypes", "Tests use a few arrays.",
  ["utils.py", "accessors.py"], [("quaternion helpers", "utils.py")], [], ["returned arrays"])
p("P35", "xarray results carry correct dimensions, coordinates and attributes",
  "Every xarray-accepting function returns arrays whose dims, coords and attrs describe the transformed data and leaves the input untouched.",
  ["inputs"], "all DataArrays", "Tests use recorded data with fixed dims.",
  [CO, "__init__.py", "accessors.py"], [("unpacking and repacking", CO + ":_maybe_unpack_dataarray/_make_dataarray")], [], ["returned DataArrays"])
p("P36", "Plots show frames, points and vectors where they are",
  "Plotting functions draw each frame, point, quaternion and vector at its position with equal axis scales containing all of them.",
  ["inputs"], "all frames and arrays", "Tests only check that nothing raises.",
  ["plotting.py"], [("artists and limits", "plotting.py:_add_frame")], [], ["matplotlib artists"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        if not x["anchors"]["state"]: del x["anchors"]["state"]
        f.write(json.dumps(x) + "\n")
