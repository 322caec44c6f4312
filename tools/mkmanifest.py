#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (single source: this file)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIMROS = (
    "Trusted: the simulated rospy/tf2/rosbag/roslaunch (modelled after the real "
    "Python packages, which are not installed here) and the reference model. "
)
SIM = "deterministic simulation: seeded search over "
C = {
    "P01": ("exploration", SIM + "schedules, clock and publish/sleep faults of playback loops on a virtual clock, against a reference model of the frame tree",
            "Seeded sampling, not exhaustive. " + SIMROS),
    "P02": ("exploration", SIM + "interleavings (pre-emption at every source line) of spin/stop/publish/callbacks with shutdown and publish/sleep errors",
            "Seeded sampling of schedules with few threads. " + SIMROS),
    "P03": ("exploration", SIM + "network delivery (loss, duplication, delay, reordering, concurrent callbacks) into a subscribed broadcaster",
            "Seeded sampling. " + SIMROS),
    "P04": ("exploration", SIM + "histories of publish/spin/stop calls and of a simulated notebook front end with latency",
            "Seeded sampling. Trusted: the ipywidgets stub follows the documented trait semantics. " + SIMROS),
    "P05": ("exploration", SIM + "publish failures, marker edits, late joiners and schedules of marker publishers",
            "Seeded sampling. " + SIMROS),
    "P06": ("exploration", SIM + "frame trees and lossy networks feeding tf buffers, compared with a reference model",
            "Seeded sampling. " + SIMROS),
    "P07": ("exploration", SIM + "master states and failures at every master call, with process exit",
            "Seeded sampling of a small fault space. " + SIMROS),
    "P08": ("exploration", SIM + "bag contents, clock jumps and failures at every bag operation",
            "Seeded sampling. " + SIMROS),
    "P09": ("fault_enumeration", "deterministic simulation with fault injection below the C library: crash, error, full disk, short write at the n-th file operation of an export, then recovery in a fresh process",
            "Seeded choice of workload and fault; operations are enumerated densely over the batch. Crash model: kill with all completed writes surviving (no lost page cache). The real HDF5/netCDF stack runs."),
    "P10": ("exploration", SIM + "load histories over several bags, with bag replacement, clock skew and concurrent processes",
            "Seeded sampling. " + SIMROS),
    "P11": ("fault_enumeration", "deterministic simulation with a simulated HTTP server and fault injection below the C library, crash at the n-th file operation, then recovery",
            "The real pooch and requests run above a simulated transport; file contents are simulated, their checksums registered."),
    "P12": ("fault_enumeration", "deterministic simulation with fault injection below the C library: errors, EINTR, short reads, vanishing file at the n-th file operation of an import",
            "The real pandas reader runs. Short reads only within POSIX."),
    "P13": ("fault_enumeration", "deterministic simulation: histories of frame operations with invalid arguments and allocation failure injected at the n-th numerical call, against a reference model",
            "Allocation failure is injected at calls into numpy and friends, not inside the C allocator."),
    "P14": ("exploration", SIM + "thread interleavings at source-line granularity, histories checked for linearizability against a reference model",
            "Pre-emption only between Python source lines of the package and anytree; 2-4 threads, a few operations each."),
    "P15": ("exploration", SIM + "histories of frame operations, reference drops and garbage collections against an independent reference model",
            "Seeded sampling of single-threaded histories; the reference model and the squad interpolation of the quaternion library are trusted."),
    "P16": ("exploration", SIM + "thread interleavings at source-line granularity and allocation failures, compared bitwise with sequential results",
            "Pre-emption only between Python source lines of the package and anytree; numerical C code is atomic."),
    "P17": ("fault_enumeration", "deterministic simulation of the import environment: dependencies hidden or failing at import, then restored, in fresh interpreters",
            "Single faults and pairs enumerated, larger subsets sampled by seed."),
}
NA = {
    "P30": "Pure function of its arguments: no schedule, clock, fault or history for a simulator to control.",
    "P31": "Pure function of its arguments; what depends on the history of the frame tree is decided with P15.",
    "P32": "Pure numerical estimators without nondeterminism or I/O.",
    "P33": "Pure coordinate conversions without nondeterminism or I/O.",
    "P34": "Pure quaternion algebra without nondeterminism or I/O.",
    "P35": "Pure metadata handling without nondeterminism or I/O; frame attributes after any history of the tree are decided with P15.",
    "P36": "Drawing is a pure function of the arguments; figures involve no schedule, clock or fault.",
}
checks = []
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.exists(os.path.join(V, "props", pid.lower() + ".py")):
        level, tech, note = C[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.py {pid}",
            "thorough_cmd": f"./check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": tech,
            "level": level,
            "level_note": note,
        })
    else:
        na.append({"property": pid, "reason": "Check not built yet."})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "No hooks: every seam is an existing import, LD_PRELOAD or a stub package; the checks import /repo directly.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Replay a violation with ./check.py PXX --replay FILE. VERIF_TIER=thorough runs the deep batch, VERIF_SCALE multiplies the number of runs.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
