"""Optional dependencies that are missing, broken or come back, per run.

Real third-party packages are found by the interpreter's own finders, ROS and
notebook packages are the simulator's; whether an import succeeds is decided
here.
"""

import importlib.abc
import importlib.machinery
import sys
import types

STUBS = ["PyKDL", "rospy", "rosbag", "roslaunch", "tf2_ros", "tf2_geometry_msgs", "tf", "geometry_msgs",
         "std_msgs", "visualization_msgs", "IPython", "ipywidgets", "jupyros", "rospkg"]
LIBS = ["pandas", "xarray", "netCDF4", "pooch", "matplotlib", "mpl_toolkits"]
DEPS = STUBS + LIBS
# modules that may be absent although their package is there
PARTS = {
    "matplotlib": ["matplotlib.pyplot", "matplotlib.patches"],
    "mpl_toolkits": ["mpl_toolkits.mplot3d"],
    "tf": ["tf.msg"],
    "geometry_msgs": ["geometry_msgs.msg"],
    "visualization_msgs": ["visualization_msgs.msg"],
    "std_msgs": ["std_msgs.msg"],
    "IPython": ["IPython.core.display"],
    "jupyros": ["jupyros.ros3d"],
    "pandas": ["pandas._libs"],
    "xarray": ["xarray.core.dataset"],
    "netCDF4": ["netCDF4._netCDF4"],
}
# what importing a module needs besides its own package
ALSO = {
    "xarray": ["pandas"],
    "tf2_geometry_msgs": ["PyKDL"],
    "mpl_toolkits.mplot3d": ["matplotlib.pyplot", "matplotlib.patches"],
    "matplotlib.pyplot": ["matplotlib"],
}

STORE = {}  # simulated modules by name
STATE = {}  # package -> "missing" | "broken" | ["partial", module]; absent: fine
FLAKY = [None, None]  # imports left until one fails, the module it failed for


def blocked(name):
    top = name.partition(".")[0]
    st = STATE.get(top)
    if st is None:
        return None
    if isinstance(st, list):
        return "missing" if name == st[1] or name.startswith(st[1] + ".") else None
    # what is already loaded does not go away
    return st if name == top else None


def importable(name):
    """Whether an import of this module must succeed now."""
    if name in sys.modules:
        return True
    if name == "PyKDL" and "matplotlib" in sys.modules:
        return False
    parts = name.split(".")
    for i in range(1, len(parts) + 1):
        n = ".".join(parts[:i])
        if n not in sys.modules and blocked(n):
            return False
        st = STATE.get(parts[0])
        if n not in sys.modules and isinstance(st, list) and parts[0] in LIBS and st[1] in (
                "pandas._libs", "xarray.core.dataset", "netCDF4._netCDF4"):
            return False  # imported by its package
        if n not in sys.modules and not all(importable(m) for m in ALSO.get(n, [])):
            return False
    return True


class _Stub(importlib.abc.Loader):
    def create_module(self, spec):
        return STORE[spec.name]

    def exec_module(self, module):
        if module.__name__ == "PyKDL" and "matplotlib" in sys.modules:
            raise ImportError("PyKDL: cannot be loaded after matplotlib")
        if module.__name__ == "tf2_geometry_msgs":
            import PyKDL  # noqa


class _Broken(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise ImportError(f"{module.__name__}: cannot open shared object file")


class Finder:
    def __init__(self, finders):
        self.finders = finders

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top in DEPS:
            b = blocked(name)
            if b is None and name == top and FLAKY[0] is not None:
                FLAKY[0] -= 1
                if FLAKY[0] == 0:
                    FLAKY[:] = [None, name]
                    b = "broken"
            if b == "missing":
                return None
            if b == "broken":
                return importlib.machinery.ModuleSpec(name, _Broken())
            if top in STUBS:
                if name not in STORE:
                    return None
                pkg = any(n.startswith(name + ".") for n in STORE)
                return importlib.machinery.ModuleSpec(name, _Stub(), is_package=pkg)
        for f in self.finders:
            spec = f.find_spec(name, path, target)
            if spec is not None:
                return spec
        return None

    def find_distributions(self, context=None):
        for f in self.finders:
            if hasattr(f, "find_distributions"):
                yield from f.find_distributions(*([] if context is None else [context]))

    def invalidate_caches(self):
        for f in self.finders:
            getattr(f, "invalidate_caches", lambda: None)()


def install():
    """Put the simulated packages behind the finder."""
    from . import ros, widgets

    before = set(sys.modules)
    ros.install()
    widgets.install()
    for n in set(sys.modules) - before:
        if n.partition(".")[0] in STUBS + ["genpy", "rosgraph", "nav_msgs", "tf2_msgs", "sensor_msgs"]:
            m = sys.modules.pop(n)
            STORE[n] = m
            m.__dict__.pop("__spec__", None)
    STORE["IPython"].get_ipython = lambda: None
    STORE["IPython"].version_info = (8, 24, 0, "")
    STORE["PyKDL"] = types.ModuleType("PyKDL")
    ros3d = types.ModuleType("jupyros.ros3d")
    for k in ("ROSConnection", "TFClient", "Marker", "Viewer"):
        setattr(ros3d, k, type(k, (), {"__init__": lambda self, **kw: self.__dict__.update(kw)}))
    STORE["jupyros"] = types.ModuleType("jupyros")
    STORE["jupyros.ros3d"] = ros3d
    for n in STORE:
        # submodules become attributes when they are imported
        if n.endswith(".msg") or n in ("jupyros.ros3d", "IPython.core.display"):
            p, leaf = n.rsplit(".", 1)
            STORE[p].__dict__.pop(leaf, None)
    for n in STORE:
        if n.partition(".")[0] not in STUBS:
            sys.modules[n] = STORE[n]  # comes with every ROS installation
    sys.meta_path[:] = [Finder(list(sys.meta_path))]
