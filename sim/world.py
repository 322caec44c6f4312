"""Frame trees: the real package and the reference model in lock-step."""

import gc
import weakref

import numpy as np

from . import core, model
from .core import Violation


def rbm():
    import rigid_body_motion

    return rigid_body_motion


class World:
    def __init__(self, seed, ctx=None):
        self.seed = seed
        self.ctx = ctx
        self.mods = {}  # id -> MFrame
        self.refs = {}  # id -> weakref to the real frame
        self.held = {}  # id -> strong reference
        self.reg = {}  # name -> id, as the model sees it
        self.snaps = {}  # id -> bytes of the frame's arrays

    # -- helpers -------------------------------------------------------------
    def real(self, k):
        r = self.held.get(k)
        if r is None:
            w = self.refs.get(k)
            r = w() if w else None
        return r

    def ids_alive(self):
        return [k for k in self.mods if self.refs.get(k) and self.refs[k]() is not None]

    def usable(self):
        """ids the workload can get hold of: held or registered."""
        return sorted(set(self.held) | set(self.reg.values()))

    def resolve(self, ref):
        """('obj', k) | ('name', n) -> id or None."""
        if ref is None:
            return None
        if ref[0] == "obj":
            return ref[1] if ref[1] in self.held else None
        return self.reg.get(ref[1])

    def arg(self, ref):
        if ref is None:
            return None
        return self.held[ref[1]] if ref[0] == "obj" else ref[1]

    def snap(self, k):
        r = self.real(k)
        return tuple(
            None if a is None else np.asarray(a).tobytes()
            for a in (r.translation, r.rotation, r.timestamps)
        )

    # -- model operations ------------------------------------------------------
    def m_add(self, k, f, parent_id, args):
        self.mods[k] = model.MFrame(
            f, args, self.mods[parent_id] if parent_id is not None else None
        )

    def m_register(self, k, update):
        """Model result of registering: True or False (error)."""
        name = self.mods[k].name
        if name is None:
            return False
        if name in self.reg:
            if not update:
                return False
            old = self.reg[name]
            if old != k:
                self.mods[old].parent = None
        self.reg[name] = k
        return True

    # -- state comparison --------------------------------------------------------
    def children(self, k):
        m = self.mods[k]
        return [j for j, x in self.mods.items() if x.parent is m]

    def component(self, k):
        seen, todo = set(), [k]
        idx = {id(m): j for j, m in self.mods.items()}
        while todo:
            j = todo.pop()
            if j in seen:
                continue
            seen.add(j)
            p = self.mods[j].parent
            if p is not None:
                todo.append(idx[id(p)])
            todo.extend(self.children(j))
        return seen

    def check_state(self, cls, where):
        R = rbm()
        got = dict(R.registry)
        if set(got) != set(self.reg):
            raise Violation(
                cls, f"{where}: registry holds {sorted(map(str, got))}, expected {sorted(map(str, self.reg))}"
            )
        for n, k in self.reg.items():
            if got[n] is not self.real(k):
                raise Violation(cls, f"{where}: registry[{n!r}] is not frame {k}")
            if got[n].name != n:
                raise Violation(cls, f"{where}: registry[{n!r}] is named {got[n].name!r}")
        idx = {id(m): j for j, m in self.mods.items()}
        must = set()
        for k in self.usable():
            if k not in must:
                must |= self.component(k)
        for k in sorted(must):
            r = self.real(k)
            if r is None:
                raise Violation(cls, f"{where}: frame {k} vanished")
            p = self.mods[k].parent
            want = self.real(idx[id(p)]) if p is not None else None
            if r.parent is not want:
                raise Violation(
                    cls, f"{where}: parent of frame {k} ({r.name}) is {r.parent!r}, expected {want!r}"
                )
            kids = [self.real(j) for j in self.children(k)]
            have = list(r.children)
            if len(have) != len(kids) or {id(x) for x in have} != {id(x) for x in kids}:
                raise Violation(
                    cls, f"{where}: children of frame {k} ({r.name}) are {have}, expected {kids}"
                )
            if k in self.snaps and self.snap(k) != self.snaps[k]:
                raise Violation(cls, f"{where}: arrays of frame {k} changed")

    # -- real operations -----------------------------------------------------------
    def adopt(self, k, real, hold):
        self.refs[k] = weakref.ref(real)
        if hold:
            self.held[k] = real
        self.snaps[k] = self.snap(k)

    def construct(self, op):
        """('new', k, f, parent_ref, via, update): the real call as a thunk."""
        _, k, f, pref, via, update = op
        R = rbm()
        args = model.frame_args(self.seed, f)
        parent = self.arg(pref)
        if via == "ctor":
            def call():
                return R.ReferenceFrame(f["name"], parent, **args)
        elif via == "dataset":
            ds = self.as_dataset(args)

            def call():
                return R.ReferenceFrame.from_dataset(
                    ds, "position", "orientation", "time", parent,
                    name=f["name"], inverse=bool(args.get("inverse")),
                    discrete=bool(args.get("discrete")),
                )
        elif via == "dataarray":
            # only one of both is known
            kind = "translation" if f.get("no_r") else "rotation"
            dims = ("time", "cartesian_axis" if f.get("no_r") else "quaternion_axis")
            da = xr_array(args[kind], dims, args["timestamps"])
            make = getattr(R.ReferenceFrame, f"from_{kind}_dataarray")

            def call():
                return make(
                    da, "time", parent, name=f["name"],
                    inverse=bool(args.get("inverse")), discrete=bool(args.get("discrete")),
                )
        elif via == "matrix":
            mat = model.rot(args["rotation"], np.eye(3)).T

            def call():
                return R.ReferenceFrame.from_rotation_matrix(
                    mat, parent, name=f["name"], inverse=bool(args.get("inverse"))
                )
        elif via == "lists":
            plain = {k: v.tolist() if isinstance(v, np.ndarray) and k != "timestamps" else v for k, v in args.items()}

            def call():
                return R.ReferenceFrame(f["name"], parent=parent, **plain)
        else:
            def call():
                R.register_frame(f["name"], parent, **({"update": True} if update else {}), **args)
                return None
        return call, args

    @staticmethod
    def as_dataset(args):
        import xarray as xr

        n = len(args["timestamps"])
        t = args.get("translation", np.zeros((n, 3)))
        q = args.get("rotation")
        if q is None:
            q = np.zeros((n, 4))
            q[:, 0] = 1
        return xr.Dataset(
            {
                "position": (["time", "cartesian_axis"], t),
                "orientation": (["time", "quaternion_axis"], q),
            },
            {"time": args["timestamps"]},
        )


def xr_array(data, dims, ts):
    import xarray as xr

    return xr.DataArray(data, {"time": ts}, dims)


def gc_collect():
    gc.collect()


def in_sim(sched, main, ctx, watch=(), **kw):
    """Run main() as thread 0 of a simulation; raises what main raises."""
    s = core.Sim(sched, **kw)
    s.watch = watch
    return s, s.run(main)
