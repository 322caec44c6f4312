"""Simulated ipywidgets and IPython display: kernel side plus a browser.

Kernel-side widgets validate and notify like traitlets.  The browser holds
its own copy of every value; values travel between the two as messages with
latency, and ``jslink`` connects values inside the browser only.
"""

import sys
import types

from . import core

LINKS = []  # ((widget, trait), (widget, trait)) linked in the browser
DISPLAYED = []
OUTPUTS = []
LATENCY = [0]


class Layout:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Widget:
    def __init__(self, **kw):
        self._obs = []
        self.layout = kw.pop("layout", None)
        for k, v in kw.items():
            setattr(self, k, v)
        self.front = {}

    def observe(self, handler, names="value", type="change"):
        self._obs.append((handler, names))

    def unobserve(self, handler, names="value", type="change"):
        self._obs = [o for o in self._obs if o[0] != handler]

    def _notify(self, name, old, new):
        for h, names in list(self._obs):
            ns = [names] if isinstance(names, str) else list(names)
            if name in ns or not isinstance(names, str) and "All" in map(str, ns):
                h(types.SimpleNamespace(name=name, old=old, new=new, owner=self, type="change"))


class _BoundedInt(Widget):
    def __init__(self, value=None, min=0, max=100, step=1, **kw):
        self.min, self.max, self.step = min, max, step
        self._value = 0
        super().__init__(**kw)
        v = min if value is None else value
        self._value = self._clamp(self._int(v))
        self.front["value"] = self._value

    @staticmethod
    def _int(v):
        import numbers

        if isinstance(v, bool) or not isinstance(v, numbers.Integral):
            raise TypeError(f"The 'value' trait expected an int, not {v!r}")
        return int(v)

    def _clamp(self, v):
        return min(max(v, self.min), self.max)

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        v = self._clamp(self._int(v))
        old = self._value
        if v == old:
            return
        self._value = v
        to_front(self, v)
        self._notify("value", old, v)


class IntSlider(_BoundedInt):
    pass


class BoundedIntText(_BoundedInt):
    pass


class IntText(_BoundedInt):
    def _clamp(self, v):
        return v


class Play(_BoundedInt):
    def __init__(self, interval=100, **kw):
        self.interval = interval
        self.playing = False
        self.repeat = False
        super().__init__(**kw)


class Button(Widget):
    def __init__(self, **kw):
        super().__init__(**kw)
        self._click = []

    def on_click(self, cb, remove=False):
        if remove:
            self._click.remove(cb)
        else:
            self._click.append(cb)

    def click(self):
        for c in list(self._click):
            c(self)


class HBox(Widget):
    def __init__(self, children=(), **kw):
        super().__init__(**kw)
        self.children = tuple(children)


class VBox(HBox):
    pass


class Output(Widget):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.errors = []
        OUTPUTS.append(self)

    def clear_output(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, Exception):
            self.errors.append(ev)
            if core.SIM:
                core.SIM.log("widget-error", et.__name__)
            return True
        return False


class Label(Widget):
    pass


def interactive_output(f, controls):
    out = Output()

    def observer(change):
        kw = {k: v.value for k, v in controls.items()}
        with out:
            f(**kw)

    for w in controls.values():
        w.observe(observer, "value")
    observer(None)
    return out


class jslink:
    def __init__(self, a, b):
        self.a, self.b = a, b
        LINKS.append((a, b))

    def unlink(self):
        LINKS[:] = [x for x in LINKS if x != (self.a, self.b)]


class link(jslink):
    pass


def jsdlink(a, b):
    return jslink(a, b)


# -- browser -----------------------------------------------------------------------
def to_front(w, v):
    """A kernel-side change reaches the browser."""
    def arrive():
        front_set(w, v, echo=False)

    if LATENCY[0] and core.SIM:
        core.SIM.after(LATENCY[0], arrive)
    else:
        arrive()


def front_set(w, v, echo=True):
    """A value changes in the browser (user, play timer or link)."""
    if w.front.get("value") == v:
        return
    w.front["value"] = v
    if echo:
        PENDING.append((w, v))
    for a, b in LINKS:
        for x, y in ((a, b), (b, a)):
            if x[0] is w:
                o = y[0]
                nv = min(max(v, o.min), o.max)
                front_set(o, nv, echo=True)


PENDING = []  # browser -> kernel messages in order


def flush():
    """The kernel processes the browser's messages."""
    while PENDING:
        w, v = PENDING.pop(0)
        old = w._value
        nv = w._clamp(v)
        if nv != old:
            w._value = nv
            w._notify("value", old, nv)
        if nv != v:
            to_front(w, nv)


def play_tick(p):
    """One tick of a running Play control; False when it stops."""
    v = p.front["value"] + p.step
    if v <= p.max:
        front_set(p, v)
        return True
    if p.repeat:
        front_set(p, p.min)
        return True
    return False


def display(*objs, **kw):
    DISPLAYED.extend(objs)


def install():
    def mod(name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        sys.modules[name] = m
        if "." in name:
            p, leaf = name.rsplit(".", 1)
            setattr(sys.modules[p], leaf, m)
        return m

    names = dict(
        IntSlider=IntSlider, Button=Button, Play=Play, HBox=HBox, VBox=VBox,
        Layout=Layout, Output=Output, Label=Label, jslink=jslink, jsdlink=jsdlink,
        link=link, interactive_output=interactive_output, IntText=IntText,
        BoundedIntText=BoundedIntText, Widget=Widget,
    )
    mod("ipywidgets", **names)
    mod("ipywidgets.widgets", **names)
    mod("IPython", display=None)
    mod("IPython.core")
    mod("IPython.core.display", display=display)
    mod("IPython.display", display=display)
    mod("IPython.core.display_functions", display=display)
