"""Import order: third-party libraries, simulated seams, package under test."""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "rigid_body_motion")


def boot(ros=True, widgets=True):
    """Load everything a run may need; runs are forked from this state."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    import warnings

    import anytree  # noqa
    import numpy  # noqa
    import quaternion  # noqa
    import scipy.interpolate  # noqa
    import scipy.signal  # noqa
    import pandas  # noqa
    import xarray  # noqa
    import netCDF4  # noqa
    import pooch  # noqa
    import requests  # noqa
    import xarray.backends.netCDF4_  # noqa
    import concurrent.futures.thread  # noqa
    import logging, queue, tempfile, uuid, shutil, hashlib  # noqa
    import matplotlib.pyplot  # noqa

    warnings.simplefilter("ignore")

    from . import patch

    patch.install()
    if ros:
        from . import ros as simros

        simros.install()
    if widgets:
        from . import widgets as simwidgets

        simwidgets.install()

    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import rigid_body_motion

    got = os.path.dirname(os.path.realpath(rigid_body_motion.__file__))
    if got != PKG:
        raise RuntimeError(f"wrong package under test: {got}")
    import importlib
    import pkgutil

    for m in pkgutil.walk_packages(
        rigid_body_motion.__path__, "rigid_body_motion."
    ):
        if m.name.endswith("check_install"):
            continue
        importlib.import_module(m.name)
    return rigid_body_motion
