"""Defaults shared by the property modules."""

ID = None
LEVEL = "exploration"
SCRATCH = False
TIMEOUT = 60
LISTS = ["ops"]


def boot():
    from sim import boot

    boot.boot()
