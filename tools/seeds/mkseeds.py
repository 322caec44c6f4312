"""Write /verif/seeded/<id>/ from the definitions in bugs.py."""
import difflib
import json
import os
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "..", "seeded")
sys.path.insert(0, HERE)
from bugs import BUGS  # noqa

DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_DISABLE_JIT=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def main(only=()):
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(OUT, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        files = {}
        for f, old, new in b["edits"]:
            p = os.path.join("/repo/rigid_body_motion", f)
            s = files.get(f) or open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{b['id']}: {s.count(old)} matches in {f} of\n{old}")
            files[f] = s.replace(old, new)
        diff = ""
        for f, s in files.items():
            o = open(os.path.join("/repo/rigid_body_motion", f)).read()
            n = "rigid_body_motion/" + f
            diff += "".join(difflib.unified_diff(o.splitlines(1), s.splitlines(1), "a/" + n, "b/" + n))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        ros = b.get("ros")
        head = "import os\nimport sys\n\nassert os.path.isdir('rigid_body_motion')\nsys.path.insert(0, os.getcwd())\n"
        if ros:
            head += "sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport fakeros\n\nrospy = fakeros.install()\n"
            shutil.copy(os.path.join(HERE, "fakeros.py"), d)
        open(os.path.join(d, "demo.py"), "w").write(head + b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)


main(sys.argv[1:])
