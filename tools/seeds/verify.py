"""verify.py [--nocheck] [ID...]: confirm each planted bug in a scratch copy of /repo.

The stable tests still pass, the demonstration tells the two apart, and
whether the property's check catches it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def tests(d):
    """Stable tests that do not pass in this copy."""
    out = os.path.join(d, ".out.xml")
    env = dict(os.environ, PYTHONPATH=d, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x" if 0 else "-q", f"--junitxml={out}", "tests"],
                   cwd=d, env=env, capture_output=True, timeout=900)
    import xml.etree.ElementTree as ET

    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            ok.add(f"{c.get('classname')}::{c.get('name')}")
    os.unlink(out)
    return ok


def demo(folder, d):
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "laid-elsewhere")
        shutil.copytree(folder, f, ignore=shutil.ignore_patterns("*.diff", "meta.json", "__pycache__"))
        r = subprocess.run(["bash", os.path.join(f, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-300:]


def one(name, ref):
    folder = os.path.join(SEEDED, name)
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        a, ao = demo(folder, d)
        subprocess.run(["git", "-C", d, "apply", os.path.join(folder, "patch.diff")], check=True)
        b, bo = demo(folder, d)
        lost = sorted(ref - tests(d))
        return name, a == 0 and b != 0 and not lost, a, b, (ao if a else bo), lost[:3]
    finally:
        shutil.rmtree(d)


def check(name):
    folder = os.path.join(SEEDED, name)
    prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
    r = subprocess.run([os.path.join(ROOT, "tools", "try.sh"), os.path.join(folder, "patch.diff"), prop],
                       capture_output=True, text=True, timeout=1800)
    return (r.stdout + r.stderr)[-400:]


def main():
    args = sys.argv[1:]
    nocheck = "--nocheck" in args
    nodemo = "--nodemo" in args
    names = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    good = names
    if not nodemo:
        d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        ref = tests(d)
        shutil.rmtree(d)
        print("reference:", len(ref), "tests", flush=True)
        good = []
        with ThreadPoolExecutor(4) as ex:
            for n, ok, a, b, o, lost in ex.map(lambda n: one(n, ref), names):
                print(("ok  " if ok else "BAD "), n, "demo", a, b, "" if ok else f"lost {lost} out {o}", "|", o.strip().splitlines()[-1][:150] if o.strip() else "", flush=True)
                if ok:
                    good.append(n)
    if not nocheck:
        for n in good:
            print(check(n).strip().replace("\n", " | ")[:420], flush=True)


main()
