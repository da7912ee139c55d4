"""Build and confirm planted bugs: mkseed.py [ID ...]   (specs in tools/seeds_*.py; output in /verif/seeded)

For each spec: scratch copy of /repo, apply the edits, write patch.diff/demo.sh/demo.py/meta.json, run the demo with and
without the change, run build and stable tests with it.  Only confirmed seeds stay."""
import concurrent.futures as cf
import glob
import importlib
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PRE = """import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.argv = sys.argv[:1]
import numpy as np
"""
SH = """#!/bin/bash
# cwd: the repository
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def one(s):
    sid = s["id"]
    d = f"/tmp/seedwork/{sid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    r = d + "/repo"
    out = os.path.join(d, "seed")
    os.makedirs(out)
    try:
        with open(out + "/demo.py", "w") as f:
            f.write(PRE + s["demo"].strip("\n") + "\n")
        with open(out + "/demo.sh", "w") as f:
            f.write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        base = sh(f"bash {out}/demo.sh", r)
        if base.returncode:
            return sid, "demo fails on the unchanged tree: " + (base.stdout + base.stderr)[-600:]
        for file, old, new in s["edits"]:
            p = os.path.join(r, file)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, f"{file}: {t.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", r).stdout
        with open(out + "/patch.diff", "w") as f:
            f.write(diff)
        with open(out + "/meta.json", "w") as f:
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
        dm = sh(f"bash {out}/demo.sh", r)
        if dm.returncode == 0:
            return sid, "demo passes with the change"
        msg = (dm.stdout + dm.stderr).strip().splitlines()[-1:]
        x = f"{d}/junit.xml"
        sh(f". /opt/vp/env.sh; export PYTHONDONTWRITEBYTECODE=1; /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
           f"--timeout=300 -o junit_family=xunit2 --junitxml={x}", r, 900)
        t = open(x).read()
        bad = []
        import xml.etree.ElementTree as ET
        for c in ET.parse(x).getroot().iter("testcase"):
            if any(e.tag in ("failure", "error") for e in c):
                bad.append((c.get("classname"), c.get("name")))
        if bad:
            return sid, f"tests fail: {bad[:4]}"
        dst = os.path.join(ROOT, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return sid, f"OK ({msg[0][:100] if msg else ''})"
    except Exception as e:
        return sid, f"{type(e).__name__}: {e}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    specs = []
    for f in sorted(glob.glob(HERE + "/seeds_*.py")):
        specs += importlib.import_module(os.path.basename(f)[:-3]).S
    want = sys.argv[1:]
    if want:
        specs = [s for s in specs if s["id"] in want]
    else:
        specs = [s for s in specs if not os.path.exists(os.path.join(ROOT, "seeded", s["id"]))]
    with cf.ThreadPoolExecutor(6) as ex:
        for sid, m in ex.map(one, specs):
            print(sid, m, flush=True)
