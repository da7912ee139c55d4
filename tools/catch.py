"""which checks catch which planted bugs: catch.py [-p PROP] [ID ...]  (scratch copies; nothing is written in /repo or /verif)"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(a):
    sid, prop = a
    d = f"/tmp/catchwork/{sid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree(ROOT, d + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "replays"))
        r = subprocess.run(["git", "apply", f"{ROOT}/seeded/{sid}/patch.diff"], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode:
            return sid, prop, "patch does not apply"
        prop = prop or json.load(open(f"{ROOT}/seeded/{sid}/meta.json"))["property"]
        t = time.time()
        r = subprocess.run(["./check", prop, "quick"], cwd=d + "/verif", capture_output=True, text=True,
                           env=dict(os.environ, COSIPY_REPO=d + "/repo", VERIF_SEED="1"), timeout=1500)
        v = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "INCONCLUSIVE", "ERROR"))]
        return sid, prop, f"rc={r.returncode} {time.time() - t:.0f}s " + " | ".join(x[:160] for x in v[:3])
    except Exception as e:
        return sid, prop, f"{type(e).__name__} {e}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    prop = None
    if a[:1] == ["-p"]:
        prop, a = a[1], a[2:]
    ids = a or sorted(os.listdir(ROOT + "/seeded"))
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, [(i, prop) for i in ids]):
            print(*r, flush=True)
