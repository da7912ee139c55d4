"""run a list of small mutations through the checks in scratch copies (nothing is written in /repo or /verif):
mutants.py FILE [ID ...]; FILE defines M = [(id, prop, path, old, new[, nth])] or [(id, prop, [(path, old, new), ...])]"""
import concurrent.futures as cf
import os
import runpy
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = int(os.environ.get("MUT_JOBS", "2"))


def one(m):
    mid, prop = m[:2]
    edits = m[2] if isinstance(m[2], list) else [m[2:]]
    d = f"/tmp/mutwork/{os.getpid()}/{mid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(ROOT, d + "/verif", symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "replays"))
        for e in edits:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = f"{d}/repo/{f}"
            s = open(p).read()
            c = s.count(old)
            if c == 0 or (c > 1 and nth is None):
                return mid, prop, f"BAD EDIT count={c}"
            parts = s.split(old)
            k = nth or 0
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            compile(s, p, "exec") if f.endswith(".py") else None
            open(p, "w").write(s)
        out = []
        for pr in prop.split(","):
            t = time.time()
            r = subprocess.run(["./check", pr, "quick"], cwd=d + "/verif", capture_output=True, text=True,
                               env=dict(os.environ, COSIPY_REPO=d + "/repo", VERIF_SEED="1"), timeout=1500)
            v = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "INCONCLUSIVE", "ERROR"))]
            out.append(f"{pr}: rc={r.returncode} {time.time() - t:.0f}s " + " | ".join(x[:140] for x in v[:2]))
        return mid, prop, " ## ".join(out)
    except Exception as e:
        return mid, prop, f"{type(e).__name__} {e}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    M = runpy.run_path(sys.argv[1])["M"]
    ids = sys.argv[2:]
    with cf.ThreadPoolExecutor(N) as ex:
        for r in ex.map(one, [m for m in M if not ids or m[0] in ids]):
            print(*r, flush=True)
