"""check PROP [quick|thorough]"""
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STRICT = bool(os.environ.get("VT_STRICT"))
NPROC = int(os.environ.get("VT_JOBS", "8"))


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    for k in ("COSIPY_DIR", "PYTHONPATH", "NUMBA_DISABLE_JIT"):
        e.pop(k, None)
    return e


def load_findings():
    """KNOWN_FINDINGS: finding: property=.. harness=.. label=.. params=.. | text"""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=(\S+)\s+(.*)", line)
            if m:
                out.append(dict(property=m[1], harness=m[2], label=m[3], text=m[4].strip()))
    return out


TOK = os.pipe()
END = None      # a quick run stops exploring at this time and reports what is left undecided


def take():
    """wait for a free core (jobserver token)."""
    while True:
        try:
            if os.read(TOK[0], 1):
                return
        except BlockingIOError:
            time.sleep(0.02)


def sub(args, timeout):
    e = env()
    e["VT_TOKENS"] = f"{TOK[0]},{TOK[1]}"
    if END:
        e["VT_END"] = str(END)
    take()
    if END:
        timeout = max(5.0, min(timeout, END + (60 if "worker" in args[0] else 170) - time.time()))
    p = subprocess.Popen([PY] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd="/repo",
                         pass_fds=TOK, start_new_session=True)
    try:
        so, se = p.communicate(timeout=timeout)
        return p.returncode, so, se
    except subprocess.TimeoutExpired:
        return None, "", "timeout"
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        os.write(TOK[1], b"t")


def job(prop, name, idx, tier, tmp, suppress, budget):
    out = os.path.join(tmp, f"{name}.{idx}.{len(suppress)}.json")
    rc, so, se = sub([os.path.join(HERE, "vt", "worker.py"), prop, name, str(idx), tier, out, json.dumps(suppress)], budget)
    try:
        return json.load(open(out))
    except Exception:
        r = dict(prop=prop, harness=name, index=idx, ok=False)
        if se == "timeout":
            r["inconclusive"] = ["time budget exhausted"]
        else:
            r["error"] = f"worker died rc={rc}: {se[-800:]}"
        return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, HERE)
    from vt import api, load
    sys.path.append(load.TOOLS)
    api.load_all()
    hs = api.REG.get(prop)
    if not hs:
        print(f"no harness for {prop}")
        sys.exit(2)
    os.set_blocking(TOK[0], False)
    os.write(TOK[1], b"t" * NPROC)
    global END
    END = t0 + 690 if tier == "quick" else None
    budget = 780 if tier == "quick" else 6 * 3600
    tmp = tempfile.mkdtemp(prefix="vt_")
    findings = [f for f in load_findings() if f["property"] == prop]
    jobs = [(h.name, i) for h in hs.values() if not only or h.name == only
            for i in range(len(h.jobs(tier)))]
    results, known_hits, violations, errors, hard = [], [], [], [], []

    def one(nj):
        name, i = nj
        suppress = []
        while True:
            r = job(prop, name, i, tier, tmp, suppress, budget)
            v = r.get("violation")
            if v:
                f = next((f for f in findings if f["harness"] == name and f["label"] == v["label"]), None)
                # confirm on the genuine build
                h = hs[name]
                spec = dict(prop=prop, harness=name, params=r["params"], inputs=v["inputs"],
                            label=v["label"], detail=v["detail"])
                d = os.path.join(HERE, "replays")
                os.makedirs(d, exist_ok=True)
                p = os.path.join(d, f"{prop}-{name}-{i}-{v['label'].replace('/', '_').replace(' ', '_')}.json")
                with open(p, "w") as fh:
                    json.dump(spec, fh, indent=1)
                rc, so, se = sub([os.path.join(HERE, "vt", "replay.py"), p], 400)
                v["replay"] = p
                v["replay_out"] = (so or "")[-600:]
                v["confirmed"] = rc == 1
                if rc != 1:
                    r["error"] = f"counterexample for {v['label']} not confirmed by the real build (rc={rc}): {v} {se[-400:]}"
                    del r["violation"]
                    return r
                if f:
                    r.setdefault("known", []).append(dict(f=f, v=v))
                    known_hits.append((f, v))
                    suppress = suppress + [v["label"]]
                    continue
            return r

    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(one, jobs))
    # translator validation: witnesses through the genuine build
    val = dict(vectors=0, agreed=0, skipped=0, disagreements=[])
    if not only or True:
        groups = {}
        for r in results:
            if r.get("violation") or not r.get("witness_runs"):
                continue
            h = hs[r["harness"]]
            if not h.validate:
                val["skipped"] += len(r["witness_runs"])
                continue
            ws = [w for w in r["witness_runs"] if not w["invalid"]]
            if h.symconsts:
                ws = ws[:1]
            # one process per set of module constants
            c, g = api.overrides(h, r["params"])
            k = (h.name, json.dumps([c, g], sort_keys=True, default=str), r["index"] if h.symconsts else 0)
            groups.setdefault(k, []).extend((r["params"], w) for w in ws)
        cap = 24 if tier == "quick" else 200
        items = []
        for (name, cs, i), pw in groups.items():
            if pw:
                step = max(1, len(pw) // cap)
                items.append((name, pw[::step][:cap]))

        def batch(it):
            name, pw = it[1]
            p = os.path.join(tmp, f"batch.{it[0]}.json")
            json.dump(dict(prop=prop, harness=name, vectors=[(p_, w["inputs"]) for p_, w in pw]), open(p, "w"))
            rc, so, se = sub([os.path.join(HERE, "vt", "replay.py"), "--batch", p], 600)
            try:
                return name, pw, json.loads(so[so.index("[{"):])
            except Exception:
                return name, pw, se[-600:] or "no output"

        with ThreadPoolExecutor(NPROC) as ex:
            for name, pw, out in ex.map(batch, enumerate(items)):
                if isinstance(out, str):
                    errors.append(f"validation of {name}: {out}")
                    continue
                for (params, w), o in zip(pw, out):
                    val["vectors"] += 1
                    kn = {f["label"] for f in findings if f["harness"] == name}
                    fa = [x for x in w["failed"] if x[0] not in kn]
                    fb = [x for x in o["failed"] if x[0] not in kn]
                    bad = None
                    if o["invalid"]:
                        val["skipped"] += 1
                        continue
                    if [x[0] for x in fa] != [x[0] for x in fb]:
                        bad = f"verdict differs: encoding {fa} real {fb}"
                    else:
                        for k, x in w["obs"].items():
                            y = o["obs"].get(k)
                            if not same(x, y):
                                bad = f"observable {k}: encoding {x} real {y}"
                                break
                    if bad:
                        val["disagreements"].append(dict(harness=name, params=params, inputs=w["inputs"], what=bad))
                    else:
                        val["agreed"] += 1
    for h in hs.values():
        rs = [r for r in results if r["harness"] == h.name]
        if not rs or any(r.get("violation") for r in rs):
            continue
        seen_l = {l for r in rs for l, L in (r.get("labels") or {}).items() if L["witness"]}
        kn = {f["label"] for f, _ in known_hits if f["harness"] == h.name}
        miss = [l for l in h.expect if l not in seen_l | kn]
        late = any("time budget exhausted" in r.get("inconclusive", []) for r in rs)
        if miss and not only:
            (errors if late else hard).append(f"{h.name}: vacuous: assertions never reached: {miss}")
    for d in val["disagreements"]:
        errors.append(f"encoding and real build disagree: {d}")
    for r in results:
        if r.get("error"):
            hard.append(f"{r['harness']}[{r['index']}]: {r['error']}\n{r.get('trace', '')}")
        for x in r.get("inconclusive", []):
            errors.append(f"{r['harness']}[{r['index']}] {r.get('params')}: {x}")
        if r.get("violation"):
            violations.append(r)
    wall = time.time() - t0
    errors = hard + errors
    write_evidence(prop, tier, seed, hs, results, val, known_hits, violations, errors, wall)
    seen = set()
    for f, v in known_hits:
        if (f["harness"], f["label"]) in seen:
            continue
        seen.add((f["harness"], f["label"]))
        print(f"KNOWN-FINDING: property={prop} {f['text']}")
    tot = sum((r.get("stats") or {}).get("prove_q", 0) for r in results)
    print(f"{prop} {tier}: {len(jobs)} harness instances, "
          f"{sum((r.get('stats') or {}).get('paths', 0) for r in results)} paths, {tot} assertion queries, "
          f"validated {val['agreed']}/{val['vectors']} vectors, {wall:.1f}s")
    for e in errors[:20]:
        print("INCONCLUSIVE:", e)
    if violations:
        for r in violations:
            v = r["violation"]
            print(f"  {r['harness']} {r['params']}: {v['label']}: {v['detail']} inputs={v['inputs']}")
        for r in violations[:1]:
            print(f"VIOLATION property={prop} replay={r['violation']['replay']}")
        sys.exit(1)
    if hard or (errors and STRICT):
        sys.exit(2)
    # an undecided query is reported above and in the evidence; everything explored held
    sys.exit(0)


def same(x, y):
    if x == y:
        return True
    try:
        x, y = float(x), float(y)
    except (TypeError, ValueError):
        return str(x) == str(y)
    return (x != x and y != y) or abs(x - y) <= 1e-7 + 1e-7 * max(abs(x), abs(y))


def write_evidence(prop, tier, seed, hs, results, val, known, violations, errors, wall):
    keys = ("paths", "infeasible", "branches", "feas_q", "prove_q", "unsat", "sat", "unknown",
            "exact_eq", "refinements", "solver_s")
    tot = {k: round(sum((r.get("stats") or {}).get(k, 0) for r in results), 3) for k in keys}
    fns = sorted({f for r in results for f in r.get("functions", [])})
    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            samples.append(dict(harness=r["harness"], params=str(r["params"]), **s))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation="Bounded symbolic execution of the real Python source: every feasible path of the listed "
            "functions is executed with SMT variables as inputs and each assertion is discharged by z3 for all input "
            "values within the bounds (floats as exact reals); counterexamples are replayed on the numba-compiled code.",
            functions_encoded=fns,
            bounds={h.name: h.bounds for h in hs.values()},
            environment_stubs={h.name: h.stubs for h in hs.values() if h.stubs},
            paths_explored=tot["paths"], infeasible_prefixes=tot["infeasible"], branch_points=tot["branches"],
            feasibility_queries=tot["feas_q"], assertion_queries=tot["prove_q"], unsat=tot["unsat"], sat=tot["sat"],
            unknown=tot["unknown"], solver_seconds=tot["solver_s"], refinement_lemmas=tot["refinements"],
            evaluations=tot["prove_q"],
            instances=[dict(harness=r["harness"], params=str(r.get("params")), wall_s=round(r.get("wall_s", 0), 1),
                            stats=r.get("stats"),
                            assertions={l: dict(reached=L["reached"], proved=L["proved"])
                                        for l, L in (r.get("labels") or {}).items()}) for r in results],
            reachability_witnesses=sum(1 for r in results for L in (r.get("labels") or {}).values() if L["witness"]),
            translator_validation=val,
            samples=samples[:12] or [dict(note="none")],
            known_findings=[f["text"] for f, _ in known],
            inconclusive=errors[:20],
        ),
        assumptions=sorted({a for h in hs.values() for a in h.assumes} | {
            "IEEE-754 doubles are modelled as exact reals; assertions carry a tolerance and rounding is outside the claim",
            "numba semantics = Python semantics of the decorated source (validated on the witness inputs)"}),
        wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
