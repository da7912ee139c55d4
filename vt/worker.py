"""One harness instance, symbolically:  worker.py PROP HARNESS INDEX TIER OUT"""
import contextlib
import io
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    prop, name, idx, tier, out = sys.argv[1:6]
    suppress = json.loads(sys.argv[6]) if len(sys.argv) > 6 else []
    sys.argv = sys.argv[:1]
    sys.path.insert(0, HERE)
    from vt import load
    sys.path.append(load.TOOLS)
    lim = int(os.environ.get("VT_MEM_GB", "5")) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim * 2, lim * 2))
    t0 = time.time()
    res = dict(prop=prop, harness=name, index=int(idx), ok=False)
    from vt import api, engine
    api.load_all()
    h = api.REG[prop][name]
    params = h.jobs(tier)[int(idx)]
    res["params"] = {k: v for k, v in params.items()}
    c, g = api.overrides(h, params)
    pl = api.plain(params)
    fns = {}
    try:
        M = load.Modules("sym", c, g, h.symconsts)
        opts = dict(h.opts)
        if tier == "thorough":
            opts["t_prove"] = tuple(3 * x for x in opts.get("t_prove", (3000, 20000, 60000)))
            opts["budget"] = opts.get("budget_thorough", 3000)
        ex = engine.Explorer(opts)
        ex.suppress = set(suppress)
        tk = os.environ.get("VT_TOKENS")
        if tk:
            ex.tokens = tuple(int(x) for x in tk.split(","))
            os.set_blocking(ex.tokens[0], False)
            ex.outbase = out
        ex.fns = lambda: sorted(fns)
        devnull = io.StringIO()

        def body(cx):
            if cx.symbolic:
                M.declare(cx)
                n = cx.stats["paths"] + cx.stats["infeasible"]
                if n < 3:
                    sys.setprofile(prof)
                try:
                    with contextlib.redirect_stdout(devnull):
                        h.fn(cx, M, **pl)
                finally:
                    sys.setprofile(None)
                    devnull.seek(0)
                    devnull.truncate()
            else:
                old = sys.getprofile()
                sys.setprofile(None)
                with M.swap_consts(cx.vals), contextlib.redirect_stdout(devnull):
                    h.fn(cx, M, **pl)
                sys.setprofile(old)

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(load.REPO):
                    key = f"{os.path.relpath(co.co_filename, load.REPO)}:{co.co_qualname}"
                    fns[key] = fns.get(key, 0) + 1

        try:
            ex.run(body)
        except engine.Violation as v:
            res["violation"] = v.info
            ex.kill_children()
        res["stats"] = ex.stats
        res["labels"] = ex.labels
        res["inconclusive"] = sorted(set(ex.inconclusive))
        res["samples"] = ex.samples
        res["inputs"] = sorted(ex.decl)
        # concrete executions of the encoded source at the witnesses
        wit = {json.dumps(v, sort_keys=True): v for v in ex.vectors}
        for lab, L in ex.labels.items():
            w = L["witness"]
            if isinstance(w, dict):
                wit[json.dumps(w, sort_keys=True)] = w
        ws = list(wit.values())[:10]
        res["witness_runs"] = []
        for w in ws:
            r = engine.replay_inprocess(body, w)
            res["witness_runs"].append(dict(inputs=w, invalid=r.invalid, failed=r.failed,
                                            obs=getattr(r, "obs", {})))
            found(ex, r)
        import random
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        t_rng = time.time()
        for k in range(200):     # non-vacuity only: any concrete input that reaches the assertion
            if k >= 40 and time.time() - t_rng > 20 or "violation" in res or all(L["witness"] is not None for L in ex.labels.values()):
                break
            found(ex, engine.replay_inprocess(body, {}, rng))
        if "violation" not in res:
            for lab, L in ex.labels.items():
                if L["witness"] is None and lab in h.expect:
                    res["inconclusive"].append(f"vacuous: no witness input reaches '{lab}'")
            if not ex.labels and not ex.suppress:
                res["inconclusive"].append("vacuous: no assertion reached")
        res["ok"] = True
    except BaseException as e:
        res["error"] = f"{type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-3000:]
    res["functions"] = sorted(set(fns) | (ex.more_fns if "ex" in locals() else set()))
    res["wall_s"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(res, f, default=str)
    os._exit(0)


def found(ex, r):
    if r.invalid:
        return
    for lab, L in ex.labels.items():
        if L["witness"] is None and lab in r.checked:
            L["witness"] = dict(r.vals)


if __name__ == "__main__":
    main()
