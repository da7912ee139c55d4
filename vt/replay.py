"""Run a harness on concrete inputs against the genuine, numba-compiled code.

    replay.py FILE.json     exit 1 if an assertion fails, 0 if all hold
    replay.py --batch FILE  many input vectors (translator validation)
"""
import contextlib
import io
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    batch = sys.argv[1] == "--batch"
    path = os.path.abspath(sys.argv[-1])
    sys.argv = sys.argv[:1]
    sys.path.insert(0, HERE)
    with open(path) as f:
        spec = json.load(f)
    from vt import api, load
    sys.path.append(load.TOOLS)
    from vt import engine
    api.load_all()
    h = api.REG[spec["prop"]][spec["harness"]]
    vecs = spec["vectors"] if batch else [(spec["params"], spec["inputs"])]
    c, g = api.overrides(h, vecs[0][0])
    M = load.Modules("real", c, g, h.symconsts, vecs[0][1])
    out = []
    for params, v in vecs:
        pl = api.plain(params)
        with contextlib.redirect_stdout(io.StringIO()):
            r = engine.replay_inprocess(lambda cx: h.fn(cx, M, **pl), v)
        out.append(dict(inputs=v, failed=r.failed, invalid=r.invalid, checked=r.checked,
                        obs=getattr(r, "obs", {})))
    if batch:
        json.dump(out, sys.stdout, default=str)
        sys.stdout.flush()
        os._exit(0)
    r = out[0]
    print("inputs:", json.dumps(r["inputs"]))
    for lab, msg in r["failed"]:
        print(f"FAILED {lab}: {msg}")
    if r["invalid"]:
        print("not a valid input:", r["invalid"])
    print("assertions:", r["checked"])
    sys.stdout.flush()
    os._exit(1 if r["failed"] else 0)


if __name__ == "__main__":
    main()
