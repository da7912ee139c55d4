"""C23 initial column, C33 configuration, C34 sample configuration files, C35 stake evaluation, C32 WRF forcing."""
import builtins
import os
import pathlib
import shutil
import sys
import tempfile
import tomllib
import types

import numpy as np
import pandas as pd
import xarray as xr

from vt import sym
from vt.api import harness
from vt.sym import is_sym
from harness._common import *
from harness.timeloop import Patch, Seb, column, forcing, isnan, run, val, vec
from harness.runio import Proxy, XrStub, osym, same

MELT = 273.16


def zero_d(x):
    a = np.empty((), dtype=object if is_sym(x) else float)
    a[()] = x
    return a


# --- C23 -------------------------------------------------------------------
@harness("C23", params=[dict(case="wrf", glacier=2.0), dict(case="constant", glacier=2.0), dict(case="rho", glacier=1.0), dict(case="nan", glacier=2.0)],
         thorough=[dict(case="wrf", glacier=40.0), dict(case="constant", glacier=40.0), dict(case="rho", glacier=1.0, hi=30.0)],
         bounds="any initial snow height 0-1.2 m (from the data or the constants file, or missing), any air temperature 220-300 K, any pair of top and "
                "bottom snow densities 150-600 kg/m3 in increasing order; glacier of 1-2 m (thorough 40 m) in layers of 0.5 m",
         expect=["snow-height", "total-height", "dry", "no-warmer-than-melt", "linear-temperature", "snow-density", "glacier-ice"])
def initial(cx, M, case, glacier, hi=1.2):
    C = M.Constants
    T2 = cx.real("T2", 220.0, 300.0)
    h = cx.real("snow", 0.0, hi) if case != "nan" else float("nan")
    rt, rb = 250.0, 350.0
    if case == "rho":
        rt, rb = cx.real("rho_top", 150.0, 600.0), cx.real("rho_bottom", 150.0, 600.0)
        cx.assume(rt <= rb)
    hc = 0.2 if case != "constant" else h
    ds = forcing(2, T2=vec([T2, 250.0]))
    if case != "constant":
        ds["SNOWHEIGHT"] = ((), zero_d(h))
    dg = C.initial_glacier_layer_heights
    bot = C.temperature_bottom
    with Patch(C, initial_snowheight_constant=hc, initial_glacier_height=glacier, initial_top_density_snowpack=rt,
               initial_bottom_density_snowpack=rb):
        g = M.init.init_snowpack(ds)
    H, T, W, R = list(g.get_height()), list(g.get_temperature()), list(g.get_liquid_water_content()), list(g.get_density())
    if case == "nan":
        h = 0.0
    ng = int(round(glacier / dg))
    ns = len(H) - ng
    cx.check("snow-height", ns >= 0)
    if ns < 0:
        return
    cx.check("snow-height", (h > 0) if ns else (h <= 0))
    cx.close("snow-height", total(H[:ns]), h)
    cx.close("total-height", total(H), h + glacier)
    for i in range(len(H)):
        cx.check("dry", (W[i] <= 0) & (W[i] >= 0))
    top = T2 if T2 <= C.zero_temperature else C.zero_temperature
    tot = h + glacier
    d = top - bot
    lo, hi_ = (bot, top) if d >= 0 else (top, bot)
    eps = 1e-7
    cx.check_all("no-warmer-than-melt", [t <= MELT + eps for t in T])
    cx.check_all("linear-temperature", [(t >= lo - eps) & (t <= hi_ + eps) for t in T])
    for i in range(len(H) - 1):
        cx.close("linear-temperature", (T[i] - T[i + 1]) * tot, d * H[i + 1], tol=1e-6)
    e0 = (top - T[0]) * tot
    cx.check("linear-temperature", ((e0 >= -eps) & (e0 <= d * H[0] + eps)) if d >= 0 else ((e0 <= eps) & (e0 >= d * H[0] - eps)))
    cx.check_all("snow-density", [(R[i] >= rt - 0.01) & (R[i] <= rb + 0.01) for i in range(ns)]
                 + [R[i] <= R[i + 1] + 1e-7 for i in range(ns - 1)])
    cx.check_all("glacier-ice", [(R[i] >= C.ice_density - 0.01) & (R[i] <= C.ice_density + 0.01) for i in range(ns, len(H))])
    cx.observe("n", len(H))
    for i in (0, len(H) - 1):
        cx.observe("T", T[i]), cx.observe("rho", R[i])


# --- C33 -------------------------------------------------------------------
def eq(a, b):
    if isinstance(a, sym.SymBool) or isinstance(b, sym.SymBool):
        if not isinstance(a, (bool, sym.SymBool)) or not isinstance(b, (bool, sym.SymBool)):
            return False
        if a is b:
            return True
        return bool(a) == bool(b)
    if is_sym(a) or is_sym(b):
        if any(isinstance(x, (str, bool, type(None), list)) for x in (a, b)):
            return False
        return (a <= b) & (a >= b)
    return type(a) is type(b) and a == b


def symbolise(cx, table, p, keep=()):
    """the parsed file with every number and switch arbitrary (and its texts as in the file)."""
    out = {}
    for head, t in table.items():
        out[head] = {}
        for k, v in t.items():
            if k in keep:
                out[head][k] = keep[k]
            elif isinstance(v, bool):
                out[head][k] = cx.boolean(p + k)
            elif isinstance(v, (int, float)):
                out[head][k] = cx.real(p + k, -1e6, 1e6)
            elif isinstance(v, str):
                out[head][k] = p + v
            else:
                out[head][k] = v
    return out


def parsed(M, name):
    with open(os.path.join(os.path.dirname(M.setup.__file__), name), "rb") as f:
        return tomllib.load(f)


@harness("C33", params=[dict(kind="config"), dict(kind="constants"), dict(kind="slurm"), dict(kind="utilities")],
         bounds="every number and switch of the shipped configuration, constants, Slurm and utilities files arbitrary; two loads one after another",
         assumes=["the TOML parser of the standard library returns the values in the file"],
         expect=["values-unchanged", "derived-options", "second-load-replaces", "named-file-loaded"])
def configuration(cx, M, kind):
    f = dict(config="config.toml", constants="constants.toml", slurm="slurm_config.toml", utilities="utilities_config.toml")[kind]
    files, loaded = {}, []
    for p in ("a_", "b_"):
        keep = {}
        if kind == "slurm":
            keep = dict(memory_per_process=cx.choice(p + "mpp", [0, 4, 16]), cores=cx.choice(p + "cores", [1, 3]))
        files[p] = symbolise(cx, parsed(M, f), p, keep)
    coupled = bool(cx.boolean("coupled")) if kind == "constants" else False
    base = dict(config=M.config.Config, constants=M.constants.Constants, slurm=M.config.SlurmConfig, utilities=M.utilcfg.UtilitiesConfig)[kind]

    class K(base):
        @staticmethod
        def get_raw_toml(file_path=None):
            loaded.append(str(file_path))
            return {h: dict(t) for h, t in files["a_" if len(loaded) == 1 else "b_"].items()}

    argv = sys.argv
    try:
        sys.argv = ["COSIPY.py", {"config": "-c", "constants": "-x", "slurm": "-s", "utilities": "-u"}[kind], "first.toml"]
        with Patch(M.constants, Config=types.SimpleNamespace(WRF_X_CSPY=coupled)):
            for p, path in (("a_", "first.toml"), ("b_", "second.toml")):
                if p == "b_":
                    K.load(path)
                elif kind == "utilities":
                    o = K()
                    K.load(o.parser.parse_known_args()[0].utilities_path)
                else:
                    K()
                cx.check("named-file-loaded", loaded[-1] == path)
                lab = "values-unchanged" if p == "a_" else "second-load-replaces"
                for head, t in files[p].items():
                    for k, v in t.items():
                        got = getattr(getattr(K, head), k) if kind == "utilities" else getattr(K, k)
                        lab_k = lab
                        if kind == "config" and k in ("northing", "easting") and files[p]["DIMENSIONS"]["WRF"]:
                            v, lab_k = dict(northing="south_north", easting="west_east")[k], "derived-options"
                        elif kind == "config" and k == "full_field" and files[p]["DIMENSIONS"]["WRF_X_CSPY"]:
                            v, lab_k = True, "derived-options"
                        elif kind == "config" and k == "workers" and v == 0:
                            v, lab_k = None, "derived-options"
                        elif kind == "constants" and coupled and k in ("albedo_method", "stability_correction"):
                            v, lab_k = dict(albedo_method="Oerlemans98", stability_correction="MO")[k], "derived-options"
                        elif kind == "slurm" and k == "memory" and files[p]["OVERRIDES"]["memory_per_process"] > 0:
                            v = f"{files[p]['OVERRIDES']['memory_per_process'] * files[p]['MEMORY']['cores']}GB"
                            lab_k = "derived-options"
                        cx.check(lab_k, eq(got, v), detail=f"{k}: {got!r} instead of {v!r}")
    finally:
        sys.argv = argv
    if kind == "utilities":
        cx.check("derived-options", True)


# --- C34 -------------------------------------------------------------------
FILES = ["config.toml", "constants.toml", "slurm_config.toml", "utilities_config.toml"]
ANSWERS = ["y", "Y", "yes", " YES ", "n", "no", "", "ye", "nyes", "maybe"]


@harness("C34", params=[dict(free=(0, 1), cwd=False), dict(free=(2, 3), cwd=True), dict(free=(3, 0), cwd=False)],
         thorough=[dict(free=(0, 2), cwd=True), dict(free=(1, 3), cwd=False), dict(free=(1, 2), cwd=True)],
         bounds="every combination of existing files, of the -y switch, and for two files at a time any two consecutive answers out of ten",
         assumes=["file operations run in a scratch directory"],
         expect=["kept-without-consent", "replaced-with-consent", "missing-created", "samples-untouched"])
def consent(cx, M, free, cwd):
    yes = bool(cx.boolean("switch_y"))
    exists = [bool(cx.boolean("exists" + f)) for f in FILES]
    src = os.path.dirname(M.setup.__file__)
    before = {f: open(os.path.join(src, f), "rb").read() for f in FILES}
    asked = {f: [] for f in FILES}
    d = tempfile.mkdtemp(prefix="vt_setup_")
    old_cwd, argv = os.getcwd(), sys.argv

    def answer(prompt=""):
        c = [f for f in FILES if f in str(prompt)]
        f = max(c, key=len) if c else FILES[0]
        n = len(asked[f])
        if FILES.index(f) in free and n == 0:
            a = cx.choice(f"answer_{f}_0", ANSWERS)
        elif FILES.index(f) in free and n == 1:
            a = cx.choice(f"answer_{f}_1", ["y", "n", ""])
        else:
            a = "n"
        asked[f].append(a)
        return a

    try:
        for f, e in zip(FILES, exists):
            if e:
                with open(os.path.join(d, f), "w") as h:
                    h.write("mine")
        sys.argv = ["cosipy-setup"] + (["-y"] if yes else []) + ([] if cwd else ["-o", d])
        if cwd:
            os.chdir(d)
        inp = builtins.input
        builtins.input = answer
        shim = M.setup.__dict__.get("input")
        if shim is not None:
            M.setup.input = answer
        try:
            M.setup.main()
        finally:
            builtins.input = inp
            if shim is not None:
                M.setup.input = shim
        for i, f in enumerate(FILES):
            p = os.path.join(d, f)
            now = open(p, "rb").read() if os.path.isfile(p) else None
            ok = yes or (bool(asked[f]) and asked[f][-1].strip().lower() in ("y", "yes"))
            if not exists[i]:
                cx.check("missing-created", now == before[f], detail=f)
            elif ok:
                cx.check("replaced-with-consent", now == before[f], detail=f)
            else:
                cx.check("kept-without-consent", now == b"mine", detail=f"{f} answers {asked[f]}")
        cx.check("samples-untouched", all(open(os.path.join(src, f), "rb").read() == before[f] for f in FILES))
    finally:
        os.chdir(old_cwd)
        sys.argv = argv
        shutil.rmtree(d)


@harness("C34", params=[dict(rel=False), dict(rel=True)], bounds="target directory equal to the sample directory (absolute)",
         expect=["same-directory-refused"], name="same")
def same_directory(cx, M, rel):
    src = os.path.dirname(os.path.abspath(M.setup.__file__))
    yes = bool(cx.boolean("switch_y"))
    argv, cwd = sys.argv, os.getcwd()
    log = []
    sys.argv = ["cosipy-setup"] + (["-y"] if yes else []) + ([] if rel else ["-o", src])
    try:
        if rel:
            os.chdir(src)
        with Patch(M.setup, shutil=types.SimpleNamespace(copyfile=lambda *a, **k: log.append(a), copy=lambda *a, **k: log.append(a),
                                                         copy2=lambda *a, **k: log.append(a))):
            try:
                M.setup.main()
                refused = False
            except (ValueError, OSError):
                refused = True
    finally:
        sys.argv = argv
        os.chdir(cwd)
    cx.check("same-directory-refused", refused and not log)


# --- C35 -------------------------------------------------------------------
def frame(cols, index):
    out = pd.DataFrame(index=index)
    for k, v in cols.items():
        out[k] = pd.Series(list(v), index=index, dtype=object if any(is_sym(x) for x in v) else float)
    return out


@harness("C35", params=[dict(obs="mb"), dict(obs="snowheight"), dict(obs="mb", gap=True)], thorough=[dict(obs="snowheight", gap=True, n=5)],
         bounds="three stakes (one not in this cell), 3 dates (thorough 5), any observed and modelled value, any one observation missing",
         expect=["rmse", "only-own-stakes", "zero-iff-equal", "symmetric"])
def score(cx, M, obs, gap=False, n=3):
    ev, G = M.evaluation, M.Config
    idx = pd.date_range("2020-01-01", periods=n, freq="1D")
    o = {s: [cx.real(f"{s}{i}", -5.0, 5.0) for i in range(n)] for s in ("s1", "s2", "s3")}
    m = {k: [cx.real(f"{k}{i}", -5.0, 5.0) for i in range(n)] for k in ("mb", "snowheight")}
    miss = cx.choice("missing", list(range(n))) if gap else None
    if gap:
        o["s1"][miss] = float("nan")
    with Patch(G, eval_method="rmse", obs_type=obs):
        st = ev.evaluate(["s1", "s2"], frame(o, idx), frame(m, idx))
        cx.check("only-own-stakes", list(st.index) == ["s1", "s2"])
        for s in ("s1", "s2"):
            r = [(a - b) for a, b in zip(o[s], m[obs]) if not isnan(a)]
            sq = total([x * x for x in r])
            v = st[s]
            cx.check("rmse", v >= 0)
            cx.close("rmse", v * v * float(len(r)), sq, tol=1e-7)
            allz = True
            for x in r:
                if not bool((x <= 0) & (x >= 0)):
                    allz = False
                    break
            if allz:
                cx.check("zero-iff-equal", v <= 1e-9)
            else:
                cx.check("zero-iff-equal", v > 0)
        if not gap:
            x = ev.evaluate(["s1"], frame(dict(s1=m[obs]), idx), frame({obs: o["s1"]}, idx))
            cx.close("symmetric", x["s1"] * x["s1"], st["s1"] * st["s1"], tol=1e-7)


class LoosePandas:
    """pandas whose frames are not forced to machine floats."""

    def __getattr__(self, k):
        return getattr(pd, k)

    @staticmethod
    def DataFrame(*a, dtype=None, **k):
        return pd.DataFrame(*a, dtype=object, **k)


@harness("C35", params=[dict(days=(1,)), dict(days=(0, 2)), dict(days=(5,))],
         bounds="3 time steps, stake dates inside and outside the period, arbitrary fluxes and module results", 
         stubs=["physical modules of the time loop: arbitrary values"],
         expect=["mass-balance-at-date", "snow-height-at-date", "other-dates-missing", "score-of-simulated"])
def sampled(cx, M, days):
    nt = 3
    ds = forcing(nt, T2=vec([cx.real(f"T2{i}", 250.0, 280.0) for i in range(nt)]), RH2=vec([70.0] * nt), U2=vec([3.0] * nt),
                 PRES=vec([700.0] * nt), G=vec([100.0] * nt), RRR=vec([0.0] * nt), LWin=vec([250.0] * nt))
    idx = pd.DatetimeIndex([pd.Timestamp("2020-01-01") + pd.Timedelta(hours=d) for d in days])
    ob = [cx.real(f"obs{i}", -5.0, 5.0) for i in range(len(days))]
    pdx = LoosePandas() if cx.symbolic else pd
    with Patch(M.Config, stake_evaluation=True, eval_method="rmse", obs_type="mb"), Patch(M.core, pd=pdx):
        R, log = run(cx, M, ds, column(cx, M), Seb(cx), stakes=(["s1"], frame(dict(s1=ob), idx)))
    df = R["df"]
    cum = 0.0
    seen = []
    for t in range(nt):
        cum = cum + R["MB"][t]
        if t in days:
            row = df.iloc[list(days).index(t)]
            cx.close("mass-balance-at-date", row["mb"], cum, tol=1e-9)
            cx.close("snow-height-at-date", row["snowheight"], R["SNOWHEIGHT"][t], tol=1e-9)
            seen.append(cum - ob[list(days).index(t)])
    for i, d in enumerate(days):
        if d >= nt:
            cx.check("other-dates-missing", isnan(df.iloc[i]["mb"]) and isnan(df.iloc[i]["snowheight"]))
    v = R["stat"]["s1"]
    if seen:
        cx.close("score-of-simulated", v * v * float(len(seen)), total([x * x for x in seen]), tol=1e-7)
    else:
        cx.check("score-of-simulated", isnan(v))


# --- C32 -------------------------------------------------------------------
def wrf_file(cx, nt, nx, free):
    """WRF output with the variables in `free` arbitrary."""
    t = np.datetime64("2020-01-01T00:00:10", "ns") + np.arange(nt) * np.timedelta64(3600, "s")
    base = dict(T2=265.0, Q2=0.002, PSFC=60000.0, SWDOWN=200.0, GLW=250.0, SNOWH=0.5, SNOW=120.0, SNOWC=1.0, TSK=262.0, V10=3.0, U10=-2.0,
                RAINNC=0.5, RAINC=0.1, SNOWNC=0.4)
    lim = dict(T2=(230.0, 310.0), Q2=(0.0, 0.03), PSFC=(40000.0, 105000.0), SWDOWN=(0.0, 1400.0), GLW=(50.0, 450.0), SNOWH=(0.0, 10.0),
               SNOW=(0.0, 3000.0), SNOWC=(0.0, 1.0), TSK=(220.0, 300.0), V10=(-30.0, 30.0), U10=(-30.0, 30.0), RAINNC=(0.0, 20.0),
               RAINC=(0.0, 20.0), SNOWNC=(0.0, 20.0))
    v = {}
    ds = xr.Dataset(coords=dict(XTIME=("Time", t)))
    for n, b in base.items():
        def f(i):
            if n in free:
                x = cx.real(f"{n}_{i[0]}{i[2]}", *lim[n])
                if n in ("RAINNC", "RAINC", "SNOWNC") and i[0]:
                    x = v[n][(i[0] - 1, i[1], i[2])] + x
                v.setdefault(n, {})[i] = x
                return x
            return b + 0.01 * i[0] * b + 0.02 * i[2] * b
        v[n] = {}
        a = osym((nt, 1, nx), f)
        v[n] = a
        ds[n] = (("Time", "south_north", "west_east"), a)
    lu = osym((nt, 1, nx), lambda i: float(cx.choice(f"lu{i[2]}", [24.0, 16.0, 1.0])) if "LU_INDEX" in free else (24.0 if i[2] == 0 else 1.0))
    v["LU_INDEX"] = lu.copy()
    ds["LU_INDEX"] = (("Time", "south_north", "west_east"), lu)
    for n, b in (("XLAT", 30.0), ("XLONG", 90.0), ("HGT", 5000.0)):
        v[n] = b + 0.1 * np.arange(nx, dtype=float).reshape(1, 1, nx) + np.zeros((nt, 1, nx))
        ds[n] = (("Time", "south_north", "west_east"), v[n])
    ds.attrs.update(DX=np.float32(1000.0), DY=np.float32(1000.0))
    return ds, v, t


def convert_wrf(cx, M, ds, start=None, end=None):
    w = M.wrf
    got = []

    def keep(self, path=None, *a, **k):
        got.append(self.copy())

    flat = types.SimpleNamespace(slope=lambda a, *x, **k: a * 0.0, aspect=lambda a, *x, **k: a * 0.0)
    with Patch(w, xr=XrStub(w.xr, lambda path: ds.copy(deep=True)), xrs=flat, _cfg=types.SimpleNamespace(constants=dict(hu=2.0, lu_class=24))), \
            Patch(xr.Dataset, to_netcdf=keep):
        w.create_input("in.nc", "out.nc", start, end)
    return got[0]


WUNITS = dict(T2="K", RH2="%", G="W m^-2", LWin="W m^-2", PRES="hPa", U2="m s^-1", RRR="mm", SNOWFALL="m", HGT="m", SNOWHEIGHT="m")


@harness("C32", params=[dict(free=("LU_INDEX", "SWDOWN", "GLW", "SNOWH", "SNOW", "TSK")), dict(free=("T2", "Q2", "PSFC"), nx=1, nt=1),
                        dict(free=("U10", "V10"), nx=1), dict(free=("RAINNC", "RAINC")), dict(free=("SNOWNC", "T2", "V10"), nx=1),
                        dict(free=("SNOWNC",), const=True)],
         thorough=[dict(free=("SNOWNC", "T2", "U10", "V10", "RAINNC", "RAINC"), nx=2, nt=3), dict(free=("T2", "Q2", "PSFC"), nx=2, nt=2)],
         bounds="1x1 or 1x2 cells, 2 time steps (thorough 3), any temperature 230-310 K, specific humidity, pressure, radiation, wind components, "
                "non-decreasing accumulated rain and snow, any of three land-use classes per cell",
         stubs=["slope and aspect (xarray-spatial)", "writing and reading of the file"],
         expect=["copied", "pressure-hPa", "humidity", "wind-2m", "precipitation-increments", "snowfall-depth", "mask-from-landuse", "coordinates", "units"])
def wrf(cx, M, free, nx=2, nt=2, const=False):
    ds, v, t = wrf_file(cx, nt, nx, free)
    with Patch(M.Constants, densification_method="constant" if const else "Boone", constant_density=300.0):
        o = convert_wrf(cx, M, ds)
    g = lambda n, i: o[n].values[i]
    wk = float(np.log(2 / 0.004) / np.log(10 / 0.004))
    for i in np.ndindex((nt, 1, nx)):
        s = i[1:]
        for a, b in (("T2", "T2"), ("G", "SWDOWN"), ("LWin", "GLW")):
            cx.close("copied", g(a, i), v[b][i])
        for a, b in (("SNOWHEIGHT", "SNOWH"), ("SWE", "SNOW"), ("TSK", "TSK"), ("HGT", "HGT"), ("SNOWC", "SNOWC")):
            cx.close("copied", g(a, s), v[b][(0,) + s])
        cx.close("pressure-hPa", g("PRES", i) * 100.0, v["PSFC"][i], tol=1e-6)
        T, q, p = v["T2"][i], v["Q2"][i], v["PSFC"][i]
        raw = q * 100 / ((379.90516 / p) * sym.fun("exp", 17.2693882 * (T - 273.16) / (T - 35.86)))
        rh = g("RH2", i)
        cx.check("humidity", (rh >= 0) & (rh <= 100.0))
        cx.close("humidity", rh, raw if raw <= 100.0 else 100.0, tol=1e-6)
        U2 = g("U2", i)
        w2 = v["U10"][i] * v["U10"][i] + v["V10"][i] * v["V10"][i]
        cx.check("wind-2m", U2 >= 0)
        cx.close("wind-2m", U2 * U2, w2 * (wk * wk), tol=1e-7)
        pr = i[:0] + (i[0] - 1,) + s
        inc = (v["RAINNC"][i] + v["RAINC"][i] - v["RAINNC"][pr] - v["RAINC"][pr]) if i[0] else 0.0
        cx.close("precipitation-increments", g("RRR", i), inc, tol=1e-9)
        sn = (v["SNOWNC"][i] - v["SNOWNC"][pr]) if i[0] else 0.0
        if const:
            rho = 300.0
        else:
            rho = 109.0 + 6.0 * (T - 273.16) + 26.0 * sym.power(U2, 0.5) if is_sym(T) or is_sym(U2) else 109.0 + 6.0 * (T - 273.16) + 26.0 * U2 ** 0.5
            rho = rho if rho >= 50.0 else 50.0
        cx.close("snowfall-depth", g("SNOWFALL", i) * rho, sn, tol=1e-7)
        cx.check("mask-from-landuse", g("MASK", s) == (1.0 if v["LU_INDEX"][(0,) + s] == 24.0 else 0.0))
        cx.check("coordinates", float(o.lat.values[s]) == v["XLAT"][(0,) + s] and float(o.lon.values[s]) == v["XLONG"][(0,) + s])
    for n, u in WUNITS.items():
        cx.check("units", o[n].attrs.get("units") == u, detail=f"{n}: {o[n].attrs.get('units')}")


@harness("C32", params=[dict()], bounds="48 hourly steps, any first and last day requested or none",
         expect=["period"], name="wrf_period")
def wrf_period(cx, M):
    nt = 72
    ds, v, t = wrf_file(cx, nt, 1, ())
    a, b = cx.choice("start", [None, "20200101", "20200102"]), cx.choice("end", [None, "20200101", "20200102", "20200103"])
    if (a is None) != (b is None) or (a and b < a):
        cx.assume(False)
    o = convert_wrf(cx, M, ds, a, b)
    tt = pd.to_datetime(t).floor("min")
    want = tt if a is None else tt[(tt >= pd.Timestamp(a)) & (tt < pd.Timestamp(b) + pd.Timedelta(days=1))]
    cx.check("period", len(o.time) == len(want) and np.issubdtype(o.time.dtype, np.datetime64)
             and bool((pd.DatetimeIndex(o.time.values) == want).all()))


# --- C41 -------------------------------------------------------------------
A_WGS, B_WGS = 6378.137, 6356.7523142


@harness("C41", params=[dict()], thorough=[dict(pair=True)], bounds="any latitude (-89 to 89 degrees) and longitude; one or two points per call",
         expect=["on-ellipsoid", "longitude", "normal-latitude", "hemisphere"])
def ellipsoid(cx, M, pair=False):
    pts = [(cx.real(f"lat{i}", -89.0, 89.0), cx.real(f"lon{i}", -180.0, 180.0)) for i in range(2 if pair else 1)]
    K = np.pi / 180
    S, Co = (lambda v: sym.fun("sin", v)), (lambda v: sym.fun("cos", v))
    r = M.main.transform_coordinates(pts if pair else pts[0])
    cx.check("longitude", tuple(np.shape(r)) == (len(pts), 3))
    for (la, lo), (x, y, z) in zip(pts, r):
        sl, cl, so, co = S(la * K), Co(la * K), S(lo * K), Co(lo * K)
        cx.close("longitude", x * so, y * co, tol=1e-6)
        cx.check("hemisphere", (z >= -1e-9) if la >= 0 else (z <= 1e-9))
        cx.check("hemisphere", x * co + y * so > 0)
        q = x * co + y * so            # distance to the axis
        cx.close("normal-latitude", z * cl * (A_WGS / B_WGS) ** 2, q * sl, tol=1e-2)
        cx.close("on-ellipsoid", (q / A_WGS) * (q / A_WGS) + (z / B_WGS) * (z / B_WGS), 1.0, tol=1e-6)


@harness("C41", params=[dict(), dict(wrf=True), dict(obs="snowheight"), dict(restart=True), dict(nx=3), dict(nx=3, wrf=True)],
         bounds="2x2 cells with every mask (2x3 with one of two masks), two stakes each next to any cell (also the same one), any measurement and simulated value, every completion order",
         stubs=["text tables", "nearest-neighbour search: any cell, its points and queries checked", "dask client", "model of a cell"],
         expect=["search-points", "search-query", "stake-at-own-cell", "simulated-at-stake", "score-at-stake", "unsimulated-keep-data"])
def stakes(cx, M, wrf=False, obs="mb", restart=False, nx=2):
    from harness import runio as R
    G, C, main = M.Config, M.Constants, M.main
    G.restart, G.WRF, G.slurm_use, G.full_field = restart, wrf, False, False
    G.northing, G.easting = ("south_north", "west_east") if wrf else ("lat", "lon")
    G.output_atm, G.output_internal, G.output_full = "TS", "MB", "T"
    G.stake_evaluation, G.eval_method, G.obs_type = True, "rmse", obs
    G.stakes_loc_file, G.stakes_data_file = "loc", "data"
    ml = C.max_layers
    shape = (2, nx)
    mask = np.zeros(shape)
    fixed = {(1, 0): 1.0} if nx == 2 else {(1, 0): 1.0, (0, 1): 1.0, (1, 1): 0.0, (0, 0): 0.0, (0, 2): 0.0}
    for c in np.ndindex(shape):
        mask[c] = fixed[c] if c in fixed else 1.0 if bool(cx.boolean(f"mask{c[0]}{c[1]}")) else 0.0
    cells = [c for c in np.ndindex(shape) if mask[c] == 1]
    ds = R.domain(2, nx, 1, mask)
    rst = xr.Dataset(coords=dict(lat=ds.lat.values, lon=ds.lon.values))
    rst["ID"] = (("lat", "lon"), np.arange(2.0 * nx).reshape(shape) + 0.5)
    if wrf:
        ds = ds.rename(lat="south_north", lon="west_east").drop_vars(["south_north", "west_east"])
        for n, v in (("lat", 46.0), ("lon", 10.0)):
            ds.coords[n] = (("south_north", "west_east"), v + 0.01 * np.arange(2.0 * nx).reshape(shape))
        rst = rst.rename(lat="south_north", lon="west_east").drop_vars(["south_north", "west_east"])
    names = ["p1", "p2"]
    loc = [(46.0 + 0.001 * i, 10.0 + 0.002 * i) for i in range(2)]
    spot = [cx.choice(f"cell{i}", list(np.ndindex(shape))) for i in range(2)]
    idx = pd.date_range("2020-01-01", periods=2, freq="D", name="TIMESTAMP")
    meas = {n: [cx.real(f"{n}obs{k}", -5.0, 5.0) for k in range(2)] for n in names}
    io = M.io.IOClass()
    io.DATA, io.ny, io.nx, io.time = ds, 2, nx, 1
    io.create_result_file()
    io.create_restart_file()
    io.GRID_RESTART = rst
    results, sim, files = {}, {}, {}

    def model(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_data=None):
        r = dict(results[indY, indX])
        r["stake_names"], r["stat"], r["df"] = list(stake_names), frame({n: [sim[indY, indX][2]] for n in stake_names}, [0]).iloc[0] if stake_names else pd.Series(dtype=float), sim[indY, indX][3]
        return tuple(r[k] for k in R.OUT)

    for y, x in cells:
        l = ds.isel({G.northing: y, G.easting: x})
        results[y, x] = R.local_result(cx, M, l, y, x, ml, f"c{y}{x}_")
        mb, sh = ([cx.real(f"{k}{y}{x}{t}", 0.0, 5.0) for t in range(2)] for k in ("mb", "sh"))
        sim[y, x] = (mb, sh, cx.real(f"rmse{y}{x}", 0.0, 9.0), frame(dict(mb=mb, snowheight=sh), idx))
    R.Client.log = log = []
    pts, query = [], []

    class Tree:
        def __init__(self, p, *a, **k):
            pts.append(np.asarray(p))

        def query(self, p, *a, **k):
            query.append(np.asarray(p))
            one = np.ndim(p) == 1
            d, i = np.array([0.01]), np.array([np.ravel_multi_index(spot[len(query) - 1], shape)])
            return (d[0], i[0]) if one else (d, i)

    class Tables:
        def __getattr__(self, k):
            return getattr(pd, k)

        def read_csv(self, path, *a, index_col=None, **k):
            if path == "loc":
                return pd.DataFrame(dict(id=names, lat=[l[0] for l in loc], lon=[l[1] for l in loc]))
            f = frame(meas, idx)
            return f if index_col else f.reset_index()

    import scipy

    class Scipy:
        spatial = types.SimpleNamespace(cKDTree=Tree, KDTree=Tree)

        def __getattr__(self, k):
            return getattr(scipy, k)

    def completed(fs):
        left = list(fs)
        while left:
            yield left.pop(cx.choice(f"next{len(left)}", [0, len(left) - 1]) if len(left) > 1 else 0)

    to_csv = pd.DataFrame.to_csv
    pd.DataFrame.to_csv = lambda self, path, *a, **k: files.__setitem__(os.path.basename(path), self)
    try:
        with Patch(main, Client=R.Client, as_completed=completed, progress=lambda f: None, Config=R.Proxy(G), Constants=R.Proxy(C),
                   cosipy_core=model, pd=Tables(), scipy=Scipy(), create_data_directory=lambda path: "out"):
            main.run_cosipy("cluster", io, ds, io.RESULT, io.RESTART, [])
    finally:
        pd.DataFrame.to_csv = to_csv
        G.stake_evaluation = False
    la, lo = (ds.lat.values, ds.lon.values) if wrf else np.meshgrid(ds.lat.values, ds.lon.values, indexing="ij")
    want = np.array([ecef(a, b) for a, b in zip(la.ravel(), lo.ravel())])
    near = lambda a, b: bool(np.all(np.abs(np.asarray(a, dtype=float) - b) < 1e-6))
    cx.check("search-points", len(pts) >= 1 and np.shape(pts[0]) == (2 * nx, 3) and near(pts[0], want))
    cx.check("search-query", len(query) == 2 and all(near(np.ravel(q), ecef(*l)) for q, l in zip(query, loc)))
    given = {}
    for f in log:
        y, x = f.a[1], f.a[2]
        given[y, x] = list(f.k["stake_names"])
        cx.check("stake-at-own-cell", given[y, x] == [n for n, s in zip(names, spot) if s == (y, x)])
        cx.check("stake-at-own-cell", f.k["stake_data"] is not None and list(f.k["stake_data"].columns) == names)
        if restart:
            Rg = f.k.get("GRID_RESTART", f.a[3] if len(f.a) > 3 else None)
            cx.check("stake-at-own-cell", float(Rg.ID) == y * nx + x + 0.5)
    val_, st = files["stake_simulations.csv"], files["stake_statistics.csv"]
    for n, s in zip(names, spot):
        col = [val(v) for v in val_[n]]
        if s in cells:
            for a, b in zip(col, sim[s][0 if obs == "mb" else 1]):
                cx.close("simulated-at-stake", a, b)
            v = st.loc[n]
            v = val(v["rmse"] if "rmse" in st.columns else v.iloc[0])
            cx.close("score-at-stake", v, sim[s][2])
        else:
            for a, b in zip(col, meas[n]):
                cx.close("unsimulated-keep-data", a, b)
            cx.check("unsimulated-keep-data", n not in list(st.index))


def ecef(lat, lon):
    """WGS 84 point in km (independent of the code: geocentric form)."""
    K = np.pi / 180
    b = np.arctan(B_WGS / A_WGS * np.tan(lat * K))      # parametric latitude
    return np.array([A_WGS * np.cos(b) * np.cos(lon * K), A_WGS * np.cos(b) * np.sin(lon * K), B_WGS * np.sin(b)])


# --- C42 -------------------------------------------------------------------
@harness("C42", params=[dict(), dict(tile=True, agg=True), dict(nx=3, agg=True), dict(hole="slope"), dict(hole="aspect"), dict(hole="dem")],
         bounds="2x2 terrain (2x3 once), any elevation inside the outline and anywhere else, every outline, missing values in one field at any cell",
         stubs=["gdal, gdaldem and richdem: in-memory terrain fields; shell commands recorded", "reading and writing of netCDF files"],
         expect=["mask", "fields", "coordinates", "missing-value-refused", "intermediate-files"])
def static_file(cx, M, tile=False, agg=False, nx=2, hole=None):
    st = M.static
    folder = "./vt_static/"
    cfg = types.SimpleNamespace(
        paths=dict(static_folder=folder, dem_path="dem.tif", shape_path="glacier.shp", output_file="static.nc"),
        coords=dict(tile=tile, aggregate=agg, aggregate_degree=0.003, longitude_upper_left=90.62, latitude_upper_left=30.48,
                    longitude_lower_right=90.66, latitude_lower_right=30.46))
    shape = (2, nx)
    f = lambda nm, lo, hi: obj(cx, shape, {i: cx.real(f"{nm}{i[0]}{i[1]}", lo, hi) for i in np.ndindex(shape)})
    H = f("z", 1.0, 8000.0)
    slope, aspect = f("slope", 0.0, 89.0), f("aspect", 0.0, 360.0)
    inside = {i: i == (0, 0) or bool(cx.boolean(f"in{i[0]}{i[1]}")) for i in np.ndindex(shape)}
    fields = dict(dem=H, slope=slope, aspect=aspect)
    gap = None
    if hole:
        gap = cx.choice("gap", list(np.ndindex(shape)))
        fields[hole][gap] = float("nan")
    cut = obj(cx, shape, {i: H[i] if inside[i] and not (hole == "dem" and i == gap) else float("nan") for i in np.ndindex(shape)})
    if hole == "dem" and inside[gap]:
        cut[gap] = 5000.0           # interpolated by the warp
    lat, lon = np.array([30.47, 30.475]), 90.6 + 0.005 * np.arange(nx)
    cmds, out = [], {}

    def shell(c, *a, **k):
        c = " ".join(c) if isinstance(c, (list, tuple)) else c
        cmds.append(" ".join(c.split()))
        return 0

    def opened(path, *a, **k):
        d = dict(dem=H, slope=slope, mask=cut)[os.path.basename(path)[:-3]]
        return xr.Dataset(dict(Band1=(("lat", "lon"), d.copy())), coords=dict(lat=lat, lon=lon))

    loaded = []

    class RD:
        @staticmethod
        def LoadGDAL(path, *a, **k):
            loaded.append(path)
            return "dem"

        @staticmethod
        def TerrainAttribute(d, attrib=None, **k):
            return {"aspect": aspect[::-1], "slope_degrees": slope[::-1]}[attrib]

    class X:
        open_dataset = staticmethod(opened)
        load_dataset = staticmethod(opened)

        def __getattr__(self, k):
            return getattr(xr, k)

    class OS:
        system = staticmethod(shell)
        remove = unlink = staticmethod(lambda p: cmds.append("rm " + p))

        def __getattr__(self, k):
            return getattr(os, k)

    X, osx = X(), OS()
    keep = xr.Dataset.to_netcdf
    xr.Dataset.to_netcdf = lambda self, path, *a, **k: out.__setitem__("file", (path, self))
    err = None
    import warnings
    try:
        with warnings.catch_warnings(), Patch(st, rd=RD, os=osx, xr=X, load_config=lambda module_name: (None, cfg)):
            warnings.simplefilter("ignore")
            st.main()
    except ValueError as e:
        err = e
    finally:
        xr.Dataset.to_netcdf = keep
    if gap is not None and inside[gap]:
        cx.check("missing-value-refused", err is not None and "file" not in out)
        return
    cx.check("missing-value-refused", err is None)
    path, ds = out["file"]
    cx.check("coordinates", path == folder + "static.nc" and list(ds.lat.values) == list(lat) and list(ds.lon.values) == list(lon))
    for i in np.ndindex(shape):
        m = float(val(ds["MASK"].values[i]))
        cx.check("mask", m == (1.0 if inside[i] else -9999.0))
        for n, a in (("HGT", H), ("SLOPE", slope), ("ASPECT", aspect)):
            cx.check("fields", same(val(ds[n].values[i]), a[i]))
    cx.check("coordinates", all(tuple(ds[n].dims) == ("lat", "lon") for n in ("HGT", "MASK", "SLOPE", "ASPECT")))
    src = "dem.tif"
    proj = [c for c in cmds if "-projwin" in c]
    warp = [c for c in cmds if " -tr " in c]
    cx.check("intermediate-files", len(proj) == tile and len(warp) == agg)
    if tile:
        cx.check("intermediate-files", "-projwin 90.62 30.48 90.66 30.46" in proj[0] and src in proj[0])
        src = proj[0].split()[-1]
    if agg:
        cx.check("intermediate-files", "-tr 0.003 0.003" in warp[0] and src in warp[0])
        src = warp[0].split()[-1]
    cx.check("intermediate-files", len(loaded) >= 1 and all(p.endswith(src) for p in loaded))
    cutl = [c for c in cmds if "-cutline" in c]
    cx.check("intermediate-files", len(cutl) == 1 and folder + "glacier.shp" in cutl[0] and src in cutl[0])
    gone = " ".join(c for c in cmds if c.startswith("rm "))
    cx.check("intermediate-files", "glacier.shp" not in gone and folder + "dem.tif" not in gone.split() and "static.nc" not in gone)


def obj(cx, shape, items):
    a = np.zeros(shape)
    if cx.symbolic:
        a = a.astype(object)
    for i, v in items.items():
        a[i] = v
    return a
