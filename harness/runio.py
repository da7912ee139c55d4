"""C22 restart, C25 collection of results, C26 dispatch, C27 input checks, C28 simulated period."""
import contextlib
import datetime as dtm
import inspect
import io as _io
import types

import numpy as np
import xarray as xr

from vt.api import harness
from vt.sym import is_sym
from harness._common import *
from harness.timeloop import (CD, GETTERS, OUT, STUBS, Column, Patch, Seb, forcing, isnan, item, run, val, vec)

SERIES = ("RAIN SNOWFALL LWin LWout H LE B QRR MB surfMB Q SNOWHEIGHT TOTALHEIGHT TS ALBEDO LAYERS ME intMB EVAPORATION "
          "SUBLIMATION CONDENSATION DEPOSITION REFREEZE subM Z0 surfM MOL").split()
PROF = "HEIGHT RHO T LWC CC POROSITY ICE_FRACTION IRREDUCIBLE_WATER REFREEZE".split()
ATM = "T2 RH2 U2 RAIN SNOWFALL RRR PRES N G LWin LWout H LE B QRR Z0 ALBEDO TS".split()
RSCAL = "NLAYERS NEWSNOWHEIGHT NEWSNOWTIMESTAMP OLDSNOWTIMESTAMP".split()
RPROF = "HEIGHT RHO T LWC IF".split()
UNITS = dict(T2="K", RH2="%", U2="m s⁻¹", PRES="hPa", G="W m⁻²", RRR="mm", N="-", RAIN="mm", SNOWFALL="m w.e.",
             LWin="W m⁻²", LWout="W m⁻²", H="W m⁻²", LE="W m⁻²", B="W m⁻²", QRR="W m⁻²", MB="m w.e.", surfMB="m w.e.",
             Q="m w.e.", SNOWHEIGHT="m", TOTALHEIGHT="m", TS="K", ALBEDO="-", LAYERS="-", ME="W m⁻²", intMB="m w.e.",
             EVAPORATION="m w.e.", SUBLIMATION="m w.e.", CONDENSATION="m w.e.", DEPOSITION="m w.e.", REFREEZE="m w.e.",
             subM="m w.e.", Z0="m", surfM="m w.e.", MOL="m", LAYER_HEIGHT="m", LAYER_T="K", LAYER_RHO="kg m^-3")


def osym(shape, f):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = f(i)
    return out if any(is_sym(x) for x in out.ravel()) else out.astype(float)


def same(a, b):
    """identical value, missing stays missing"""
    a, b = val(a), val(b)
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return (a - b <= 1e-9) & (b - a <= 1e-9)


def domain(ny, nx, nt, mask, extra=()):
    t = np.datetime64("2020-01-01T00:00", "ns") + np.arange(nt) * np.timedelta64(3600, "s")
    ds = xr.Dataset(coords=dict(time=t, lat=46.0 + 0.1 * np.arange(ny), lon=10.0 + 0.1 * np.arange(nx)))
    base = dict(T2=270.0, RH2=70.0, U2=3.0, PRES=700.0, G=100.0, LWin=250.0)
    for n, v in dict(base, **{k: 0.1 for k in extra}).items():
        a = v + 0.01 * np.arange(nt * ny * nx, dtype=float).reshape(nt, ny, nx)
        ds[n] = (("time", "lat", "lon"), a)
    ds["HGT"] = (("lat", "lon"), 5000.0 + np.arange(ny * nx, dtype=float).reshape(ny, nx))
    ds["MASK"] = (("lat", "lon"), mask)
    return ds


def make_io(M, ds):
    io = M.io.IOClass()
    io.DATA = ds
    io.ny, io.nx, io.time = ds.sizes["lat"], ds.sizes["lon"], ds.sizes["time"]
    io.restart_date = None
    return io


def local_result(cx, M, ds, y, x, ml, p):
    """what the model returns for a cell: arbitrary series, profiles and restart state."""
    nt = ds.sizes["time"]
    r = {n: vec([cx.real(f"{p}{n}{t}", -1000.0, 1000.0) for t in range(nt)]) for n in SERIES}
    r["NLAYERS"] = r.pop("LAYERS")
    n = 1 + (y + x) % ml
    for k in PROF:
        r["LAYER_" + k] = osym((nt, ml), lambda i: cx.real(f"{p}L{k}{i[0]}_{i[1]}", -1000.0, 1000.0) if i[1] < n else float("nan"))
    for k in ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp"):
        r[k] = vec([0.0] * nt)
    R = M.io.IOClass(ds).create_local_restart_dataset()
    for k in RSCAL:
        R[k].values[:] = cx.real(f"{p}R{k}", 0.0, 1e6)
    for k in RPROF:
        v = R["LAYER_" + k].values
        for j in range(n):
            v[j] = cx.real(f"{p}RL{k}{j}", -1000.0, 1000.0)
    r.update(indY=y, indX=x, RESTART=R, stake_names=None, stat=None, df=None)
    return r


def expect_cell(cx, io, res, y, x, lab, full, ml):
    nt = io.time
    out = io.RESULT
    conds = []
    for n in SERIES:
        if n not in io.atm + io.internal:
            continue
        for t in range(nt):
            v = out[n].values[t, y, x]
            conds.append(same(v, res["NLAYERS" if n == "LAYERS" else n][t]) if res else isnan(v))
    if full:
        for k in io.full:
            if "LAYER_" + k not in out:
                conds.append(False)
                continue
            for t in range(nt):
                for j in range(ml):
                    v = out["LAYER_" + k].values[t, y, x, j]
                    conds.append(same(v, res["LAYER_" + k][t][j]) if res else isnan(v))
    cx.check_all(lab, conds)


def expect_restart(cx, io, res, y, x, lab, ml):
    conds = []
    for k in RSCAL:
        v = io.RESTART[k].values[y, x]
        conds.append(same(v, item(res["RESTART"][k])) if res else isnan(v))
    for k in RPROF:
        for j in range(ml):
            v = io.RESTART["LAYER_" + k].values[y, x, j]
            conds.append(same(v, res["RESTART"]["LAYER_" + k].values[j]) if res else isnan(v))
    cx.check_all(lab, conds)


# --- C25 -------------------------------------------------------------------
@harness("C25", params=[dict(full=False, sel="all"), dict(full=True, sel="all"), dict(full=True, sel="some"), dict(full=False, sel="few", precip=True)],
         thorough=[dict(full=True, sel="all", nt=3, nx=3)],
         consts=dict(max_layers=3),
         bounds="2x2 cells (thorough 2x3), 2 time steps (thorough 3), 3 layer slots, any value of every returned series, two cells "
                "collected in either order; full, reduced and minimal variable selection",
         stubs=["results of the cells: arbitrary values"],
         expect=["own-cell-own-variable", "other-cells-missing", "restart-own-cell", "not-asked-not-written", "inputs-kept",
                 "units-and-names", "missing-inputs-declared"])
def collect(cx, M, full, sel, nt=2, nx=2, precip=False):
    G, C = M.Config, M.Constants
    G.full_field = full
    if sel == "some":
        G.output_atm, G.output_internal, G.output_full = "T2,LE,H,RAIN", "MB,subM,LAYERS,MOL", "T,HEIGHT,REFREEZE"
    elif sel == "few":
        G.output_atm, G.output_internal, G.output_full = "TS", "", ""
    else:
        G.output_internal = ",".join(n for n in SERIES if n not in ATM)
        G.output_atm = ",".join(ATM)
        G.output_full = "HEIGHT,RHO,T,LWC,CC,POROSITY,LW,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE"
    ds = domain(2, nx, nt, np.ones((2, nx)), ("RRR", "N") if precip else ())
    io = make_io(M, ds)
    io.full = [k for k in io.full if k in PROF]
    io.create_result_file()
    io.create_restart_file()
    io.create_global_result_arrays()
    io.create_global_restart_arrays()
    res = {}
    cells = [(0, 1), (1, 0)]
    for y, x in cells:
        res[y, x] = local_result(cx, M, ds, y, x, C.max_layers, f"c{y}{x}_")
    order = cells if cx.boolean("first_cell_first") else cells[::-1]
    names = [p for p in inspect.signature(io.copy_local_to_global).parameters][2:]
    for y, x in order:
        r = res[y, x]
        a = [r["NLAYERS" if n == "local_LAYERS" else n[len("local_"):]] for n in names]
        io.copy_local_to_global(y, x, *a)
        io.copy_local_restart_to_global(y, x, r["RESTART"])
        io.write_results_to_file()
        io.write_restart_to_file()
    for y in range(2):
        for x in range(nx):
            r = res.get((y, x))
            expect_cell(cx, io, r, y, x, "own-cell-own-variable" if r else "other-cells-missing", full, C.max_layers)
            expect_restart(cx, io, r, y, x, "restart-own-cell" if r else "other-cells-missing", C.max_layers)
    out = io.RESULT
    for n in SERIES:
        if n not in io.atm + io.internal and n not in ds:
            cx.check("not-asked-not-written", n not in out)
    if not full:
        cx.check("not-asked-not-written", not any(v.startswith("LAYER_") for v in out))
    else:
        cx.check("not-asked-not-written", {v for v in out if v.startswith("LAYER_")} == {"LAYER_" + k for k in io.full})
    for n in ("T2", "RH2", "U2", "PRES", "G"):
        cx.check("inputs-kept", bool(np.array_equal(out[n].values.astype(float), ds[n].values)))
    cx.check("inputs-kept", bool(np.array_equal(out.HGT.values, ds.HGT.values)) and list(out.time.values) == list(ds.time.values)
             and list(out.lat.values) == list(ds.lat.values) and list(out.lon.values) == list(ds.lon.values))
    for n in out:
        if n in UNITS:
            cx.check("units-and-names", out[n].attrs.get("units") == UNITS[n]
                     and out[n].attrs.get("long_name", "") not in ("",) + tuple(UNITS.values()))
    for n in ("RRR", "N"):
        if n not in ds:
            cx.check("missing-inputs-declared", n in out and bool(np.all(np.isnan(out[n].values.astype(float)))))
        else:
            cx.check("missing-inputs-declared", bool(np.array_equal(out[n].values.astype(float), ds[n].values)))


@harness("C25", params=[dict()], consts=dict(max_layers=3), bounds="the output selection of the shipped configuration file, full fields on",
         expect=["shipped-selection-written"])
def collect_shipped(cx, M):
    """the shipped selection can be written completely"""
    M.Config.full_field = True
    ds = domain(1, 1, 1, np.ones((1, 1)))
    io = make_io(M, ds)
    io.create_result_file()
    io.create_restart_file()
    io.create_global_result_arrays()
    io.create_global_restart_arrays()
    r = local_result(cx, M, ds, 0, 0, 3, "c_")
    names = [p for p in inspect.signature(io.copy_local_to_global).parameters][2:]
    io.copy_local_to_global(0, 0, *[r["NLAYERS" if n == "local_LAYERS" else n[len("local_"):]] for n in names])
    io.write_results_to_file()
    expect_cell(cx, io, r, 0, 0, "shipped-selection-written", True, 3)
    cx.check("shipped-selection-written", all("LAYER_" + k in io.RESULT for k in PROF))


class Loaded(Exception):
    pass


# --- C22 -------------------------------------------------------------------
@harness("C22", params=[dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=5)], consts=dict(CD, max_layers=5),
         bounds="columns of 2-3 layers (thorough 5) with any heights, ice fractions, water, temperatures and snow clocks; one time step, "
                "written, collected into the restart dataset and used to start a second run",
         stubs=STUBS + ["netCDF encoding of the restart file"],
         expect=["layer-count", "layers-continue", "clocks-continue", "restart-time"])
def restart_chain(cx, M, n):
    C = M.Constants
    g = M.grid.Grid(arr([0.05] * n), arr([300.0] * n), arr([265.0] * n), arr([0.0] * n), arr([0.4] * n), cx.real("sh", 0.0, 1.0), cx.real("st", 0.0, 1e6), cx.real("ot", 0.0, 1e6))
    s = {}

    def dens(G, SLOPE, dt):
        for j in range(n):
            G.set_node_height(j, cx.real(f"h{j}", 0.001, 5.0))
            G.set_node_temperature(j, cx.real(f"T{j}", 220.0, 273.16))
            G.set_node_liquid_water_content(j, cx.real(f"w{j}", 0.0, 0.2))
            G.set_node_ice_fraction(j, cx.real(f"i{j}", 0.05, 1.0))
        s["state"], s["clock"] = state(G), G.get_fresh_snow_props()

    k = dict(T2=vec([270.0]), RH2=vec([70.0]), PRES=vec([700.0]), G=vec([0.0]), U2=vec([3.0]), RRR=vec([0.0]), LWin=vec([300.0]))
    o, _ = run(cx, M, forcing(1, **k), Column(g, None), Seb(cx, hot=False), dens=dens, perc=lambda *a: 0.0, refr=lambda *a: 0.0)
    # the snow clocks of the restart are those reported for the step: set before the end of the step, so take the reported ones
    clock = [o[a][0] for a in ("new_snow_height", "new_snow_timestamp", "old_snow_timestamp")]
    ds = domain(2, 2, 1, np.ones((2, 2)))
    io = make_io(M, ds)
    io.create_restart_file()
    io.create_global_restart_arrays()
    io.copy_local_restart_to_global(1, 0, o["RESTART"])
    io.write_restart_to_file()
    cx.check("restart-time", io.RESTART.time.values == ds.time.values[-1])
    cell = io.RESTART.isel(lat=1, lon=0)
    got = {}
    load = M.core.load_snowpack

    def seen(*a, **kw):
        G = load(*a, **kw)
        got["state"], got["clock"], got["n"] = state(G), G.get_fresh_snow_props(), G.get_number_layers()
        raise Loaded()

    with Patch(M.core, load_snowpack=seen):
        try:
            M.core.cosipy_core(forcing(1, **k), 1, 0, GRID_RESTART=cell)
        except Loaded:
            pass
    cx.check("layer-count", got["n"] == n)
    for nm, a, b in zip(("height", "ice", "water", "temperature"), got["state"], s["state"]):
        for j in range(n):
            cx.close("layers-continue", a[j], b[j], detail=nm)
    for a, b in zip(got["clock"], clock):
        cx.close("clocks-continue", a, b)
    for a, b in zip(clock, s["clock"]):
        cx.close("clocks-continue", a, b)


# --- C26 -------------------------------------------------------------------
class Future:
    def __init__(self, f, a, k):
        self.f, self.a, self.k, self.read = f, a, k, 0

    def result(self):
        self.read += 1
        return self.f(*self.a, **self.k)


class Client:
    log = None

    def __init__(self, cluster):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, f, *a, **k):
        fu = Future(f, a, k)
        Client.log.append(fu)
        return fu


class Proxy:
    """configuration object whose call (reading the file again) keeps the values."""

    def __init__(self, c):
        self.__dict__["_c"] = c

    def __call__(self):
        return self

    def __getattr__(self, k):
        return getattr(self._c, k)


class Failed(Exception):
    pass


@harness("C26", params=[dict(ny=1, nx=3), dict(ny=2, nx=2), dict(ny=2, nx=1, fail=True), dict(ny=2, nx=2, restart=True),
                        dict(ny=2, nx=2, wrf=True), dict(ny=1, nx=2, wrf=True, restart=True)],
         thorough=[dict(ny=2, nx=3), dict(ny=2, nx=2, fail=True)], consts=dict(max_layers=2),
         bounds="up to 4 cells (thorough 6): every mask, every completion order, every failing cell, any result value",
         stubs=["dask client and as_completed: futures completed in an arbitrary order", "model of a cell: arbitrary result"],
         expect=["exactly-glacier-cells", "own-forcing", "results-at-own-cell", "masked-cells-missing"])
def dispatch(cx, M, ny, nx, fail=False, restart=False, wrf=False):
    G, C, main = M.Config, M.Constants, M.main
    G.restart, G.WRF, G.stake_evaluation, G.slurm_use, G.full_field = restart, wrf, False, False, True
    G.northing, G.easting = ("south_north", "west_east") if wrf else ("lat", "lon")
    G.output_atm, G.output_internal, G.output_full = "RAIN,TS,H,LE", "MB,surfMB,intMB,LAYERS,Q", "T,HEIGHT"
    ml = C.max_layers
    inside = {(y, x): cx.boolean(f"mask{y}{x}") for y in range(ny) for x in range(nx)}
    mask = np.zeros((ny, nx))
    for c, b in inside.items():
        inside[c] = bool(b)
        mask[c] = 1.0 if inside[c] else 0.0
    cells = [c for c in inside if inside[c]]
    if not cells:
        return
    ds = domain(ny, nx, 1, mask)
    rst = xr.Dataset(coords=dict(lat=ds.lat.values, lon=ds.lon.values))
    rst["ID"] = (("lat", "lon"), np.arange(ny * nx, dtype=float).reshape(ny, nx) + 0.5)
    if wrf:
        ds = ds.rename(lat="south_north", lon="west_east").drop_vars(["south_north", "west_east"])
        for n, v in (("lat", 46.0), ("lon", 10.0)):
            ds.coords[n] = (("south_north", "west_east"), v + np.arange(ny * nx, dtype=float).reshape(ny, nx))
        rst = rst.rename(lat="south_north", lon="west_east").drop_vars(["south_north", "west_east"])
    io = M.io.IOClass()
    io.DATA, io.ny, io.nx, io.time = ds, ny, nx, 1
    io.create_result_file()
    io.create_restart_file()
    io.GRID_RESTART = rst
    bad = cx.choice("failing", [None] + cells) if fail else None
    results, got = {}, []

    def model(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_data=None):
        if (indY, indX) == bad:
            raise Failed()
        return tuple(results[indY, indX][k] for k in OUT)

    for y, x in cells:
        loc = ds.isel({G.northing: y, G.easting: x})
        results[y, x] = local_result(cx, M, loc, y, x, ml, f"c{y}{x}_")
    Client.log = log = []

    def completed(fs):
        left = list(fs)
        i = 0
        while left:
            k = cx.choice(f"next{i}", range(len(left))) if len(left) > 1 else 0
            yield left.pop(k)
            i += 1

    raised = False
    with Patch(main, Client=Client, as_completed=completed, progress=lambda f: None, Config=Proxy(G), Constants=Proxy(C),
               cosipy_core=model):
        try:
            main.run_cosipy("cluster", io, ds, io.RESULT, io.RESTART, [])
        except Failed:
            raised = True
    got = [(f.a[1], f.a[2]) for f in log]
    cx.check("exactly-glacier-cells", sorted(got) == sorted(cells))
    for f in log:
        y, x = f.a[1], f.a[2]
        D = f.a[0]
        cx.check("own-forcing", float(D.HGT) == 5000.0 + y * nx + x and bool(np.array_equal(D.T2.values, ds.T2.isel({G.northing: y, G.easting: x}).values)))
        R = f.k.get("GRID_RESTART", f.a[3] if len(f.a) > 3 else None)
        cx.check("own-restart-state" if restart else "own-forcing", float(R.ID) == y * nx + x + 0.5 if restart else R is None)
    if bad is not None:
        cx.check("failure-not-silent", raised)
        return
    cx.check("results-at-own-cell", not raised and all(f.read == 1 for f in log))
    for (y, x), b in inside.items():
        expect_cell(cx, io, results.get((y, x)), y, x, "results-at-own-cell" if b else "masked-cells-missing", True, ml)
        expect_restart(cx, io, results.get((y, x)), y, x, "results-at-own-cell" if b else "masked-cells-missing", ml)


# --- C27 -------------------------------------------------------------------
BOUNDS = dict(T2=(243.16, 313.16), RH2=(0, 100), G=(0, 1600), U2=(0, 50), RRR=(0, 20), N=(0, 1), PRES=(400, 1080), LWin=(200, 400),
              SNOWFALL=(0, 0.1), SLOPE=(0, 90))


def field(cx, name, shape, lo, hi, missing=True):
    w = hi - lo

    def f(i):
        k = "_".join(map(str, i))
        if missing and cx.boolean(f"{name}_missing{k}"):
            return float("nan")
        return cx.real(f"{name}{k}", lo - w, hi + w)

    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = f(i)
    return out if cx.symbolic else out.astype(float)


@harness("C27", params=[dict(names=["T2", "RH2"]), dict(names=["G", "U2"]), dict(names=["RRR", "N"]), dict(names=["PRES", "LWin"]),
                        dict(names=["SNOWFALL", "SLOPE"])],
         bounds="two variables at a time, 2 values each, any value, any of them missing",
         expect=["accepted-iff-in-range", "warned-iff-out-of-range"])
def ranges(cx, M, names):
    io = M.io.IOClass()
    ds = xr.Dataset()
    v = {}
    for n in names:
        v[n] = field(cx, n, (2, 1), *BOUNDS[n], missing=n == names[0])
        ds[n] = (("time", "lat"), v[n])
    io.DATA = ds
    buf = _io.StringIO()
    with contextlib.redirect_stdout(buf):
        io.check_input_data()
    text = buf.getvalue()
    for n in names:
        lo, hi = BOUNDS[n]
        ok = True
        for e in v[n].ravel():
            if isnan(e):
                continue
            ok = ok & (e >= lo) & (e <= hi)
        warned = f"\n{n} ... MAX" in text
        accepted = f"{n} ... ok" in text
        cx.check("accepted-iff-in-range", ok if accepted else ~ok if is_sym(ok) else not ok)
        cx.check("warned-iff-out-of-range", accepted != warned)


@harness("C27", params=[dict()], bounds="two cells, two variables, two time steps, any value, any of them missing, both mask values",
         stubs=["dask client"], expect=["missing-inside-stops", "missing-outside-ignored"])
def missing(cx, M):
    main, G = M.main, M.Config
    G.restart, G.WRF, G.stake_evaluation, G.slurm_use, G.full_field = False, False, False, False, False
    mask = np.zeros((1, 2))
    for x in range(2):
        mask[0, x] = 1.0 if cx.boolean(f"mask{x}") else 0.0
    ds = domain(1, 2, 2, mask)
    a, b = field(cx, "T2", (2, 1, 2), 243.0, 313.0, False), field(cx, "RRR", (2, 1, 2), 0.0, 20.0, False)
    miss = cx.choice("missing", [None] + [(w, t, x) for w in "ab" for t in range(2) for x in range(2)])
    if miss:
        (a if miss[0] == "a" else b)[miss[1], 0, miss[2]] = float("nan")
    ds["T2"] = (("time", "lat", "lon"), a)
    ds["RRR"] = (("time", "lat", "lon"), b)
    Client.log = []
    io = types.SimpleNamespace(create_global_result_arrays=lambda: None, create_global_restart_arrays=lambda: None)
    stopped = False
    with Patch(main, Client=Client, as_completed=lambda f: [], progress=lambda f: None, Config=Proxy(G), Constants=Proxy(M.Constants)):
        try:
            main.run_cosipy("cluster", io, ds, None, None, [])
        except SystemExit:
            stopped = True
    if miss and mask[0, miss[2]] == 1:
        cx.check("missing-inside-stops", stopped)
        cx.check("missing-inside-stops", all(f.a[2] != miss[2] for f in Client.log))
    else:
        cx.check("missing-outside-ignored", not stopped and len(Client.log) == int(mask.sum()))


# --- C28 -------------------------------------------------------------------
class XrStub:
    def __init__(self, real, ds):
        self._r, self._d = real, ds

    def open_dataset(self, path, *a, **k):
        return self._d(path)

    def __getattr__(self, k):
        return getattr(self._r, k)


T0 = dtm.datetime(2020, 1, 1)


def stamp(i):
    return (T0 + dtm.timedelta(hours=i)).strftime("%Y-%m-%dT%H:%M")


@harness("C28", params=[dict(nt=4), dict(nt=3, shuffled=True), dict(nt=4, restart=True), dict(nt=2, tile=True), dict(nt=2, tile=True, wrf=True)],
         thorough=[dict(nt=6), dict(nt=4, shuffled=True), dict(nt=6, restart=True)],
         consts=dict(dt=3600),
         bounds="3-4 hourly records (thorough 6), any value, every start and end from two hours before to two hours after the data, "
                "records in any order (3 records), every tile of a 3x3 grid",
         stubs=["netCDF file: in-memory dataset", "file existence"],
         expect=["period-is-configured", "values-at-their-time"])
def period(cx, M, nt, shuffled=False, restart=False, tile=False, wrf=False):
    G, IO = M.Config, M.io
    G.restart, G.tile, G.WRF = restart, tile, wrf
    G.northing, G.easting = ("south_north", "west_east") if wrf else ("lat", "lon")
    if tile:
        s, e = 0, nt - 1
    else:
        s, e = cx.choice("start", range(-2, nt + 2)), cx.choice("end", range(-2, nt + 2))
        if e < s:
            return
    order = list(range(nt))
    if shuffled:
        left, order = list(range(nt)), []
        while left:
            order.append(left.pop(cx.choice(f"pos{len(left)}", range(len(left)))))
    m = 3 if tile else 1
    v = osym((nt, m, m), lambda i: cx.real(f"T{i[0]}_{i[1]}_{i[2]}", 250.0, 300.0))
    ds = xr.Dataset(coords=dict(time=[np.datetime64(stamp(i), "ns") for i in order]))
    if not wrf:
        ds = ds.assign_coords(lat=40.0 + np.arange(m), lon=10.0 + np.arange(m))
    dims = ("time", G.northing, G.easting)
    ds["T2"] = (dims, v[order] if nt > 1 else v)
    ds["MASK"] = (dims[1:], np.ones((m, m)))
    if tile:
        b = [cx.choice(n, range(0, 4)) for n in ("y0", "y1", "x0", "x1")]
        G.ystart, G.yend, G.xstart, G.xend = b
    G.time_start, G.time_end = stamp(s), stamp(e)
    rds = xr.Dataset(coords=dict(time=np.datetime64(stamp(s), "ns")))
    opened = []

    def opener(path):
        opened.append(path)
        return rds if "restart" in path else ds

    osm = types.SimpleNamespace(path=types.SimpleNamespace(join=IO.os.path.join, isfile=lambda p: True))
    io = IO.IOClass()
    refused = None
    import warnings
    with Patch(IO, xr=XrStub(IO.xr, opener), os=osm), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            D = io.create_data_file()
        except SystemExit as x:
            refused = x
        except IndexError as x:
            refused = x
    first = s + 1 if restart else s
    want = [i for i in range(nt) if first <= i <= e]
    if restart:
        cx.check("restart-file-of-start", bool(opened) and opened[0].endswith("restart_" + (T0 + dtm.timedelta(hours=s)).strftime("%Y-%m-%dT%H-%M") + ".nc")
                 if refused is None else True)
    if s > nt - 1 or e < 0 or (restart and first >= e):
        if s > nt - 1 or e < 0 or s == e:
            cx.check("period-refused", refused is not None)
        return
    cx.check("period-is-configured", refused is None and [str(t)[:16] for t in D.time.values] == [stamp(i) for i in want])
    ys, xs = list(range(m)), list(range(m))
    if tile:
        ys, xs = ys[b[0]:b[1]], xs[b[2]:b[3]]
        cx.check("tile-is-configured", D.T2.shape == (nt, len(ys), len(xs)) and (io.ny, io.nx) == (len(ys), len(xs)))
    cx.check("period-is-configured", io.time == len(want))
    cx.check_all("values-at-their-time", [same(D.T2.values[k, p, q], v[i, y, x]) for k, i in enumerate(want)
                                          for p, y in enumerate(ys) for q, x in enumerate(xs)] or [True])
