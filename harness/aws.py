"""C29/C30 station data to model forcing, C31 terrain radiation."""
import types

import numpy as np
import pandas as pd
import xarray as xr

from vt import sym
from vt.api import harness
from vt.sym import is_sym
from harness._common import *
from harness.runio import osym, same
from harness.timeloop import Patch, isnan, val

NAMES = dict(PRES_var="PRES", T2_var="T2", in_K=True, RH2_var="RH2", G_var="G", RRR_var="RRR", U2_var="U2", LWin_var="LW",
             SNOWFALL_var="SF", N_var="N")
RANGE = dict(T2=(230.0, 310.0), RH2=(0.0, 110.0), U2=(0.0, 60.0), G=(-10.0, 1700.0), PRES=(400.0, 1100.0), RRR=(0.0, 25.0),
             LW=(100.0, 450.0), N=(0.0, 1.0), SF=(0.0, 0.1))


def config(dz=0.0, hgt=5000.0, alt=5000.0, in_K=True, rad="none", wrf=False, aggregate=False, step="1h", lapse=None):
    return types.SimpleNamespace(
        names=dict(NAMES, in_K=in_K), coords=dict(WRF=wrf, aggregate=aggregate, aggregation_step=step, delimiter=","),
        points=dict(point_model=True, plon=90.64, plat=30.47, hgt=hgt),
        station=dict(stationName="s", stationAlt=alt, stationLat=30.0),
        lapse=lapse or dict(lapse_T=-0.006, lapse_RH=0.002, lapse_RRR=0.0001, lapse_SNOWFALL=0.00001),
        radiation=dict(radiationModule=rad, LUT=False, LUT_path="", dtstep=10800, tcart=26, timezone_lon=90.0, zeni_thld=85.0))


def station(cx, n, cols, freq="1h", in_K=True, gap=None):
    t = pd.date_range("2020-03-01T00:00", periods=n, freq=freq, name="TIMESTAMP")
    d = {}
    for c in cols:
        lo, hi = RANGE[c]
        if c == "T2" and not in_K:
            lo, hi = lo - 273.16, hi - 273.16
        v = [float("nan") if gap == (c, i) else cx.real(f"{c}{i}", lo, hi) for i in range(n)]
        s = np.empty(n, dtype=object)
        s[:] = v
        d[c] = s if cx.symbolic else s.astype(float)
    return pd.DataFrame(d, index=t), {c: list(d[c]) for c in cols}


def convert(cx, M, cfg, df, fn, *a, **stub):
    aws = M.aws
    out = {}
    aws._cfg = cfg

    def keep(dataset, output_path):
        out["ds"] = dataset

    import warnings
    stub.setdefault("check", lambda *a: None)
    with warnings.catch_warnings(), Patch(aws, read_input_file=lambda input_path: df.copy(), write_netcdf=keep, **stub):
        warnings.simplefilter("ignore")
        getattr(aws, fn)("in.csv", "out.nc", *a)
    return out["ds"]


def baro(p, h, alt):
    f = lambda z: sym.power(1 - 0.0065 * z / 288.15, 5.255) if is_sym(z) else (1 - 0.0065 * z / 288.15) ** 5.255
    return p / f(alt) * f(h)


def clip_rh(x):
    if is_sym(x):
        return sym.ite(x > 100, 100.0, sym.ite(x < 0, 0.1, x))
    return 100.0 if x > 100 else 0.1 if x < 0 else x


def pos(x):
    if is_sym(x):
        return sym.ite(x > 0, x, 0.0)
    return x if x > 0 else 0.0


def cells(ds, n, t):
    return val(ds[n].values[t, 0, 0])


FULL = ["T2", "RH2", "U2", "G", "PRES", "RRR", "LW", "N", "SF"]


@harness("C29", params=[dict(cols=FULL), dict(cols=[c for c in FULL if c not in ("LW", "SF")], in_K=False),
                        dict(cols=[c for c in FULL if c not in ("N", "SF")], n=3, window=True), dict(cols=FULL, n=3, gap=True), dict(cols=FULL, n=1, wrf=True)],
         thorough=[dict(cols=FULL, n=4, window=True)],
         bounds="2-3 hourly records (thorough 4), any station value in and slightly beyond its range, target altitudes 1000 m above or "
                "below the station, one missing value, temperature in K or C, every requested period",
         stubs=["csv reader: in-memory table", "netCDF writer: dataset kept in memory"],
         expect=["temperature-lapse", "humidity-lapse-clipped", "pressure-barometric", "precipitation-lapse-nonneg", "unchanged-fields",
                 "every-time-step", "coordinates", "point-metadata"])
def point(cx, M, cols, n=2, in_K=True, window=False, gap=False, wrf=False):
    dz = cx.choice("dz", [0.0, 1000.0, -1000.0])
    cfg = config(hgt=5000.0 + dz, alt=5000.0, in_K=in_K, wrf=wrf)
    g = cx.choice("gap", [None] + [(c, i) for c in ("T2", "RRR") for i in range(n)]) if gap else None
    df, v = station(cx, n, cols, in_K=in_K, gap=g)
    s, e = (cx.choice("start", range(n)), cx.choice("end", range(n))) if window else (0, n - 1)
    if e < s:
        return
    st = [str(t) for t in df.index]
    err = None
    try:
        ds = convert(cx, M, cfg, df, "create_1D_input", None, st[s] if window else None, st[e] if window else None)
    except ValueError as x:
        err = x
    if g and g[1] == 0:
        if g[0] == "T2":
            cx.check("missing-refused", err is not None)
        return
    if g:
        v[g[0]][g[1]] = v[g[0]][g[1] - 1]      # a gap takes the last valid value
    if err is not None:
        # nothing but a missing value or an implausible temperature is refused
        bad = False
        for i in range(s, e + 1):
            T = v["T2"][i] + (0.0 if in_K else 273.16) + dz * -0.006
            bad = bad | (T > 373.16) | (T < 173.16)
        cx.check("every-time-step", bad)
        return
    cx.check("every-time-step", list(ds.time.values) == list(df.index.values[s:e + 1]))
    L = cfg.lapse
    for k, i in enumerate(range(s, e + 1)):
        cx.close("temperature-lapse", cells(ds, "T2", k), v["T2"][i] + (0.0 if in_K else 273.16) + dz * L["lapse_T"])
        cx.close("humidity-lapse-clipped", cells(ds, "RH2", k), clip_rh(v["RH2"][i] + dz * L["lapse_RH"]))
        cx.close("pressure-barometric", cells(ds, "PRES", k), baro(v["PRES"][i], 5000.0 + dz, 5000.0))
        cx.close("precipitation-lapse-nonneg", cells(ds, "RRR", k), pos(v["RRR"][i] + dz * L["lapse_RRR"]))
        for a, b in (("U2", "U2"), ("G", "G"), ("LWin", "LW"), ("N", "N")):
            if b in cols:
                cx.close("unchanged-fields", cells(ds, a, k), v[b][i])
            else:
                cx.check("unchanged-fields", a not in ds)
        if "SF" in cols:
            cx.close("precipitation-lapse-nonneg", cells(ds, "SNOWFALL", k), pos(v["SF"][i] + dz * L["lapse_SNOWFALL"]))
        else:
            cx.check("unchanged-fields", "SNOWFALL" not in ds)
    cx.check("coordinates", list(ds.lat.values.ravel()) == [30.47] and list(ds.lon.values.ravel()) == [90.64])
    dims = ("south_north", "west_east") if wrf else ("lat", "lon")
    cx.check("coordinates", ds.T2.dims == ("time",) + dims and ds.G.dims == ds.T2.dims)
    for a, b in (("HGT", 5000.0 + dz), ("SLOPE", 0), ("ASPECT", 0), ("MASK", 1)):
        cx.check("point-metadata", ds[a].dims == dims and float(ds[a].values[0, 0]) == b)


@harness("C29", params=[dict()], bounds="four half-hourly records, any value", stubs=["csv reader and netCDF writer in memory"],
         expect=["hourly-means", "hourly-sums"])
def hourly(cx, M):
    df, v = station(cx, 4, FULL, freq="30min")
    ds = convert(cx, M, config(), df, "create_1D_input", None, None, None)
    cx.check("hourly-means", list(ds.time.values) == list(df.index.values[::2]))
    for k in range(2):
        for a, b in (("T2", "T2"), ("U2", "U2"), ("G", "G"), ("PRES", "PRES"), ("LWin", "LW"), ("N", "N")):
            cx.close("hourly-means", cells(ds, a, k), (v[b][2 * k] + v[b][2 * k + 1]) / 2)
        for a, b in (("RRR", "RRR"), ("SNOWFALL", "SF")):
            cx.close("hourly-sums", cells(ds, a, k), v[b][2 * k] + v[b][2 * k + 1])


BND = dict(T2=(223.16, 316.16), RH2=(0.0, 100.0), U2=(0.0, 50.0), G=(0.0, 1600.0), PRES=(200.0, 1080.0), RRR=(0.0, 20.0),
           SNOWFALL=(0.0, 0.05), LWin=(0.0, 400.0), N=(0.0, 1.0))


@harness("C29", params=[dict(names=["T2", "RH2", "U2"]), dict(names=["G", "PRES", "RRR"]), dict(names=["SNOWFALL", "LWin", "N"])],
         bounds="three variables with two values each, any value around the documented range, others in range", expect=["warned-iff-out-of-range"])
def warned(cx, M, names):
    import contextlib
    import io as _io
    cols = dict(LWin="LW", SNOWFALL="SF")
    ds, df, v = xr.Dataset(), {}, {}
    for n, (lo, hi) in BND.items():
        w = hi - lo
        v[n] = osym((2,), lambda i: cx.real(f"{n}{i[0]}", lo - w, hi + w)) if n in names else np.array([lo, hi])
        ds[n] = ("time", v[n])
        df[cols.get(n, n)] = 0.0
    M.aws._cfg = config()
    buf = _io.StringIO()
    with contextlib.redirect_stdout(buf):
        M.aws.check_data(ds, df)
    text = buf.getvalue()
    for n, (lo, hi) in BND.items():
        ok = True
        for e in v[n]:
            ok = ok & (e >= lo) & (e <= hi)
        bad = f"range {str.capitalize(n)} MAX" in text
        cx.check("warned-iff-out-of-range", (~ok if is_sym(ok) else not ok) if bad else ok)


@harness("C29", params=[dict()], bounds="any pressure, station and target altitude 0-8000 m",
         expect=["identity-at-station", "higher-is-lower"])
def pressure(cx, M):
    p, a, h = cx.real("p", 300.0, 1100.0), cx.real("alt", 0.0, 8000.0), cx.real("h", 0.0, 8000.0)
    M.aws._cfg = config(alt=a)
    cx.close("identity-at-station", M.aws.get_pressure_bias(p, a), p)
    x = M.aws.get_pressure_bias(p, h)
    cx.ge("higher-is-lower", x if h < a else p, p if h < a else x)


@harness("C29", params=[dict()], bounds="1-2 latitudes and longitudes, any value", expect=["lat-lon-not-swapped"])
def coordinates(cx, M):
    lat = [cx.real(f"lat{i}", -90.0, 90.0) for i in range(2)]
    lon = [cx.real(f"lon{i}", -180.0, 180.0) for i in range(3)]
    ds = M.aws.set_dataset_coordinates(xr.Dataset(), vec_(lat), vec_(lon))
    for y in range(2):
        for x in range(3):
            cx.close("lat-lon-not-swapped", val(ds.coords["lat"].values[y, x]), lat[y])
            cx.close("lat-lon-not-swapped", val(ds.coords["lon"].values[y, x]), lon[x])


def vec_(v):
    return arr(v)


@harness("C30", params=[dict(rad="none", cols=FULL, kind="mask"), dict(rad="Wohlfahrt2016", cols=[c for c in FULL if c != "N"], in_K=False, kind="mask"),
                        dict(rad="none", cols=FULL, wrf=True, kind="values", nx=1),
                        dict(rad="Wohlfahrt2016", cols=[c for c in FULL if c not in ("SF", "LW")], agg=True, kind="values", nx=1)],
         thorough=[dict(rad="none", cols=FULL, kind="values", nx=2), dict(rad="Wohlfahrt2016", cols=FULL, nx=3, kind="mask")],
         bounds="2x1 and 2x2 cells (thorough 2x3), any altitude 3000-6500 m, every glacier mask of 2x2 cells, 1-2 records, any station value",
         stubs=["csv reader, static file and netCDF writer in memory", "terrain radiation of a cell: arbitrary value"],
         expect=["temperature-lapse", "humidity-lapse-clipped", "pressure-barometric", "precipitation-lapse-nonneg", "unchanged-fields",
                 "radiation-inside-nonneg", "radiation-outside-missing", "static-fields"])
def distributed(cx, M, rad, cols, kind, nx=2, in_K=True, wrf=False, agg=False):
    n = 2 if agg else 1
    cfg = config(alt=5000.0, in_K=in_K, rad=rad, wrf=wrf, aggregate=agg, step="2h")
    df, v = station(cx, n, cols, in_K=in_K)
    if agg:
        for c in cols:
            v[c] = [v[c][0] + v[c][1] if c in ("RRR", "SF") else (v[c][0] + v[c][1]) / 2]
    if kind == "mask":
        for c in v:
            if c not in ("G", "T2"):
                df[c] = v[c] = [sum(RANGE[c]) / 2 - 0.125 + 0.25 * k for k in range(n)]
    hv = osym((2, nx), lambda i: cx.real(f"hgt{i[0]}{i[1]}", 3000.0, 6500.0)) if kind == "values" else None
    H = hv if hv is not None else 4800.0 + 300.0 * np.arange(2 * nx, dtype=float).reshape(2, nx)
    mask = np.full((2, nx), np.nan)
    for i in np.ndindex(2, nx):
        if i == (1, nx - 1) or (kind == "mask" and cx.boolean(f"mask{i[0]}{i[1]}")):
            mask[i] = 1.0
    st = xr.Dataset(coords=dict(lat=[30.2, 30.1], lon=90.0 + 0.1 * np.arange(nx)))
    asp = 10.0 * np.arange(2 * nx, dtype=float).reshape(2, nx)
    for k, a in (("HGT", H), ("MASK", mask), ("SLOPE", asp / 2), ("ASPECT", asp)):
        st[k] = (("lat", "lon"), a)
    calls = {}

    def correct(lat, lon, tz, doy, hour, slope, aspect, Rm, thld):
        r = cx.real(f"Rc{len(calls)}", -500.0, 1500.0)
        calls[float(lat), float(lon)] = (r, tz, doy, hour, float(slope), float(aspect), Rm, thld)
        return r

    X = types.SimpleNamespace(open_dataset=lambda p: st, Dataset=xr.Dataset)
    with Patch(M.aws.mod_radCor, correctRadiation=correct):
        ds = convert(cx, M, cfg, df, "create_2D_input", "static.nc", None, None, None, None, None, None, xr=X)
    L = cfg.lapse
    for y, x in np.ndindex(2, nx):
        dz = H[y, x] - 5000.0
        T = ds["T2"].values[0, y, x]
        at = lambda nm: val(ds[nm].values[0, y, x])
        cx.close("temperature-lapse", at("T2"), v["T2"][0] + (0.0 if in_K else 273.16) + dz * L["lapse_T"])
        cx.close("humidity-lapse-clipped", at("RH2"), clip_rh(v["RH2"][0] + dz * L["lapse_RH"]))
        cx.close("pressure-barometric", at("PRES"), baro(v["PRES"][0], H[y, x], 5000.0))
        cx.close("precipitation-lapse-nonneg", at("RRR"), pos(v["RRR"][0] + dz * L["lapse_RRR"]))
        if "SF" in cols:
            cx.close("precipitation-lapse-nonneg", at("SNOWFALL"), pos(v["SF"][0] + dz * L["lapse_SNOWFALL"]))
        for a, b in (("U2", "U2"), ("LWin", "LW"), ("N", "N")):
            if b in cols:
                cx.close("unchanged-fields", at(a), v[b][0])
            else:
                cx.check("unchanged-fields", a not in ds)
        if mask[y, x] == 1:
            if rad == "none":
                cx.close("radiation-inside-nonneg", at("G"), v["G"][0])
            else:
                k = (float(st.lat[y]), float(st.lon[x]))
                c = calls.get(k)
                cx.check("radiation-inside-nonneg", c is not None and c[1:6] == (90.0, 61, 0, asp[y, x] / 2, asp[y, x] - 180.0) and c[7] == 85.0)
                cx.close("radiation-inside-nonneg", c[6], v["G"][0])
                cx.close("radiation-inside-nonneg", at("G"), pos(c[0]))
        else:
            cx.check("radiation-outside-missing", isnan(at("G")))
    for a, b in (("HGT", H), ("SLOPE", asp / 2), ("ASPECT", asp - 180.0), ("MASK", mask)):
        cx.check_all("static-fields", [same(ds[a].values[i], b[i]) for i in np.ndindex(2, nx)])
    dims = ("time", "south_north", "west_east") if wrf else ("time", "lat", "lon")
    cx.check("static-fields", ds.T2.dims == dims)
    for y, x in np.ndindex(2, nx):
        la = ds.lat.values[y, x] if wrf else ds.lat.values[y]
        lo = ds.lon.values[y, x] if wrf else ds.lon.values[x]
        cx.check("static-fields", float(la) == [30.2, 30.1][y] and abs(float(lo) - 90.0 - 0.1 * x) < 1e-9)


# --- C31 -------------------------------------------------------------------
@harness("C31", params=[dict(kind="flat"), dict(kind="high-zenith"), dict(kind="facing")],
         bounds="any sun position above the horizon (zenith up to 89 degrees), day, slope up to 60 degrees, aspect and radiation 0-1500 W/m2",
         expect=["flat-unchanged", "low-sun-diffuse-only", "beam-geometry"])
def terrain(cx, M, kind):
    rc = M.radcor
    R = cx.real("R", 0.0, 1500.0)
    z = cx.real("zenith", 0.0, 89.0 * np.pi / 180)
    azi = cx.real("azimuth", -3.2, 3.2)
    asp = cx.real("aspect", -180.0, 180.0)
    if kind == "flat":
        cx.close("flat-unchanged", rc.radCor2D(180, z, azi, 0.0, asp, R, 85.0), R)
    elif kind == "high-zenith":
        th = cx.real("threshold", 60.0, 89.0)
        cx.assume(z > th * (np.pi / 180) + 1e-6)
        cx.close("low-sun-diffuse-only", rc.radCor2D(180, z, azi, cx.real("slope", 0.0, 60.0), asp, R, th), R)
    else:
        f = cx.real("diffuse", 0.0, 1.0)
        s = cx.real("slope", 0.0, 60.0)
        with Patch(rc, Fdif_Neustift=lambda *a: f):
            x = rc.radCor2D(180, z, azi, s, asp, R, 90.0)
        F = np.pi / 180
        cosi = sym.fun("cos", z) * sym.fun("cos", s * F) + sym.fun("sin", z) * sym.fun("sin", s * F) * sym.fun("cos", azi - asp * F)
        cx.close("beam-geometry", x * sym.fun("cos", z), R * f * sym.fun("cos", z) + R * (1.0 - f) * cosi, tol=1e-6)


@harness("C31", params=[dict(lat=47.0, day=170), dict(lat=-33.0, day=40), dict(lat=30.0, day=80)], thorough=[dict(lat=l, day=d) for l in (5.0, 61.0, 71.0) for d in (20, 200, 300)],
         bounds="latitudes 47, -33 and 30 degrees on one day each (nine more pairs when thorough); any hour between 0 and 24",
         expect=["azimuth-spherical", "elevation-zenith", "morning-east"])
def position(cx, M, lat, day):
    hour = cx.real("hour", 0.0, 24.0)
    F = np.pi / 180
    b, z, a = M.radcor.solarFParallel(lat, 90.0, 90.0, day, hour)
    dec = np.arcsin(0.39785 * np.sin((278.97 + 0.9856 * day + 1.9165 * np.sin((356.6 + 0.9856 * day) * F)) * F))
    S = lambda x: sym.fun("sin", x)
    Co = lambda x: sym.fun("cos", x)
    cx.close("elevation-zenith", b + z, np.pi / 2)
    cx.assume(z >= 0.02)
    c = float(np.sin(lat * F)) * Co(z) - float(np.sin(dec))
    d = float(np.cos(lat * F)) * S(z)
    cx.assume((c <= d * 0.999) & (c >= -0.999 * d))
    cx.close("azimuth-spherical", Co(a) * d, c, tol=1e-6)
    cx.check("morning-east", a <= 0 if hour < 12 else a >= 0)


@harness("C31", params=[dict()], bounds="latitude 45, day 80, any hour 8-16, two longitudes 15 degrees apart in the same time zone",
         expect=["sun-follows-longitude"])
def longitude(cx, M):
    h = cx.real("hour", 8.0, 16.0)
    a = M.radcor.solarFParallel(45.0, 90.0, 90.0, 80, h)[0]
    b = M.radcor.solarFParallel(45.0, 105.0, 90.0, 80, h - 1.0)[0]
    cx.close("sun-follows-longitude", sym.fun("sin", a), sym.fun("sin", b), tol=1e-6)


@harness("C31", params=[dict()], bounds="any radiation 0-1500 W/m2, day of year and zenith up to 89 degrees", expect=["diffuse-fraction"])
def diffuse(cx, M):
    z = cx.real("zenith", 0.0, 89.0 * np.pi / 180)
    f = M.radcor.Fdif_Neustift(cx.real("doy", 1.0, 366.0), z, cx.real("R", 0.0, 1500.0))
    cx.check("diffuse-fraction", (f >= 0.2465 - 1e-9) & (f <= 1.0 + 1e-9))
