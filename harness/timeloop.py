"""C19 mass balance terms, C20 phase of the surface fluxes, C21 precipitation, C36 reported state,
C38 water and ice budget of a whole time step.  The real time loop runs; the physical modules are
stand-ins that return arbitrary values (their own contracts are C04-C16)."""
import numpy as np
import xarray as xr

from vt import sym
from vt.api import harness
from vt.sym import is_sym
from harness._common import *

OUT = ("indY indX RESTART RAIN SNOWFALL LWin LWout H LE B QRR MB surfMB Q SNOWHEIGHT TOTALHEIGHT TS ALBEDO NLAYERS "
       "ME intMB EVAPORATION SUBLIMATION CONDENSATION DEPOSITION REFREEZE subM Z0 surfM new_snow_height "
       "new_snow_timestamp old_snow_timestamp MOL LAYER_HEIGHT LAYER_RHO LAYER_T LAYER_LWC LAYER_CC LAYER_POROSITY "
       "LAYER_ICE_FRACTION LAYER_IRREDUCIBLE_WATER LAYER_REFREEZE stake_names stat df").split()


def vec(v):
    """1-d array as a forcing variable"""
    return arr(v)


def scal(x):
    """a one-element array, as the surface solver returns"""
    if is_sym(x):
        out = np.empty(1, dtype=object)
        out[0] = x
        return out
    return np.array([float(x)])


def val(x):
    while isinstance(x, (np.ndarray, xr.DataArray)):
        x = x.item() if isinstance(x, np.ndarray) else x.values
    return x


def forcing(nt, **k):
    t = np.datetime64("2020-01-01T00:00", "ns") + np.arange(nt) * np.timedelta64(3600, "s")
    ds = xr.Dataset(coords=dict(time=t, lat=46.0, lon=10.0))
    for n, v in k.items():
        ds[n] = ("time", v) if not np.isscalar(v) and not is_sym(v) else v
    return ds


class Recorder:
    """the simulated column: records the calls of the time loop, everything else goes to the real column."""

    def __init__(self, grid, melt):
        self._g = grid
        self.calls = []
        self._melt = melt

    def __getattr__(self, k):
        return getattr(self._g, k)

    def add_fresh_snow(self, h, rho, T, lwc, dt):
        self.calls.append(("snow", h, rho, T, lwc, dt))

    def set_fresh_snow_props_update_time(self, dt):
        self.calls.append(("nosnow", dt))

    def update_grid(self):
        self.calls.append(("update",))

    def grid_check(self, *a):
        pass

    def remove_melt_weq(self, m):
        r = self._melt(m)
        self.calls.append(("melt", m, r))
        return r


class Patch:
    def __init__(self, mod, **k):
        self.mod, self.k = mod, k

    def __enter__(self):
        self.old = {n: getattr(self.mod, n) for n in self.k}
        for n, v in self.k.items():
            setattr(self.mod, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.mod, n, v)


class Seb:
    """surface energy balance stand-in: arbitrary temperature and fluxes, recorded."""

    def __init__(self, cx, p="", hot=None):
        self.cx, self.n, self.calls, self.hot, self.p = cx, 0, [], hot, p

    def __call__(self, GRID, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, LWin=None, N=None):
        cx, i = self.cx, self.n
        self.n += 1
        if self.hot is True:
            Ts = 273.16
        elif self.hot is False:
            Ts = cx.real(f"Ts{i}", 200.0, 273.15)
        else:
            Ts = cx.real(f"Ts{i}", 200.0, 273.16)
        f = {k: cx.real(f"{k}{i}", -600.0, 600.0) for k in ("H", "LE", "B")}
        f["Li"] = cx.real(f"Li{i}", 50.0, 450.0)
        f["Lo"] = cx.real(f"Lo{i}", -450.0, -50.0)
        f["QRR"] = cx.real(f"QRR{i}", -50.0, 50.0)
        f["MOL"] = cx.real(f"MOL{i}", -100.0, 100.0)
        self.calls.append(dict(f, Ts=Ts, SWnet=SWnet, RAIN=RAIN, T2=T2, rH2=rH2, p=p, u2=u2, z0=z0, dt=dt, LWin=LWin, N=N))
        return (None, scal(Ts), f["Li"], f["Lo"], f["H"], f["LE"], f["B"], f["QRR"],
                1.0, 2.5e6, f["MOL"], 0.1, 0.1, 0.001, 0.001)


def run(cx, M, ds, grid, seb, full=False, pen=None, alb=None, z0=None, perc=None, refr=None, heat=None, dens=None, restart=None,
        stakes=None):
    core = M.core
    n = dict(a=0, z=0, p=0, q=0, r=0)
    log = dict(pen=[], alb=[], z0=[], perc=[], refr=[])

    def albedo(GRID, Ts, snow):
        i = n["a"]; n["a"] += 1
        a = cx.real(f"alpha{i}", 0.0, 1.0) if alb is None else alb(i)
        log["alb"].append((a, val(Ts), snow))
        return a, snow

    def rough(GRID):
        i = n["z"]; n["z"] += 1
        z = cx.real(f"z0_{i}", 0.0001, 0.01) if z0 is None else z0(i)
        log["z0"].append(z)
        return z

    def penetr(GRID, SWnet, dt):
        i = n["p"]; n["p"] += 1
        r = (cx.real(f"subM{i}", 0.0, 0.05), cx.real(f"Gpen{i}", 0.0, 100.0)) if pen is None else pen(i, GRID, SWnet)
        log["pen"].append((SWnet, dt) + tuple(r))
        return r

    def percol(GRID, w, dt):
        i = n["q"]; n["q"] += 1
        r = cx.real(f"Q{i}", 0.0, 0.1) if perc is None else perc(i, GRID, w)
        log["perc"].append((w, dt, r))
        return r

    def refreeze(GRID):
        i = n["r"]; n["r"] += 1
        r = cx.real(f"refr{i}", 0.0, 0.05) if refr is None else refr(i, GRID)
        log["refr"].append(r)
        return r

    start = {} if restart is not None else dict(init_snowpack=lambda DATA: grid)
    more = {} if restart is None else dict(GRID_RESTART=restart)
    if stakes is not None:
        more.update(stake_names=stakes[0], stake_data=stakes[1])
    with Patch(core, **start, updateAlbedo=albedo, updateRoughness=rough,
               penetrating_radiation=penetr, update_surface_temperature=seb, percolation=percol, refreezing=refreeze,
               solveHeatEquation=(lambda GRID, dt: None) if heat is None else heat,
               densification=(lambda GRID, SLOPE, dt: None) if dens is None else dens):
        res = core.cosipy_core(ds, 0, 0, **more)
    return dict(zip(OUT, res)), log


def column(cx, M, lw=None):
    g = M.grid.Grid(arr([0.05, 0.1, 0.5]), arr([300.0, 400.0, 917.0]), arr([265.0, 266.0, 268.0]),
                    arr([0.01, 0.0, 0.0]), arr([0.4, 0.45, 1.0]), 0.05, 3600.0, 7200.0)
    k = [0]

    def melt(m):
        k[0] += 1
        return cx.real(f"lwcm{k[0] - 1}", 0.0, 0.05)

    return Recorder(g, melt)


STUBS = ["albedo, roughness, penetrating radiation, surface energy balance, percolation, refreezing: arbitrary values in "
         "their physical range", "column: re-meshing and melt removal recorded, the rest real"]
RHO = 300.0
CD = dict(densification_method="constant", constant_density=RHO)


def forc(cx, nt, precip="RRR", lw="LWin", free_T=True):
    k = {}
    k["T2"] = vec([cx.real(f"T2_{t}", 243.16, 313.16) if free_T else 270.0 + 3.0 * t for t in range(nt)])
    k["RH2"] = vec([70.0] * nt)
    k["PRES"] = vec([700.0] * nt)
    k["G"] = vec([cx.real(f"G{t}", -5.0, 1600.0) for t in range(nt)])
    k["U2"] = vec([3.0] * nt)
    if "RRR" in precip:
        k["RRR"] = vec([cx.real(f"RRR{t}", 0.0, 20.0) for t in range(nt)])
    if "SNOW" in precip:
        k["SNOWFALL"] = vec([cx.real(f"SF{t}", 0.0, 0.1) for t in range(nt)])
    if "LWin" in lw:
        k["LWin"] = vec([cx.real(f"LW{t}", 200.0, 400.0) for t in range(nt)])
    if "N" in lw.replace("LWin", ""):
        k["N"] = vec([cx.real(f"N{t}", 0.0, 1.0) for t in range(nt)])
    return k


def near(a, b, tol=1e-9):
    return (a - b <= tol) & (b - a <= tol)


# --- C19 -------------------------------------------------------------------
@harness("C19", params=[dict(nt=1, precip="RRR"), dict(nt=2, precip="none"), dict(nt=1, precip="SNOW")],
         thorough=[dict(nt=2, precip="RRR"), dict(nt=3, precip="none")],
         consts=CD, bounds="1-2 time steps (thorough 3), any forcing in the input bounds, any value of the modules, constant fresh snow density",
         stubs=STUBS, expect=["mb-sum", "surface-mb", "internal-mb", "melt-from-energy", "melt-energy", "reported-terms",
                              "melt-handed-to-column", "water-handed-to-percolation", "shortwave-split"])
def mass_balance(cx, M, nt, precip):
    C = M.Constants
    k = forc(cx, nt, "RRR" if precip == "none" else precip, free_T=nt == 1)
    if precip == "none":
        k["RRR"] = vec([0.0] * nt)
    seb = Seb(cx)
    col = column(cx, M)
    G = [k["G"][t] for t in range(nt)]
    o, log = run(cx, M, forcing(nt, **k), col, seb)
    wd = C.water_density
    snow = 0
    melts = [c for c in col.calls if c[0] == "melt"]
    cx.check("reported-terms", len(melts) == nt and len(log["perc"]) == nt and len(log["refr"]) == nt and seb.n == nt)
    ip = 0
    for t in range(nt):
        f = seb.calls[t]
        a = log["alb"][t][0]
        Gt = G[t] if G[t] >= 0 else 0.0
        SW = Gt * (1 - a)
        subm = gpen = 0.0
        if SW > 0:
            cx.close("shortwave-split", log["pen"][ip][0], SW)
            subm, gpen = log["pen"][ip][2:]
            ip += 1
        cx.close("shortwave-split", f["SWnet"], SW - gpen)
        e = SW - gpen + f["Li"] + f["Lo"] + f["H"] + f["LE"] + f["B"] + f["QRR"]
        ME = o["ME"][t]
        cx.close("melt-energy", ME, e if e > 0 else 0.0)
        cx.close("melt-from-energy", o["surfM"][t], ME * C.dt / (1000 * C.lat_heat_melting))
        sub, dep, eva, con = o["SUBLIMATION"][t], o["DEPOSITION"][t], o["EVAPORATION"][t], o["CONDENSATION"][t]
        cx.close("surface-mb", o["surfMB"][t], o["SNOWFALL"][t] - o["surfM"][t] + sub + dep + eva)
        cx.close("internal-mb", o["intMB"][t], log["refr"][t] - subm)
        cx.close("mb-sum", o["MB"][t], o["surfMB"][t] + o["intMB"][t])
        cx.close("reported-terms", o["REFREEZE"][t], log["refr"][t])
        cx.close("reported-terms", o["subM"][t], subm)
        cx.close("reported-terms", o["Q"][t], log["perc"][t][2])
        for n in ("H", "LE", "B", "QRR", "MOL"):
            cx.close("reported-terms", o[n][t], f[n])
        cx.close("reported-terms", o["LWin"][t], f["Li"])
        cx.close("reported-terms", o["LWout"][t], f["Lo"])
        cx.close("melt-handed-to-column", melts[t][1], o["surfM"][t] - sub - dep)
        cx.close("water-handed-to-percolation", log["perc"][t][0],
                 o["surfM"][t] + con + o["RAIN"][t] / 1000.0 + melts[t][2])
    cx.observe("MB", o["MB"][nt - 1])


# --- C20 -------------------------------------------------------------------
@harness("C20", params=[dict(hot=True), dict(hot=False), dict(hot=None)],
         consts=CD, bounds="one time step, any flux and surface temperature, no precipitation", stubs=STUBS,
         expect=["phase-exclusive", "loss-sign", "gain-sign", "latent-heat-mass", "melt-energy-nonneg", "state-passed-on"])
def phases(cx, M, hot):
    C = M.Constants
    k = forc(cx, 1)
    k["RRR"] = vec([0.0])
    seb = Seb(cx, hot=hot)
    o, log = run(cx, M, forcing(1, **k), column(cx, M), seb)
    f = seb.calls[0]
    sub, dep, eva, con = (o[n][0] for n in ("SUBLIMATION", "DEPOSITION", "EVAPORATION", "CONDENSATION"))
    if f["Ts"] < C.zero_temperature:
        cx.check("phase-exclusive", (eva == 0) & (con == 0))
        cx.close("latent-heat-mass", sub + dep, f["LE"] / (C.water_density * C.lat_heat_sublimation) * C.dt)
    else:
        cx.check("phase-exclusive", (sub == 0) & (dep == 0))
        cx.close("latent-heat-mass", eva + con, f["LE"] / (C.water_density * C.lat_heat_vaporize) * C.dt)
    for x in (sub, eva):
        cx.check("loss-sign", x <= 0)
    for x in (dep, con):
        cx.check("gain-sign", x >= 0)
    cx.check("phase-exclusive", (sub == 0) | (dep == 0))
    cx.check("phase-exclusive", (eva == 0) | (con == 0))
    cx.check("melt-energy-nonneg", o["ME"][0] >= 0)
    cx.check("melt-energy-nonneg", o["surfM"][0] >= 0)
    cx.close("state-passed-on", o["TS"][0], f["Ts"])
    cx.close("state-passed-on", o["Z0"][0], log["z0"][0])
    cx.close("state-passed-on", f["z0"], log["z0"][0])
    cx.close("state-passed-on", o["ALBEDO"][0], log["alb"][0][0])
    cx.close("state-passed-on", f["dt"], C.dt)
    cx.close("state-passed-on", f["T2"], k["T2"][0])
    cx.observe("sub", sub)
    cx.observe("eva", eva)


@harness("C20", params=[dict()], consts=CD, bounds="two time steps; the surface temperature of one step enters the albedo of the next",
         stubs=STUBS, expect=["surface-temperature-carried"])
def carried(cx, M):
    k = forc(cx, 2)
    k["RRR"] = vec([0.0, 0.0])
    k["G"] = vec([0.0, 0.0])
    seb = Seb(cx, hot=False)
    o, log = run(cx, M, forcing(2, **k), column(cx, M), seb)
    cx.close("surface-temperature-carried", log["alb"][1][1], seb.calls[0]["Ts"])


# --- C21 -------------------------------------------------------------------
def fresh_density(cx, M, T2, U2):
    C = M.Constants
    if C.densification_method == "constant":
        return C.constant_density
    d = 109.0 + 6.0 * (T2 - 273.16) + 26.0 * sym.root(U2, 2)
    return d if d > 50.0 else 50.0


@harness("C21", params=[dict(precip="RRR", _consts=CD), dict(precip="RRR"), dict(precip="RRR+SNOW", _consts=CD), dict(precip="RRR+SNOW"),
                        dict(precip="SNOW"), dict(precip="RRR+SNOW", _config=dict(force_use_TP=True)),
                        dict(precip="RRR", _consts=dict(CD, mult_factor_RRR=1.5)),
                        dict(precip="SNOW", _consts=dict(mult_factor_RRR=0.8))],
         bounds="one time step, any precipitation, temperature and wind in the input bounds", stubs=STUBS,
         expect=["total-conserved", "solid-fraction", "snow-temperature", "snow-density", "snow-dry", "snow-or-clock",
                 "given-snowfall-used", "rain-nonneg", "rain-passed-on"])
def precipitation(cx, M, precip):
    C = M.Constants
    k = forc(cx, 1, precip)
    k["G"] = vec([0.0])
    U2 = cx.real("U2", 0.0, 50.0) if C.densification_method != "constant" else 3.0
    k["U2"] = vec([U2])
    seb = Seb(cx, hot=False)
    col = column(cx, M)
    T2 = k["T2"][0]
    rrr = k["RRR"][0] * C.mult_factor_RRR if "RRR" in precip else None
    sf = k["SNOWFALL"][0] * C.mult_factor_RRR if "SNOW" in precip else None
    o, log = run(cx, M, forcing(1, **k), col, seb)
    rain, snow = o["RAIN"][0], o["SNOWFALL"][0]
    rho = fresh_density(cx, M, T2, U2)
    wd = C.water_density
    cx.check("rain-nonneg", rain >= 0)
    cx.close("rain-passed-on", seb.calls[0]["RAIN"], rain)
    given = sf is not None and not M.Config.force_use_TP
    if given:
        s = sf * rho / wd
    else:
        frac = 0.5 * (1.0 - sym.fun("tanh", (T2 - C.zero_temperature - C.center_snow_transfer_function) * C.spread_snow_transfer_function))
        s = rrr / 1000.0 * frac
        cx.check("solid-fraction", (frac >= 0) & (frac <= 1))
        cx.check("solid-fraction", snow <= rrr / 1000.0 + 1e-9)
    # thresholds: snow below the minimum height and rain below its water equivalent are dropped
    def kept(label, x, full, thr):
        e = 1e-9
        cx.check(label, (near(x, full) & (full >= thr - e)) | ((x == 0) & (full <= thr + e)))

    kept("given-snowfall-used" if given else "total-conserved", snow, s, C.minimum_snowfall * rho / wd)
    if rrr is None:
        cx.close("rain-nonneg", rain, 0.0)
    else:
        kept("total-conserved", rain, rrr - s * 1000.0, C.minimum_snowfall * rho / wd * 1000.0)
    new = [c for c in col.calls if c[0] == "snow"]
    old = [c for c in col.calls if c[0] == "nosnow"]
    cx.check("snow-or-clock", len(new) + len(old) == 1)
    if new:
        _, h, d, T, lwc, dt = new[0]
        cx.close("snow-density", h * d, snow * wd)
        cx.close("snow-density", d, rho)
        cx.close("snow-temperature", T, T2 if T2 <= C.zero_temperature else C.zero_temperature)
        cx.close("snow-dry", lwc, 0.0)
        cx.close("snow-dry", dt, C.dt)
        cx.check("snow-or-clock", snow > 0)
    else:
        cx.close("snow-or-clock", snow, 0.0)
        cx.close("snow-or-clock", old[0][1], C.dt)
    cx.observe("rain", rain)
    cx.observe("snow", snow)


@harness("C21", params=[dict()], bounds="two air temperatures, same precipitation", stubs=STUBS, consts=CD,
         expect=["solid-share-decreases"])
def solid_share(cx, M):
    T = [cx.real("Ta", 243.16, 313.16), cx.real("Tb", 243.16, 313.16)]
    cx.assume(T[0] <= T[1])
    R = cx.real("RRR", 10.0, 20.0)
    out = []
    for i in range(2):
        k = dict(T2=vec([T[i]]), RH2=vec([70.0]), PRES=vec([700.0]), G=vec([0.0]), U2=vec([3.0]), RRR=vec([R]), LWin=vec([300.0]))
        o, _ = run(cx, M, forcing(1, **k), column(cx, M), Seb(cx, hot=False))
        out.append(o["SNOWFALL"][0])
    cx.ge("solid-share-decreases", out[0], out[1])


# --- C36 -------------------------------------------------------------------
GETTERS = dict(HEIGHT="get_height", RHO="get_density", T="get_temperature", LWC="get_liquid_water_content", CC="get_cold_content",
               POROSITY="get_porosity", ICE_FRACTION="get_ice_fraction", IRREDUCIBLE_WATER="get_irreducible_water_content",
               REFREEZE="get_refreeze")


class Column(Recorder):
    """real column; melt removes the top layer in the given step."""

    def __init__(self, grid, drop):
        super().__init__(grid, None)
        self.step, self.drop = 0, drop

    def add_fresh_snow(self, *a):
        self._g.add_fresh_snow(*a)

    def set_fresh_snow_props_update_time(self, dt):
        self._g.set_fresh_snow_props_update_time(dt)

    def remove_melt_weq(self, m):
        if self.step == self.drop:
            self._g.remove_node([0])
        self.step += 1
        return 0.0


def isnan(x):
    x = val(x)
    return (not is_sym(x)) and x is not None and float(x) != float(x)


@harness("C36", params=[dict(nt=1, full=True), dict(nt=2, full=True, drop=1), dict(nt=2, full=True, snow=1), dict(nt=2, full=False, drop=0)],
         thorough=[dict(nt=3, full=True, drop=1, snow=2)],
         consts=dict(CD, max_layers=5), config=dict(full_field=True),
         bounds="columns of 2-3 layers, 1-2 time steps (thorough 3), any temperatures, heights, ice fractions and water contents "
                "set by the modules, one layer lost or gained between steps",
         stubs=STUBS, expect=["profile", "unused-missing", "layer-count", "snow-height", "total-height", "snow-clock", "restart-is-last-step"])
def reported_state(cx, M, nt, full, drop=None, snow=None):
    M.Config.full_field = full
    C = M.Constants
    g = M.grid.Grid(arr([0.05, 0.1, 0.5]), arr([300.0, 400.0, 917.0]), arr([265.0, 266.0, 268.0]), arr([0.01, 0.0, 0.0]),
                    arr([0.4, 0.45, 1.0]), 0.05, 3600.0, 7200.0)
    col = Column(g, drop)
    snaps = []

    def perc(i, G, w):
        for j in range(G.get_number_layers()):
            G.set_node_liquid_water_content(j, cx.real(f"lwc{i}_{j}", 0.0, 0.05))
        return 0.0

    def refr(i, G):
        for j in range(G.get_number_layers()):
            # single steps: every layer below the top over the whole range (snow, firn or ice); otherwise snow above glacier ice
            lo, hi = (0.3, 0.8) if j == 0 else (0.1, 1.0)
            if nt > 1:
                lo, hi = (lo, min(hi, 0.9)) if j < G.get_number_layers() - 1 else (0.985, 1.0)
            G.set_node_ice_fraction(j, cx.real(f"if{i}_{j}", lo, hi))
            G.set_node_refreeze(j, cx.real(f"rf{i}_{j}", 0.0, 0.1))
        return 0.0

    def heat(G, dt):
        i = len(snaps)
        for j in range(G.get_number_layers()):
            G.set_node_temperature(j, cx.real(f"T{i}_{j}", 220.0, 273.16))

    def dens(G, SLOPE, dt):
        i = len(snaps)
        for j in range(G.get_number_layers()):
            G.set_node_height(j, cx.real(f"h{i}_{j}", 0.01, 0.5))
        s = {k: list(getattr(G, f)()) for k, f in GETTERS.items()}
        s["n"] = G.get_number_layers()
        s["sh"], s["th"] = G.get_total_snowheight(), G.get_total_height()
        s["clock"] = G.get_fresh_snow_props()
        snaps.append(s)

    k = dict(T2=vec([270.0] * nt), RH2=vec([70.0] * nt), PRES=vec([700.0] * nt), G=vec([0.0] * nt), U2=vec([3.0] * nt),
             RRR=vec([10.0 if t == snow else 0.0 for t in range(nt)]), LWin=vec([300.0] * nt))
    o, log = run(cx, M, forcing(nt, **k), col, Seb(cx, hot=False), perc=perc, refr=refr, heat=heat, dens=dens)
    cx.check("layer-count", len(snaps) == nt)
    for t, s in enumerate(snaps):
        cx.close("layer-count", o["NLAYERS"][t], s["n"])
        cx.close("snow-height", o["SNOWHEIGHT"][t], s["sh"])
        cx.close("total-height", o["TOTALHEIGHT"][t], s["th"])
        for a, b in zip(("new_snow_height", "new_snow_timestamp", "old_snow_timestamp"), s["clock"]):
            cx.close("snow-clock", o[a][t], b)
        for n in GETTERS:
            if not full:
                cx.check("profile", o["LAYER_" + n] is None)
                continue
            row = o["LAYER_" + n][t]
            for j in range(s["n"]):
                cx.close("profile", row[j], s[n][j])
            cx.check("unused-missing", len(row) == C.max_layers and all(isnan(row[j]) for j in range(s["n"], C.max_layers)))
    check_restart(cx, o["RESTART"], snaps[-1], C.max_layers)
    for j in range(snaps[-1]["n"]):
        cx.observe(f"rho{j}", snaps[-1]["RHO"][j])


def item(x):
    x = getattr(x, "values", x)
    return val(x)


def check_restart(cx, R, s, ml):
    lab = "restart-is-last-step"
    cx.close(lab, item(R.NLAYERS), s["n"])
    for a, b in zip(("NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP"), s["clock"]):
        cx.close(lab, item(getattr(R, a)), b)
    for a, b in dict(HEIGHT="HEIGHT", RHO="RHO", T="T", LWC="LWC", IF="ICE_FRACTION").items():
        v = getattr(R, "LAYER_" + a).values
        for j in range(s["n"]):
            cx.close(lab, v[j], s[b][j])
        cx.check(lab, len(v) == ml and all(isnan(v[j]) for j in range(s["n"], ml)))


@harness("C36", params=[dict()], consts=dict(CD, max_layers=4), config=dict(WRF_X_CSPY=True, full_field=False),
         bounds="coupled mode, column of 3 layers, one time step, any layer state", stubs=STUBS,
         expect=["profile", "unused-missing", "layer-count", "coupled-scalars"])
def reported_coupled(cx, M):
    g = M.grid.Grid(arr([0.05, 0.1, 0.5]), arr([300.0, 400.0, 917.0]), arr([265.0, 266.0, 268.0]), arr([0.01, 0.0, 0.0]),
                    arr([0.4, 0.45, 1.0]), 0.05, 3600.0, 7200.0)
    col = Column(g, None)
    snap = {}

    def dens(G, SLOPE, dt):
        for j in range(3):
            G.set_node_height(j, cx.real(f"h_{j}", 0.01, 0.5))
            G.set_node_temperature(j, cx.real(f"T_{j}", 220.0, 273.16))
            G.set_node_liquid_water_content(j, cx.real(f"w_{j}", 0.0, 0.1))
            G.set_node_ice_fraction(j, cx.real(f"i_{j}", 0.1, 0.9))
        snap.update({k: list(getattr(G, f)()) for k, f in GETTERS.items()})
        snap["sh"], snap["th"], snap["n"] = G.get_total_snowheight(), G.get_total_height(), G.get_number_layers()
        snap["clock"] = G.get_fresh_snow_props()

    k = dict(T2=vec([270.0]), RH2=vec([70.0]), PRES=vec([700.0]), G=vec([100.0]), U2=vec([3.0]), RRR=vec([0.0]), LWin=vec([300.0]))
    ds = forcing(1, **k)
    ds["DT"], ds["max_layers"], ds["ZLVL"] = 600, 6, 3.0
    seb = Seb(cx, hot=None)
    o, log = run(cx, M, ds, col, seb, dens=dens)
    f = seb.calls[0]
    cx.close("coupled-scalars", f["dt"], 600)
    for n in ("H", "LE", "B", "QRR", "MOL"):
        cx.close("coupled-scalars", o[n], f[n])
    cx.close("coupled-scalars", o["LWout"], f["Lo"])
    cx.close("coupled-scalars", o["TS"], f["Ts"])
    cx.close("coupled-scalars", o["ALBEDO"], log["alb"][0][0])
    cx.close("coupled-scalars", o["Z0"], log["z0"][0])
    cx.close("coupled-scalars", o["Q"], log["perc"][0][2])
    cx.close("coupled-scalars", o["REFREEZE"], log["refr"][0])
    cx.close("coupled-scalars", o["MB"], o["surfMB"] + o["intMB"])
    cx.close("coupled-scalars", o["surfM"], o["ME"] * 600 / (1000 * M.Constants.lat_heat_melting))
    cx.close("coupled-scalars", o["surfMB"], o["SUBLIMATION"] + o["DEPOSITION"] + o["EVAPORATION"] - o["surfM"])
    cx.close("coupled-scalars", o["intMB"], log["refr"][0] - o["subM"])
    cx.close("layer-count", o["NLAYERS"], snap["n"])
    cx.close("coupled-scalars", o["SNOWHEIGHT"], snap["sh"])
    cx.close("coupled-scalars", o["TOTALHEIGHT"], snap["th"])
    for a, b in zip(("new_snow_height", "new_snow_timestamp", "old_snow_timestamp"), snap["clock"]):
        cx.close("coupled-scalars", o[a], b)
    for n in ("HEIGHT", "RHO", "T", "LWC", "ICE_FRACTION"):
        row = o["LAYER_" + n]
        for j in range(3):
            cx.close("profile", row[j], snap[n][j])
        cx.check("unused-missing", len(row) == 6 and all(isnan(row[j]) for j in range(3, 6)))


# --- C38 -------------------------------------------------------------------
class Budget(Recorder):
    """column known by its ice and water mass only; every process obeys its own conservation law."""

    def __init__(self, cx, grid):
        super().__init__(grid, None)
        self.cx = cx
        self.ice, self.water = cx.real("ice0", 1.0, 50.0), cx.real("water0", 0.0, 2.0)
        self.ice0, self.water0 = self.ice, self.water
        self.i = 0

    def add_fresh_snow(self, h, rho, T, lwc, dt):
        self.ice = self.ice + h * rho / 1000.0
        self.water = self.water + h * lwc

    def set_fresh_snow_props_update_time(self, dt):
        pass

    def remove_melt_weq(self, m):
        if m > 0:
            r = self.cx.real(f"lwcm{self.i}", 0.0, 0.2)
            self.cx.assume(r <= self.water)
            self.ice = self.ice - m
            self.water = self.water - r
        else:
            r = 0.0
        self.i += 1
        return r


@harness("C38", params=[dict(nt=1), dict(nt=2)], thorough=[dict(nt=3)], consts=CD,
         bounds="1-2 time steps (thorough 3), any forcing, any module result that obeys the conservation law of its process, "
                "evaporation and deposition in excess of melt excluded (see findings)",
         stubs=STUBS + ["each process stand-in conserves mass as shown by C04, C05, C06, C08, C24"],
         assumes=["latent heat flux <= 0 below the melting point and >= 0 at it"],
         expect=["water-and-ice-budget", "ice-change-is-mass-balance"])
def budget(cx, M, nt):
    step_budget(cx, M, nt, False)


@harness("C38", params=[dict()], consts=CD, bounds="one time step, any flux",
         stubs=STUBS, expect=["evaporated-water-leaves-column", "deposited-ice-enters-column"])
def budget_vapour(cx, M):
    step_budget(cx, M, 1, True)


def step_budget(cx, M, nt, vapour):
    C = M.Constants
    k = forc(cx, nt, free_T=nt == 1)
    if nt > 1:
        k["RRR"] = vec([0.0] + [cx.real(f"RRR{t}", 0.0, 20.0) for t in range(1, nt)])
        k["G"] = vec([cx.real(f"G{t}", 1.0, 1600.0) for t in range(nt)])
    g = M.grid.Grid(arr([0.05, 0.5]), arr([300.0, 917.0]), arr([265.0, 266.0]), arr([0.0, 0.0]), arr([0.4, 1.0]), 0.0, 0.0, 0.0)
    col = Budget(cx, g)

    def pen(i, G, SW):
        s = cx.real(f"subM{i}", 0.0, 0.05)
        G.ice, G.water = G.ice - s, G.water + s
        return s, cx.real(f"Gpen{i}", 0.0, 100.0)

    def perc(i, G, w):
        q = cx.real(f"Q{i}", 0.0, 1.0)
        cx.assume(q <= G.water + w)
        G.water = G.water + w - q
        return q

    def refr(i, G):
        x = cx.real(f"refr{i}", 0.0, 0.05)
        cx.assume(x <= G.water)
        G.ice, G.water = G.ice + x, G.water - x
        return x

    seb = Seb(cx)
    real_seb = seb.__call__

    def guarded(*a, **kw):
        r = real_seb(*a, **kw)
        f = seb.calls[-1]
        if not vapour:
            cx.assume(f["LE"] <= 0 if f["Ts"] < C.zero_temperature else f["LE"] >= 0)
        return r

    o, log = run(cx, M, forcing(nt, **k), col, guarded, pen=pen, perc=perc, refr=refr)
    gain = mb = ev = 0.0
    for t in range(nt):
        gain = gain + o["SNOWFALL"][t] + o["RAIN"][t] / 1000.0 + o["CONDENSATION"][t] + o["DEPOSITION"][t] + o["SUBLIMATION"][t] - o["Q"][t]
        mb = mb + o["MB"][t]
        ev = ev + o["EVAPORATION"][t]
    dice = col.ice - col.ice0
    dtot = dice + col.water - col.water0
    if vapour:
        if ev < 0:
            cx.close("evaporated-water-leaves-column", dtot, gain + ev)
        elif o["DEPOSITION"][0] > o["surfM"][0]:
            cx.close("deposited-ice-enters-column", dtot, gain)
        else:
            cx.close("water-and-ice-budget", dtot, gain)
        return
    cx.close("water-and-ice-budget", dtot, gain)
    cx.close("ice-change-is-mass-balance", dice, mb - ev)


# --- C24 -------------------------------------------------------------------
@harness("C24", params=[dict(nt=1, precip="RRR"), dict(nt=2, precip="SNOW"), dict(nt=1, precip="RRR SNOW")],
         thorough=[dict(nt=2, precip="RRR")],
         consts=CD, bounds="the time loop: 1-2 time steps, any precipitation, air temperature and module results",
         stubs=STUBS, expect=["clock-once-per-step", "clock-step", "snow-only-when-snowing"])
def clock_in_loop(cx, M, nt, precip):
    """every time step tells the column either of its fresh snow or to advance the clocks, once and with the time step."""
    k = forc(cx, nt, precip, free_T=nt == 1)
    col = column(cx, M)
    o, log = run(cx, M, forcing(nt, **k), col, Seb(cx))
    ev = [c for c in col.calls if c[0] in ("snow", "nosnow")]
    cx.check("clock-once-per-step", len(ev) == nt)
    for t, c in enumerate(ev):
        cx.close("clock-step", c[-1], M.Constants.dt)
        if c[0] == "snow":
            cx.check("snow-only-when-snowing", o["SNOWFALL"][t] > 0)
            cx.close("snow-only-when-snowing", c[1] * RHO / 1000.0, o["SNOWFALL"][t])
        else:
            cx.close("snow-only-when-snowing", o["SNOWFALL"][t], 0.0)
