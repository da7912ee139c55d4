"""C13 surface temperature, C14 fluxes, C15 stability functions, C16 vapour pressure, C17 interpolation, C18 secant."""
import numpy as np

from vt import sym
from vt.api import harness
from vt.sym import is_sym
from harness._common import *
from harness.timeloop import Patch, scal, val

F8 = np.float64


def num(x):
    return x if is_sym(x) else F8(x)


def absval(x):
    return -x if x < 0 else x


def col3(M, T=(265.0, 266.0, 267.0)):
    return M.grid.Grid(arr([0.03, 0.05, 0.5]), arr([300.0, 350.0, 917.0]), arr(list(T)), arr([0.0, 0.01, 0.0]),
                       arr([0.3, 0.4, 1.0]), 0.0, 0.0, 0.0)


class Found:
    def __init__(self, x, fun):
        self.x, self.fun = x, fun


# --- C13 -------------------------------------------------------------------
@harness("C13", params=[dict(method="Newton", lw=True, _consts=dict(sfc_temperature_method="Newton")),
                        dict(method="Secant", lw=True, _consts=dict(sfc_temperature_method="Secant")),
                        dict(method="SLSQP", lw=True, _consts=dict(sfc_temperature_method="SLSQP")),
                        dict(method="L-BFGS-B", lw=True, _consts=dict(sfc_temperature_method="L-BFGS-B"))],
         consts=dict(stability_correction="Ri"),
         bounds="any value a root finder can return (150-400 K) or its failure, any top layer temperature; one fixed "
                "meteorological state (C14 covers the fluxes)",
         stubs=["scipy newton / minimize and the secant solver: arbitrary result or failure; a bounded minimiser respects its bounds"],
         expect=["capped", "written-to-top-layer", "fluxes-of-that-temperature", "fallback-when-out-of-bounds",
                 "fallback-objective", "no-fallback-otherwise"])
def surface_temperature(cx, M, method, lw):
    S = M.surface
    T0 = cx.real("Ttop", 200.0, 273.16)
    g = col3(M, (T0, 266.0, 267.0))
    x = cx.real("solution", 150.0, 400.0)
    fails = bool(cx.boolean("fails"))
    y = cx.real("fallback", 150.0, 400.0)
    Tt = cx.real("Ttest", 220.0, 330.0)
    calls = []
    SW = num(cx.real("SW", 0.0, 500.0))

    def solver(*a, **k):
        calls.append("root")
        if fails:
            raise RuntimeError("no convergence")
        return scal(x)

    def minim(f, x0, args=(), method=None, bounds=None, **k):
        calls.append("min")
        lo, hi = bounds[0]
        v = y if method_root else x
        cx.assume((v >= lo) & (v <= hi))
        calls.append((lo, hi))
        calls.append((val(f(scal(Tt), *args)), args))
        return Found(scal(v), 0.0)

    method_root = method in ("Newton", "Secant")
    met = (3600.0, 2.0, 0.001, 274.0, 70.0, 700.0)
    dt, z, z0, T2, rH2, p = met
    a = (F8(35.0), F8(0.5), F8(10.0))  # strong wind: no stability branch
    LW = F8(290.0)

    # the compiled secant helper is called from interpreted code
    def secant_stub(*a, **k):
        return solver()

    with Patch(S, newton=solver, minimize=minim, call_secant_jitted=secant_stub):
        r = S.update_surface_temperature(g, dt, z, z0, F8(T2), F8(rH2), F8(p), SW, a[0], a[1], a[2], LW, None)
    Ts = val(r[1])
    fell = "min" in calls
    if method_root:
        used = y if fell else x
        if fails:
            cx.check("fallback-when-out-of-bounds", fell)
        elif x < 220.0:
            cx.check("fallback-when-out-of-bounds", fell)
        else:
            cx.check("no-fallback-otherwise", not fell)
    else:
        used = x
        cx.check("no-fallback-otherwise", calls.count("min") == 1 and "root" not in calls)
    cx.close("capped", Ts, used if used <= 273.16 else 273.16)
    cx.close("written-to-top-layer", g.get_node_temperature(0), Ts)
    B_Ts = S.interp_subT(g)
    # the subsurface temperatures belong to the state before the update
    g.set_node_temperature(0, T0)
    B_Ts = S.interp_subT(g)
    g.set_node_temperature(0, Ts)
    ref = S.eb_fluxes(g, scal(Ts), dt, z, z0, F8(T2), F8(rH2), F8(p), a[0], a[1], a[2], B_Ts, LW, None)
    for i in range(6):
        cx.close("fluxes-of-that-temperature", r[2 + i], ref[i], tol=1e-6)
    if fell:
        res, args = next(c for c in calls if isinstance(c, tuple) and isinstance(c[1], tuple))
        g.set_node_temperature(0, T0)
        f = S.eb_fluxes(g, scal(Tt), dt, z, z0, F8(T2), F8(rH2), F8(p), a[0], a[1], a[2], B_Ts, LW, None)
        tot = SW + f[0] + f[1] + f[2] + f[3] + f[4] + f[5]
        cx.close("fallback-objective", res, absval(tot), tol=1e-6)
        lo, hi = next(c for c in calls if isinstance(c, tuple) and not isinstance(c[1], tuple))
        cx.check("fallback-when-out-of-bounds", lo >= 200.0)
    cx.observe("Ts", Ts)


# --- C16 -------------------------------------------------------------------
@harness("C16", params=[dict(a="ice", b="ice"), dict(a="water", b="water"), dict(a="ice", b="water")],
         bounds="any two temperatures 200-330 K", expect=["positive", "increasing", "argument-order"])
def vapour_pressure(cx, M, a, b):
    S = M.surface
    rng = dict(ice=(200.0, 273.159999), water=(273.16, 330.0))
    t1, t2 = cx.real("T1", *rng[a]), cx.real("T2", *rng[b])
    cx.assume(t1 + 0.01 <= t2 if a == b else t1 <= t2)
    Ea, E0 = S.get_saturation_vapor_pressure(num(t1), num(t2))
    cx.observe("Ea", Ea)
    cx.observe("E0", E0)
    cx.check("positive", (E0 > 0) & (Ea > 0))
    # surface temperature first: first value returned belongs to the air
    cx.check("increasing", E0 < Ea)
    Eb, E1 = S.get_saturation_vapor_pressure(num(t2), num(t1))
    cx.close("argument-order", Eb, E0, tol=1e-9)
    cx.close("argument-order", E1, Ea, tol=1e-9)


@harness("C16", params=[dict(side="ice"), dict(side="water")], bounds="temperatures within 1 K of the melting point",
         expect=["continuous", "formula"])
def vapour_continuous(cx, M, side):
    S = M.surface
    t = cx.real("T", 272.16, 273.1599) if side == "ice" else cx.real("T", 273.16, 274.16)
    E = S.method_EW_Sonntag(num(t))
    d = t - 273.16
    # |E(T) - 6.112| <= 0.6 |T - 273.16|
    lim = 0.6 * (-d if side == "ice" else d)
    cx.le("continuous", E - 6.112, lim, tol=1e-6)
    cx.le("continuous", 6.112 - E, lim, tol=1e-6)
    k = (22.46 * d) / (t - 0.55) if side == "ice" else (17.67 * d) / (t - 29.66)
    cx.close("formula", E, 6.112 * sym.fun("exp", k), tol=1e-6)


# --- C17 -------------------------------------------------------------------
@harness("C17", params=[dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=6)],
         bounds="3-4 layers (thorough 6), any heights 5 mm - 0.5 m and temperatures; the depth lies between two layer depths",
         expect=["linear-between-neighbours", "within-neighbours", "uniform"])
def interpolate(cx, M, n):
    S = M.surface
    H = [cx.real(f"h{i}", 0.005, 0.5) for i in range(n)]
    T = [cx.real(f"T{i}", 200.0, 273.16) for i in range(n)]
    z = cx.real("depth", 0.01, 0.3)
    cum, s = [], 0.0
    for h in H:
        s = s + h
        cum.append(s)
    cx.assume((cum[0] <= z) & (z < cum[-1]))
    g = build(cx, M, [(h, 0.5, 0.0, t) for h, t in zip(H, T)])
    r = S.get_subsurface_temperature(g, arr(cum), z)
    k = 0
    while not (z < cum[k + 1]):
        k += 1
    d1, d2 = cum[k], cum[k + 1]
    cx.close("linear-between-neighbours", (r - T[k]) * (d2 - d1), (T[k + 1] - T[k]) * (z - d1), tol=1e-7)
    lo, hi = (T[k], T[k + 1]) if T[k] <= T[k + 1] else (T[k + 1], T[k])
    cx.le("within-neighbours", r, hi, tol=1e-7)
    cx.ge("within-neighbours", r, lo, tol=1e-7)
    if T[k] == T[k + 1]:
        cx.close("uniform", r, T[k])
    cx.observe("r", r)


@harness("C17", params=[dict(n=3), dict(n=4)], bounds="3-4 layers of fixed heights, any temperatures",
         expect=["both-depths"])
def both_depths(cx, M, n):
    S, C = M.surface, M.Constants
    H = [0.02, 0.03, 0.03, 0.5][4 - n:]
    T = [cx.real(f"T{i}", 200.0, 273.16) for i in range(n)]
    g = build(cx, M, [(h, 0.5, 0.0, t) for h, t in zip(H, T)])
    r = S.interp_subT(g)
    cum = list(np.cumsum(H))
    for x, z in zip(r, (C.zlt1, C.zlt2)):
        k = max(i for i in range(n - 1) if cum[i] <= z)
        w = (z - cum[k]) / (cum[k + 1] - cum[k])
        cx.close("both-depths", x, T[k] + w * (T[k + 1] - T[k]), tol=1e-7)


# --- C18 -------------------------------------------------------------------
def jit(f):
    from numba import njit
    return njit(f)


def lin(x, a, r):
    return a * (x[0] - r)


def table(x, vals, xs, cnt):
    i = int(cnt[0])
    xs[i] = x[0]
    cnt[0] = i + 1
    return vals[i]


@harness("C18", params=[dict(a=-12.5), dict(a=3.0), dict(a=0.001)], bounds="any starting point 200-273.16, any root 150-400, slopes of both signs",
         expect=["linear-root-found"])
def secant_linear(cx, M, a):
    x0 = cx.real("x0", 200.0, 273.16)
    r = cx.real("root", 150.0, 400.0)
    p = M.secant.secant(jit(lin), scal(x0), args=(a, r), tol=1e-2, maxiter=50)
    cx.close("linear-root-found", p, r, tol=1e-2)
    cx.observe("p", p)


@harness("C18", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)],
         bounds="any function values at the points the solver visits, iteration limit 1-2 (thorough 3)",
         expect=["converged-or-error", "evaluation-limit"])
def secant_any(cx, M, n):
    x0 = cx.real("x0", 200.0, 273.16)
    vals = arr([cx.real(f"f{i}", -1000.0, 1000.0) for i in range(n + 4)])
    xs = arr([0.0] * (n + 4)) if not cx.symbolic else np.array([0.0] * (n + 4), dtype=object)
    cnt = np.zeros(1)
    err = False
    try:
        p = M.secant.secant(jit(table), scal(x0), args=(vals, xs, cnt), tol=1e-2, maxiter=n)
    except RuntimeError:
        err = True
    k = int(cnt[0])
    cx.check("evaluation-limit", k <= n + 2)
    if err:
        return
    p = val(p)
    ok = False
    for i in range(2) if k <= 2 else (k - 1,):      # the previous iterate: the last point evaluated
        d = p - xs[i]
        ok = ok | ((d <= 1e-2 + 1e-9) & (d >= -1e-2 - 1e-9)) | ((vals[i] == 0) & (d == 0))
    cx.check("converged-or-error", ok)


# --- C14 -------------------------------------------------------------------
def esat(T):
    k = 17.67 * (T - 273.16) / (T - 29.66) if T >= 273.16 else 22.46 * (T - 273.16) / (T - 0.55)
    return 6.112 * sym.fun("exp", k)


def meteo(cx, **fix):
    b = dict(T0=(220.0, 273.16), T2=(243.16, 313.16), rH=(1.0, 100.0), p=(400.0, 1080.0), u=(0.02, 40.0),
             rain=(0.0, 20.0), slope=(0.0, 60.0), LW=(100.0, 450.0), N=(0.0, 1.0), z0=(0.0001, 0.01),
             Tz1=(220.0, 273.16), Tz2=(220.0, 273.16), ice=(0.05, 1.0), lwc=(0.0, 0.3))
    return {k: fix[k] if k in fix else cx.real(k, *r) for k, r in b.items()}


def flux(cx, M, m, dt=3600.0, z=2.0, lw=True):
    g = M.grid.Grid(arr([0.03, 0.05, 0.5]), arr([300.0, 350.0, 917.0]), arr([265.0, 266.0, 267.0]),
                    arr([m["lwc"], 0.01, 0.0]), arr([m["ice"], 0.4, 1.0]), 0.0, 0.0, 0.0)
    args = (g, scal(m["T0"]), dt, z, num(m["z0"]), num(m["T2"]), num(m["rH"]), num(m["p"]), num(m["u"]),
            num(m["rain"]), num(m["slope"]), arr([m["Tz1"], m["Tz2"]]))
    return g, [val(x) if x is not None else None for x in
               M.surface.eb_fluxes(*args, num(m["LW"]) if lw else None, None if lw else num(m["N"]))], args


FIXED = dict(T0=265.0, T2=270.0, rH=70.0, p=700.0, u=4.0, rain=1.0, slope=10.0, LW=280.0, N=0.5, z0=0.001, Tz1=266.0,
             Tz2=267.0, ice=0.4, lwc=0.0)


def free(cx, *names):
    return meteo(cx, **{k: v for k, v in FIXED.items() if k not in names})


@harness("C14", params=[dict(dt=3600.0), dict(dt=600.0)], consts=dict(stability_correction="Ri"),
         bounds="any surface and air temperature, rain, longwave input, subsurface temperatures, top layer state",
         expect=["longwave-in", "longwave-out", "rain-heat", "ground-heat"])
def simple_laws(cx, M, dt):
    C = M.Constants
    m = free(cx, "T0", "T2", "rain", "LW", "Tz1", "Tz2", "ice", "lwc")
    cx.assume(m["ice"] + m["lwc"] <= 1.0)
    g, r, _ = flux(cx, M, m, dt)
    T0 = m["T0"]
    cx.close("longwave-in", r[0], m["LW"])
    cx.close("longwave-out", r[1], -C.surface_emission_coeff * C.sigma * T0 * T0 * T0 * T0, tol=1e-9)
    cx.close("rain-heat", r[5], C.water_density * C.spec_heat_water * m["rain"] / 1000 / dt * (m["T2"] - T0), tol=1e-8)
    h1, h2 = C.zlt1, C.zlt2
    # gradient at the surface: the two layer gradients weighted with the distances
    g1, g2 = (m["Tz1"] - T0) / h1, (m["Tz2"] - m["Tz1"]) / (h2 - h1)
    lam = g.get_node_thermal_conductivity(0)
    cx.close("ground-heat", r[4], lam * (g1 * (h2 - h1) / h2 + g2 * h1 / h2), tol=1e-7)
    cx.observe("B", r[4])


@harness("C14", params=[dict(side="cold", v="T2 u"), dict(side="cold", v="T0 u"), dict(side="cold", v="rH u"), dict(side="cold", v="rH T0"), dict(side="cold", v="rH T0 T2", u=0.0),
                        dict(side="melting", v="T2 u"), dict(side="melting", v="rH slope")],
         thorough=[dict(side="cold", v="T0 T2 u"), dict(side="cold", v="slope u"), dict(side="cold", v="rH T2")],
         consts=dict(stability_correction="Ri"),
         bounds="two (thorough three) of surface temperature, air temperature, humidity, wind and slope at a time over their whole "
                "range, the others fixed; all Richardson regimes; roughness and pressure separately",
         expect=["sensible", "latent", "sensible-sign", "latent-sign", "no-wind", "suppressed"])
def turbulent(cx, M, side, v, u=None):
    m = free(cx, *v.split())
    if u is not None:
        m["u"] = u
    if side == "melting":
        m["T0"] = 273.16
    elif "T0" in v:
        cx.assume(m["T0"] <= 273.159)
    turb_check(cx, M, m)


@harness("C14", params=[dict()], consts=dict(stability_correction="Ri"),
         bounds="any roughness 0.1-10 mm and pressure; fixed temperatures, humidity and wind",
         expect=["sensible", "latent"])
def turbulent_exchange(cx, M):
    turb_check(cx, M, free(cx, "z0", "p"))


def turb_check(cx, M, m, z=2.0):
    g, r, _ = flux(cx, M, m)
    T0, T2, u = m["T0"], m["T2"], m["u"]
    Ew, E0 = esat(T2), esat(T0)
    q2 = m["rH"] / 100.0 * 0.622 * Ew / (m["p"] - Ew)
    q0 = 0.622 * E0 / (m["p"] - E0)
    cosb = sym.fun("cos", m["slope"] * (np.pi / 180)) if is_sym(m["slope"]) else np.cos(np.radians(m["slope"]))
    rho = m["p"] * 100.0 / (287.058 * T2 * (1 + 0.608 * q2))
    ln = lambda x: sym.fun("log", x)
    z0 = m["z0"]
    ct = 0.41 ** 2 / (ln(z / z0) * ln(z / (z0 / 100)))
    cq = 0.41 ** 2 / (ln(z / z0) * ln(z / (z0 / 10)))
    H, LE = r[2], r[3]
    C = M.Constants
    Lv = C.lat_heat_vaporize if T0 >= 273.16 else C.lat_heat_sublimation
    cx.close("latent", r[7], Lv)
    if u == 0:
        cx.close("no-wind", H, 0.0)
        cx.close("no-wind", LE, 0.0)
        return
    ri = 9.81 * (T2 - T0) * z / T2     # times 1 / u^2
    for lim in (0.01, 0.2):   # not within rounding of a regime boundary
        cx.assume((ri >= (lim + 1e-9) * u * u) | (ri <= (lim - 1e-9) * u * u))
    if ri > 0.2 * u * u:
        cx.close("suppressed", H, 0.0)
        cx.close("suppressed", LE, 0.0)
        return
    d = 1.0
    if ri > 0.01 * u * u:
        d = 1 - 5 * ri / (u * u)
        d = d * d
    cx.close("sensible", H, d * rho * C.spec_heat_air * ct * u * (T2 - T0) * cosb, tol=1e-4)
    cx.close("latent", LE, d * rho * Lv * cq * u * (q2 - q0) * cosb, tol=1e-4)
    if T2 >= T0:
        cx.ge("sensible-sign", H, 0.0, tol=1e-9)
    else:
        cx.le("sensible-sign", H, 0.0, tol=1e-9)
    if is_sym(m["T2"]) and is_sym(u):
        return   # follows from the formula
    cx.ge("latent-sign", LE * (q2 - q0), 0.0, tol=1e-9)
    cx.observe("H", H)
    cx.observe("LE", LE)


@harness("C14", params=[dict()], consts=dict(stability_correction="Ri"), bounds="any cloud cover, air temperature and humidity",
         expect=["konzelmann", "between-clear-and-overcast"])
def longwave_parametrised(cx, M):
    m = free(cx, "T2", "rH", "N")
    g, r, _ = flux(cx, M, m, lw=False)
    T2, N = m["T2"], m["N"]
    e = 100 * m["rH"] / 100.0 * esat(T2)
    cs = 0.23 + 0.433 * sym.power(e / T2, 1.0 / 8.0)
    f = M.Constants.sigma * T2 * T2 * T2 * T2
    cx.close("konzelmann", r[0], (cs * (1 - N * N) + 0.984 * N * N) * f, tol=1e-7)
    cx.le("between-clear-and-overcast", r[0], (cs if cs >= 0.984 else 0.984) * f, tol=1e-6)
    cx.ge("between-clear-and-overcast", r[0], (0.984 if cs >= 0.984 else cs) * f, tol=1e-6)
    cx.observe("Li", r[0])


@harness("C14", params=[dict(method=k, _consts=dict(sfc_temperature_method=k)) for k in ("Newton", "Secant", "SLSQP", "L-BFGS-B")],
         consts=dict(stability_correction="Ri"), bounds="any net shortwave, surface temperature, rain and longwave input",
         expect=["residual"])
def residual(cx, M, method):
    m = free(cx, "T0", "rain", "LW", "Tz1")
    SW = cx.real("SW", 0.0, 1000.0)
    g, r, a = flux(cx, M, m)
    e = val(M.surface.eb_optim(a[1], g, *a[2:8], num(SW), *a[8:], num(m["LW"]), None))
    tot = SW + r[0] + r[1] + r[2] + r[3] + r[4] + r[5]
    cx.close("residual", e, tot if method in ("Newton", "Secant") else absval(tot), tol=1e-7)
    cx.observe("e", e)


# --- C15 -------------------------------------------------------------------
MODES = [dict(coupled=False, _config=dict(WRF_X_CSPY=False)), dict(coupled=True, _config=dict(WRF_X_CSPY=True))]


@harness("C15", params=MODES, bounds="heights 1 mm - 10 m, Obukhov lengths 1 mm - 1e5 m of both signs",
         expect=["neutral-zero", "stable-nonpositive", "unstable-nonnegative", "stable-law", "heat-equals-momentum-if-stable",
                 "unstable-law"])
def stability(cx, M, coupled):
    S = M.surface
    z = cx.real("z", 0.001, 10.0)
    L = cx.real("L", -1e5, 1e5)
    cx.assume((L >= 0.001) | (L <= -0.05) | (L == 0.0))
    m, t = S.phi_m(num(z), num(L)), S.phi_tq(num(z), num(L))
    cx.observe("m", m)
    cx.observe("t", t)
    if L == 0:
        cx.close("neutral-zero", m, 0.0)
        cx.close("neutral-zero", t, 0.0)
    elif L > 0:
        zeta = z / L
        cx.le("stable-nonpositive", m, 0.0, tol=0.0)
        cx.close("heat-equals-momentum-if-stable", t, m)
        if zeta <= 1:
            cx.close("stable-law", m, -5 * zeta, tol=1e-7)
        elif coupled:
            cx.close("stable-law", m, -5.0)
        else:
            cx.close("stable-law", m, -4 * (1 + sym.fun("log", zeta)) - zeta, tol=1e-7)
    else:
        cx.ge("unstable-nonnegative", t, 0.0, tol=1e-9)
        x = sym.power(1 - 16 * z / L, 0.25)
        y = sym.power(1 - 19.3 * z / L, 0.25)
        cx.close("unstable-law", t, 2 * sym.fun("log", (1 + y * y) / 2), tol=1e-7)
        cx.close("unstable-law", m, 2 * sym.fun("log", (1 + x) / 2) + sym.fun("log", (1 + x * x) / 2)
                 - 2 * sym.fun("arctan", x) + np.pi / 2, tol=1e-7)


@harness("C15", params=[dict(b=(0.01, 1.0)), dict(b=(1.0, 20.0))], bounds="unstable, -z/L between 0.01 and 20",
         expect=["unstable-nonnegative"])
def unstable_sign(cx, M, b):
    S = M.surface
    s = cx.real("zeta", *b)
    m = S.phi_m(num(s), -1.0)
    cx.ge("unstable-nonnegative", m, 0.0, tol=1e-6)
    cx.observe("m", m)


@harness("C15", params=MODES, bounds="stability parameter within 1e-3 of one", expect=["continuous", "decreasing"])
def stable_continuous(cx, M, coupled):
    S = M.surface
    d = cx.real("d", 0.0, 0.001)
    e = cx.real("e", 0.0, 0.001)
    a, b = S.phi_m(num(1 - d), 1.0), S.phi_m(num(1 + e), 1.0)
    cx.le("continuous", a - b, 5 * (d + e), tol=1e-6)
    cx.ge("decreasing", a, b, tol=1e-6)
    cx.observe("a", a)


@harness("C15", params=[dict(sign=1), dict(sign=-1), dict(sign=0)],
         bounds="wind 0.3-40 m/s, roughness 0.1-10 mm, measurement height 1-10 m, any Obukhov length beyond 5 m",
         expect=["friction-velocity", "positive", "reduced-by-stability"])
def friction_velocity(cx, M, sign):
    S = M.surface
    u, z0, z = cx.real("u", 0.3, 40.0), cx.real("z0", 0.0001, 0.01), cx.real("z", 1.0, 10.0)
    L = sign * cx.real("L", 5.0, 1000.0) if sign else 0.0
    r = S.ustar(num(u), num(z), num(z0), num(L))
    n = sym.fun("log", z / z0)
    cx.assume(n >= 4.6)     # follows from the bounds on z / z0
    if sign <= 0:
        cx.assume(n <= 11.6)
    p = S.phi_m(num(z), num(L))
    if sign < 0:
        cx.assume(p <= 4.0)     # -z/L <= 2
    cx.close("friction-velocity", r * (n - p), 0.41 * u, tol=1e-7)
    cx.ge("positive", r, 0.0)
    if sign > 0:
        cx.le("reduced-by-stability", r * n, 0.41 * u, tol=1e-7)
    elif sign < 0:
        cx.assume(p >= 0)       # harness unstable_sign
        cx.ge("reduced-by-stability", r * n, 0.41 * u, tol=1e-7)
    else:
        cx.close("reduced-by-stability", r * n, 0.41 * u, tol=1e-7)
    cx.observe("r", r)


@harness("C15", bounds="density 0.3-1.5, friction velocity 0.001-2 m/s, heat flux up to 600 W m-2 of both signs",
         expect=["obukhov-length", "obukhov-sign", "no-flux"])
def obukhov(cx, M):
    S, C = M.surface, M.Constants
    r, us, T, H = cx.real("rho", 0.3, 1.5), cx.real("ust", 0.001, 2.0), cx.real("T", 230.0, 315.0), cx.real("H", -600.0, 600.0)
    L = val(S.MO(num(r), num(us), num(T), scal(H)))
    if H == 0:
        cx.close("no-flux", L, 0.0)
        return
    cx.assume((H >= 0.001) | (H <= -0.001))
    cx.close("obukhov-length", L * H * 0.41 * 9.81, r * C.spec_heat_air * us * us * us * T, tol=1e-6)
    cx.check("obukhov-sign", (L > 0) if H > 0 else (L < 0))
    cx.observe("L", L)


@harness("C14", params=[dict(v="rH", T2=278.0), dict(v="rH", T2=250.0), dict(v="p", T2=260.0), dict(v="", T2=270.0, u=0.0)],
         thorough=[dict(v="T2"), dict(v="u", T2=278.0)],
         consts=dict(stability_correction="MO"),
         bounds="Monin-Obukhov mode: humidity or pressure (thorough: air temperature, wind) over its range; fixed roughness",
         expect=["mo-sensible", "mo-latent", "mo-sensible-sign", "mo-length-sign"])
def turbulent_mo(cx, M, v, T2=None, u=None):
    m = free(cx, *v.split())
    if T2 is not None:
        m["T2"] = T2
    if u is not None:
        m["u"] = u
    g, r, _ = flux(cx, M, m)
    C = M.Constants
    T0, T2, u = m["T0"], m["T2"], m["u"]
    H, LE, rho, Lv, L, ct, cq, q0, q2 = r[2], r[3], r[6], r[7], r[8], r[9], r[10], r[11], r[12]
    cosb = np.cos(np.radians(m["slope"]))
    if u == 0.0:
        for x in (H, LE, L):
            cx.close("mo-no-wind", x, 0.0)
        return
    # the reported fluxes are the bulk fluxes of the reported transfer coefficients
    cx.close("mo-sensible", H, rho * C.spec_heat_air * ct * u * (T2 - T0) * cosb, tol=1e-4)
    cx.close("mo-latent", LE, rho * Lv * cq * u * (q2 - q0) * cosb, tol=1e-4)
    cx.ge("mo-sensible-sign", H * (T2 - T0), 0.0, tol=1e-9)
    cx.ge("mo-length-sign", L * (T2 - T0), 0.0, tol=1e-9)
    cx.observe("H", H)
