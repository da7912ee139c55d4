"""C10 Oerlemans albedo, C11 Bougamont albedo, C12 roughness, C24 fresh snow bookkeeping."""
from vt import sym
from vt.api import harness
from harness._common import *


def E(x):
    return sym.fun("exp", x)


def top(cx, M, n, kind):
    """column whose surface is snow or ice; rest arbitrary."""
    thr = M.Constants.snow_ice_threshold
    L = [layer(cx, i, hhi=2.0) for i in range(n)]
    nsh = cx.real("new_snow_height", -0.1, 2.0)
    nst = cx.real("new_snow_timestamp", 0.0, 1e8)
    ost = cx.real("old_snow_timestamp", 0.0, 1e8)
    g = build(cx, M, L, (nsh, nst, ost))
    d0 = g.get_node_density(0)
    cx.assume(d0 <= thr if kind == "snow" else d0 > thr)
    return L, g, nsh, nst, ost


def age_hours(C, nsh, nst, ost):
    """age of the surface snow: that of the old snow once the fresh snow is gone."""
    if (nst / 3600.0 < C.albedo_mod_snow_aging * 24) and (nsh <= 0.0):
        return ost / 3600.0
    return nst / 3600.0


def snow_height(L, g, M):
    """summed height of the layers counted as snow"""
    s = 0.0
    for i, l in enumerate(L):
        if g.get_node_density(i) < M.Constants.snow_ice_threshold:
            s = s + l[0]
    return s


@harness("C10", params=[dict(n=1, kind="snow"), dict(n=2, kind="snow"), dict(n=1, kind="ice")], thorough=[dict(n=3, kind="snow"), dict(n=2, kind="ice")],
         consts=dict(albedo_method="Oerlemans98"),
         bounds="1-2 layers (thorough 3), any state, snow ages 0-1e8 s", assumes=[GRID_ASSUME],
         expect=["range", "oerlemans", "ice-albedo", "snow-albedo-passed-through"])
def oerlemans(cx, M, n, kind):
    C = M.Constants
    L, g, nsh, nst, ost = top(cx, M, n, kind)
    prev = cx.real("albedo_snow", 0.3, 0.9)
    a, s = M.albedo.updateAlbedo(g, 270.0, prev)
    cx.observe("alpha", a)
    cx.close("snow-albedo-passed-through", s, prev)
    if kind == "ice":
        cx.close("ice-albedo", a, C.albedo_ice)
        return
    cx.ge("range", a, C.albedo_ice)
    cx.le("range", a, C.albedo_fresh_snow)
    hrs = age_hours(C, nsh, nst, ost)
    snow = C.albedo_firn + (C.albedo_fresh_snow - C.albedo_firn) * E(-hrs / (C.albedo_mod_snow_aging * 24.0))
    d = snow_height(L, g, M)
    cx.close("oerlemans", a, snow + (C.albedo_ice - snow) * E(-d / (C.albedo_mod_snow_depth / 100.0)), tol=1e-7)


@harness("C10", params=[dict(what="age"), dict(what="depth")], consts=dict(albedo_method="Oerlemans98"),
         bounds="one layer above ice, two columns differing in age or depth", assumes=[GRID_ASSUME],
         expect=["monotone"])
def oerlemans_monotone(cx, M, what):
    f = cx.real("ice", 0.05, 0.9)
    h1, h2 = cx.real("h1", 0.001, 5.0), cx.real("h2", 0.001, 5.0)
    t1, t2 = cx.real("t1", 0.0, 1e8), cx.real("t2", 0.0, 1e8)
    if what == "age":
        h2 = h1
        cx.assume(t1 <= t2)
    else:
        t2 = t1
        cx.assume(h1 >= h2)
    out = []
    for h, t in ((h1, t1), (h2, t2)):
        g = build(cx, M, [(h, f, 0.0, 265.0), (1.0, 1.0, 0.0, 265.0)], (0.1, t, t))
        out.append(M.albedo.updateAlbedo(g, 270.0, 0.8)[0])
    # older or shallower snow is not brighter
    cx.ge("monotone", out[0], out[1], tol=1e-9)


BG = dict(albedo_method="Bougamont05")


@harness("C11", params=[dict(n=1, kind="snow"), dict(n=1, kind="ice"), dict(n=2, kind="snow"), dict(n=1, kind="snow", _consts=dict(dt=86400)),
                        dict(n=1, kind="snow", _consts=dict(dt=600))],
         consts=BG, bounds="1-2 layers, any state, surface temperature 200-273.16 K, previous snow albedo anywhere "
                           "between firn and fresh snow, dt = 600, 3600 and 86400 s",
         assumes=[GRID_ASSUME], expect=["range", "snow-albedo-range", "decay-rate", "reset-on-snowfall", "ice-albedo",
                                        "depth-effect"])
def bougamont(cx, M, n, kind):
    C = M.Constants
    L, g, nsh, nst, ost = top(cx, M, n, kind)
    Ts = cx.real("Ts", 200.0, 273.16)
    prev = cx.real("albedo_snow", C.albedo_firn, C.albedo_fresh_snow)
    a, s = M.albedo.updateAlbedo(g, Ts, prev)
    cx.observe("alpha", a)
    cx.observe("snow", s)
    if kind == "ice":
        cx.close("ice-albedo", a, C.albedo_ice)
        cx.close("ice-albedo", s, prev)
        return
    cx.ge("snow-albedo-range", s, C.albedo_firn)
    cx.le("snow-albedo-range", s, C.albedo_fresh_snow)
    cx.ge("range", a, C.albedo_ice)
    cx.le("range", a, s)
    days = C.dt / 86400.0
    if Ts >= C.zero_temperature:
        ts = C.t_star_wet
    elif Ts < C.t_star_cutoff:
        ts = C.t_star_dry + (C.zero_temperature - C.t_star_cutoff) * C.t_star_K
    else:
        ts = C.t_star_dry + (C.zero_temperature - Ts) * C.t_star_K
    if age_hours(C, nsh, nst, ost) == 0:
        cx.close("reset-on-snowfall", s, C.albedo_fresh_snow)
    else:
        # d(albedo)/dt = -(albedo - firn) / t*
        cx.close("decay-rate", (prev - s) * ts, (prev - C.albedo_firn) * days, tol=1e-7)
    d = snow_height(L, g, M)
    cx.close("depth-effect", a, s + (C.albedo_ice - s) * E(-d / (C.albedo_mod_snow_depth / 100.0)), tol=1e-7)


@harness("C12", params=[dict(kind="snow"), dict(kind="ice")], bounds="one layer, any state, snow ages 0-1e8 s", assumes=[GRID_ASSUME],
         expect=["range", "moelg", "ice-roughness"])
def roughness(cx, M, kind):
    C = M.Constants
    L, g, nsh, nst, ost = top(cx, M, 1, kind)
    z0 = M.roughness.updateRoughness(g)
    cx.observe("z0", z0)
    if kind == "ice":
        cx.close("ice-roughness", z0, C.roughness_ice / 1000.0)
        return
    cx.ge("range", z0, C.roughness_fresh_snow / 1000.0)
    cx.le("range", z0, C.roughness_firn / 1000.0)
    lin = C.roughness_fresh_snow + C.aging_factor_roughness * (nst / 3600.0)
    cx.close("moelg", z0 * 1000.0, lin if lin <= C.roughness_firn else C.roughness_firn)


@harness("C24", params=[dict(n=1), dict(n=2)], bounds="1-2 layers, snowfall 0-2 m, density 50-600 kg m-3, dt 1-86400 s",
         assumes=[GRID_ASSUME], expect=["new-layer-on-top", "layers-below-untouched", "clock-restart", "clock-continues",
                                        "density-kept"])
def fresh_snow(cx, M, n):
    C = M.Constants
    L = [layer(cx, i) for i in range(n)]
    nsh, nst, ost = cx.real("nsh", 0.0, 2.0), cx.real("nst", 0.0, 1e8), cx.real("ost", 0.0, 1e8)
    g = build(cx, M, L, (nsh, nst, ost))
    h = cx.real("snowfall", 0.0, 2.0)
    rho = cx.real("rho", 50.0, 600.0)
    T = cx.real("T", 200.0, 273.16)
    dt = cx.real("dt", 1.0, 86400.0)
    g.add_fresh_snow(h, rho, T, 0.0, dt)
    observe_grid(cx, g)
    H, F, W, TT = state(g)
    cx.check("new-layer-on-top", len(H) == n + 1 and g.get_number_layers() == n + 1)
    cx.close("new-layer-on-top", H[0], h)
    cx.close("new-layer-on-top", TT[0], T)
    cx.close("new-layer-on-top", W[0], 0.0)
    cx.close("density-kept", g.get_node_density(0), rho, tol=0.002, rel=0)
    for i, l in enumerate(L):
        for x, y in zip((H[i + 1], F[i + 1], W[i + 1], TT[i + 1]), l):
            cx.close("layers-below-untouched", x, y)
    a, b, c = g.get_fresh_snow_props()
    if h < C.minimum_snowfall:
        cx.close("clock-continues", a, nsh)
        cx.close("clock-continues", b, nst + dt)
        cx.close("clock-continues", c, ost + dt)
    else:
        cx.close("clock-restart", a, h)
        cx.close("clock-restart", b, 0.0)
        cx.close("clock-restart", c, nst)


@harness("C24", params=[dict()], bounds="any clock values", expect=["clock-continues", "revert-to-old"])
def clock(cx, M):
    L = [(0.1, 0.5, 0.0, 265.0)]
    nsh, nst, ost = cx.real("nsh", 0.0, 2.0), cx.real("nst", 0.0, 1e8), cx.real("ost", 0.0, 1e8)
    dt = cx.real("dt", 1.0, 86400.0)
    g = build(cx, M, L, (nsh, nst, ost))
    g.set_fresh_snow_props_update_time(dt)
    a, b, c = g.get_fresh_snow_props()
    for x, y in ((a, nsh), (b, nst + dt), (c, ost + dt)):
        cx.close("clock-continues", x, y)
    g.set_fresh_snow_props_to_old_props()
    a, b, c = g.get_fresh_snow_props()
    for x, y in ((a, nsh), (b, ost + dt), (c, ost + dt)):
        cx.close("revert-to-old", x, y)
