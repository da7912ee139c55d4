"""C06 refreezing, C07 heat conduction, C08 penetrating radiation, C09 densification."""
from vt.api import harness
from harness._common import *


@harness("C06", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)],
         bounds="1-2 layers (thorough 3), ice fraction 0.02-1, any water content, 200 K <= T <= 280 K",
         assumes=["height > 0, 0.02 <= ice fraction, water >= 0, ice + water <= 1"],
         expect=["mass-conserved", "no-overshoot", "water-nonneg", "latent-heat", "refreeze-sum", "untouched-if-warm",
                 "density-limit", "water-share-refrozen"])
def refreeze(cx, M, n):
    C = M.Constants
    L = [layer(cx, i, thi=280.0) for i in range(n)]
    g = build(cx, M, L)
    tot = M.refreezing.refreezing(g)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    cx.check("node-count", len(h) == n and g.get_number_layers() == n)
    r = list(g.get_refreeze())
    cx.close("refreeze-sum", tot, total(r))
    phi = (C.snow_ice_threshold - C.air_density) / (C.ice_density - C.air_density)
    for i, (h0, f0, w0, t0) in enumerate(L):
        cx.close("height-unchanged", h[i], h0)
        cx.close("mass-conserved", (f[i] * C.ice_density + w[i] * C.water_density),
                 (f0 * C.ice_density + w0 * C.water_density), tol=1e-6)
        cx.close("refreeze-sum", r[i], (w0 - w[i]) * h0)
        cx.ge("refreeze-nonneg", r[i], 0.0)
        cx.ge("water-nonneg", w[i], 0.0)
        cx.ge("ice-nondecreasing", f[i], f0)
        cx.ge("warms", t[i], t0)
        if t0 <= C.zero_temperature:
            cx.le("no-overshoot", t[i], C.zero_temperature, tol=1e-7)
            # latent heat released equals the warming of the layer
            cx.close("latent-heat", (w0 - w[i]) * C.water_density * C.lat_heat_melting,
                     (t[i] - t0) * (f[i] * C.ice_density * C.spec_heat_ice + w[i] * C.water_density * C.spec_heat_water),
                     tol=1e-3)
            if w[i] < w0:
                cx.le("density-limit", f[i], phi)
            # refreezing stops only when water, pore space or cold content is used up
            if w0 > 0.0:
                cx.check("water-share-refrozen",
                         (w[i] <= 1e-9) | (f[i] >= phi - 1e-9) | ((w0 - w[i]) * C.water_density * C.lat_heat_melting
                          >= (C.zero_temperature - t0) * f0 * C.ice_density * C.spec_heat_ice * (1 - 1e-9))
                         | (t[i] >= C.zero_temperature - 1e-7))
        else:
            cx.close("untouched-if-warm", w[i], w0)
            cx.close("untouched-if-warm", t[i], t0)


def heat_grid(cx, M, n, ice, lwc=None, heights=None, hb=(0.01, 0.6)):
    L = []
    for i in range(n):
        h = cx.real(f"h{i}", *hb) if heights is None else heights[i]
        t = cx.real(f"T{i}", 200.0, 273.16)
        L.append((h, ice[i], lwc[i] if lwc else 0.0, t))
    return L, build(cx, M, L)


HEAT = ["boundary-fixed", "maximum-principle-upper", "maximum-principle-lower"]


@harness("C07", params=[dict(n=3, ice=[0.3, 0.5, 1.0]), dict(n=4, ice=[0.3, 0.35, 0.9, 1.0], heights=[0.01, 0.02, 0.05, 0.3], dt=3600),
                        dict(n=3, ice=[0.95, 0.3, 1.0], heights=[0.05, 0.03, 0.2], dt=3600),
                        dict(n=5, ice=[0.3, 0.5, 0.6, 1.0, 1.0], heights=[0.1, 0.12, 0.2, 0.4, 0.5], dt=3600),
                        dict(n=3, ice=[0.6, 0.5, 1.0], heights=[0.3, 0.05, 0.02], dt=3600),
                        dict(n=4, ice=[0.9, 0.4, 0.3, 0.5], heights=[0.2, 0.1, 0.04, 0.03], dt=1800)],
         thorough=[dict(n=4, ice=[0.2, 0.9, 0.5, 1.0]), dict(n=6, ice=[0.3, 0.5, 0.6, 0.7, 1.0, 1.0], heights=[0.05] * 6, dt=3600)],
         bounds="3-5 layers (thorough 6); either all heights 1-60 cm and one time step up to the "
                "stability limit with fixed ice fractions, or fixed heights with dt = 3600 s; any temperatures",
         assumes=[GRID_ASSUME, "at least 3 layers"], expect=HEAT + ["others-untouched"])
def conduct(cx, M, n, ice, heights=None, dt=None):
    L, g = heat_grid(cx, M, n, ice, heights=heights)
    if dt is None:
        dt = cx.real("dt", 1.0, 86400.0)
        K = list(g.get_thermal_diffusivity())
        # within the stability limit 0.4 d^2/K
        for i in range(n - 1):
            d = 0.5 * (L[i][0] + L[i + 1][0])
            cx.assume(dt * (K[i] + K[i + 1]) <= 0.4 * 2 * d * d)
    M.heat.solveHeatEquation(g, dt)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    cx.check("node-count", len(t) == n and g.get_number_layers() == n)
    T0 = [l[3] for l in L]
    cx.close("boundary-fixed", t[0], T0[0])
    cx.close("boundary-fixed", t[n - 1], T0[n - 1])
    hi, lo = cx.real("Tmax", 200.0, 273.16), cx.real("Tmin", 200.0, 273.16)
    for x in T0:
        cx.assume(x <= hi)
        cx.assume(x >= lo)
    for i in range(1, n - 1):
        cx.le("maximum-principle-upper", t[i], hi)
        cx.ge("maximum-principle-lower", t[i], lo)
    for i in range(n):
        for x, y in zip((h[i], f[i], w[i]), L[i]):
            cx.close("others-untouched", x, y)


@harness("C07", params=[dict(ice=[0.3, 0.5, 1.0], heights=[0.02, 0.03, 0.1]), dict(ice=[1.0, 0.9, 0.95], heights=[0.1, 0.1, 0.3]),
                        dict(ice=[0.4, 0.6, 1.0, 1.0], heights=[0.1, 0.05, 0.07, 0.3])],
         bounds="3-4 layers, fixed heights and ice fractions, any temperatures, dt up to a tenth of d^2/K",
         assumes=[GRID_ASSUME], expect=["fourier-flux"])
def conduct_flux(cx, M, ice, heights):
    """short steps: the temperature change is the divergence of the Fourier fluxes."""
    n = len(ice)
    L, g = heat_grid(cx, M, n, ice, heights=heights)
    dt = cx.real("dt", 0.001, 86400.0)
    K = list(g.get_thermal_diffusivity())
    d = [0.5 * (heights[i] + heights[i + 1]) for i in range(n - 1)]
    for i in range(n - 1):
        cx.assume(dt * (K[i] + K[i + 1]) * 0.5 <= 0.1 * d[i] * d[i])
    M.heat.solveHeatEquation(g, dt)
    t = list(g.get_temperature())
    T0 = [l[3] for l in L]
    for i in range(1, n - 1):
        down = 0.5 * (K[i] + K[i + 1]) * (T0[i + 1] - T0[i]) / d[i]
        up = 0.5 * (K[i] + K[i - 1]) * (T0[i] - T0[i - 1]) / d[i - 1]
        cx.close("fourier-flux", t[i], T0[i] + dt * (down - up) / (0.5 * (d[i] + d[i - 1])), tol=1e-7)


@harness("C07", params=[dict(ice=[0.5, 0.5, 0.5], h=0.05, dt=3600), dict(ice=[1.0, 1.0, 1.0], h=0.1, dt=7200), dict(ice=[0.3, 0.3, 0.3], h=0.03, dt=1800)],
         bounds="3 equal layers, any temperatures, dt of several sub-steps", assumes=[GRID_ASSUME],
         expect=["whole-step-upper", "whole-step-lower"])
def conduct_time(cx, M, ice, h, dt):
    """the whole time step is integrated: the middle layer relaxes as exp(-2K dt/h^2)."""
    L, g = heat_grid(cx, M, 3, ice, heights=[h] * 3)
    cx.assume(L[0][3] == L[2][3])
    a, b = L[0][3], L[1][3]
    cx.assume(b >= a)
    x = 2 * float(g.get_node_thermal_diffusivity(1)) * dt / (h * h)
    M.heat.solveHeatEquation(g, dt)
    u = list(g.get_temperature())[1] - a
    # explicit sub-steps relax at least as fast as exp and stay above 1 - x
    cx.le("whole-step-upper", u, (b - a) * 1.0001 * float(np.exp(-x)), tol=1e-6)
    cx.ge("whole-step-lower", u, (b - a) * max(0.0, 1 - x), tol=1e-6)


@harness("C08", params=[dict(n=2), dict(n=2, ice0=0.99), dict(n=3, heights=[0.02, 0.05, 0.3]), dict(n=3, heights=[0.01, 0.012, 0.2], ice0=0.99)],
         thorough=[dict(n=4, heights=[0.01, 0.012, 0.2, 0.5], ice0=0.99), dict(n=3, ice0=0.99), dict(n=3)],
         bounds="2 layers with heights 5 mm - 0.5 m, 3-4 layers with fixed heights, any state (ice fraction >= 0.1), "
                "net shortwave 0-1200 W m-2, dt = 3600 s",
         assumes=[GRID_ASSUME], expect=["mass-conserved", "melt-is-water-produced", "warms", "no-overshoot",
                                        "energy-balance", "absorbed-bounded", "penetrating-fraction"])
def radiation(cx, M, n, ice0=None, heights=None):
    C = M.Constants
    L = []
    for i in range(n):
        kw = dict(hlo=0.005, hhi=0.5)
        if i == 0 and ice0:
            kw.update(ilo=ice0, whi=0.01)
        elif i == 0:
            kw.update(ilo=0.1, ihi=0.6)
        else:
            kw.update(ilo=0.1)
        l = layer(cx, i, **kw)
        L.append(l if heights is None else (heights[i],) + l[1:])
    sw = cx.real("SWnet", 0.0, 1200.0)
    dt = 3600
    g = build(cx, M, L)
    rho = list(g.get_density())
    melt, si = M.radiation.penetrating_radiation(g, sw, dt)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    cx.close("penetrating-fraction", si, (0.1 if rho[0] <= C.snow_ice_threshold else 0.2) * sw)
    cx.ge("melt-nonneg", melt, 0.0)
    if len(h) != n:
        cx.check("node-count", g.get_number_layers() == len(h) and len(h) >= 1)
        return
    wat0, wat1 = dot([l[2] for l in L], [l[0] for l in L]), dot(w, h)
    ic0, ic1 = dot([l[1] for l in L], [l[0] for l in L]), dot(f, h)
    cx.close("mass-conserved", ic1 * C.ice_density + wat1 * C.water_density,
             ic0 * C.ice_density + wat0 * C.water_density, tol=1e-6)
    cx.close("melt-is-water-produced", melt, wat1 - wat0)
    absorbed = 0.0
    for i, (h0, f0, w0, t0) in enumerate(L):
        cx.ge("warms", t[i], t0)
        cx.le("no-overshoot", t[i], C.zero_temperature)
        cx.close("ice-fraction-unchanged", f[i], f0)
        cx.le("height-nonincreasing", h[i], h0)
        if t[i] < C.zero_temperature:
            absorbed = absorbed + (t[i] - t0) * rho[i] * C.spec_heat_ice * h0
            cx.close("energy-balance", w[i] * h[i], w0 * h0)
    cx.le("absorbed-bounded", absorbed, si * dt, tol=1e-3)
    cx.close("bottom-untouched", t[n - 1], L[n - 1][3])
    cx.close("bottom-untouched", h[n - 1], L[n - 1][0])


@harness("C08", params=[dict()],
         bounds="a light top layer (1-5 mm, ice fraction 0.005-0.03, wet or dry) above one layer, any shortwave up to 1200 W m-2",
         assumes=[GRID_ASSUME], expect=["upper-layers-only"])
def radiation_removed(cx, M):
    """a layer that melts completely leaves with all its mass."""
    C = M.Constants
    L = [layer(cx, 0, hlo=0.001, hhi=0.005, ilo=0.005, ihi=0.03, whi=0.3, tlo=270.0), (0.2, 0.5, 0.0, 265.0)]
    sw = cx.real("SWnet", 100.0, 1200.0)
    g = build(cx, M, L)
    melt, si = M.radiation.penetrating_radiation(g, sw, 3600)
    h, f, w, t = state(g)
    cx.check("node-count", len(h) in (1, 2) and g.get_number_layers() == len(h))
    if len(h) == 1:
        cx.close("upper-layers-only", h[0], 0.2)
        cx.close("upper-layers-only", t[0], 265.0)
        out = (L[0][1] * C.ice_density / C.water_density + L[0][2]) * L[0][0]
        cx.ge("removed-layer-ice-melted", melt, L[0][1] * C.ice_density / C.water_density * L[0][0])
        cx.close("removed-layer-mass-is-reported", melt, out, tol=1e-7)


def snowcol(cx, M, n, dry, hhi=0.5, thr=True):
    L = []
    for i in range(n):
        l = layer(cx, i, hlo=0.0005, hhi=hhi, ilo=0.05, ihi=0.97, whi=0.0 if dry else 0.3)
        if dry:
            l = (l[0], l[1], 0.0, l[3])
        L.append(l)
    return L, build(cx, M, L)


@harness("C09", params=[dict(n=1, dry=True), dict(n=2, dry=True), dict(n=1, dry=False), dict(n=2, dry=False)],
         thorough=[dict(n=3, dry=True), dict(n=3, dry=False)], consts=dict(densification_method="Boone"),
         bounds="1-2 layers (thorough 3), height 0.5 mm - 0.5 m, ice fraction 0.05-0.97, water 0-0.3, dt = 3600 s",
         assumes=[GRID_ASSUME],
         expect=["height-nonincreasing", "ice-nondecreasing", "dry-mass-second-order", "temp-unchanged", "glacier-ice-untouched",
                 "height-positive", "thin-untouched"])
def boone(cx, M, n, dry):
    C = M.Constants
    L, g = snowcol(cx, M, n, dry)
    rho = list(g.get_density())
    M.densification.densification(g, 0.0, 3600)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    ns = None
    cx.check("node-count", len(h) == n)
    for i, (h0, f0, w0, t0) in enumerate(L):
        cx.close("temp-unchanged", t[i], t0)
        cx.le("height-nonincreasing", h[i], h0, tol=1e-12)
        cx.ge("ice-nondecreasing", f[i], f0, tol=1e-12)
        cx.ge("water-nondecreasing", w[i], w0, tol=1e-12)
        cx.check("height-positive", h[i] > 0.0)
        if rho[i] >= C.snow_ice_threshold:
            cx.close("glacier-ice-untouched", h[i], h0, tol=1e-12)
            cx.close("glacier-ice-untouched", f[i], f0, tol=1e-12)
        elif h0 <= C.minimum_snow_layer_height:
            cx.close("thin-untouched", h[i], h0, tol=1e-12)
            cx.close("thin-untouched", f[i], f0, tol=1e-12)
        elif dry:
            # relative compaction d: ice mass changes by at most d^2
            d = 1.0 - h[i] / h0
            cx.close("dry-mass-second-order", f[i] * h[i], f0 * h0 * (1.0 - d * d), tol=1e-9)


@harness("C09", params=[dict(n=1, dry=True), dict(n=2, dry=True), dict(n=1, dry=False)],
         consts=dict(densification_method="empirical"),
         bounds="1-2 layers, height 0.5 mm - 0.5 m, ice fraction 0.05-0.97, water 0-0.3, dt = 3600 s",
         assumes=[GRID_ASSUME], expect=["height-nonincreasing", "temp-unchanged", "dense-untouched", "limit-density"])
def empirical(cx, M, n, dry):
    C = M.Constants
    L, g = snowcol(cx, M, n, dry)
    rho = list(g.get_density())
    M.densification.densification(g, 0.0, 3600)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    for i, (h0, f0, w0, t0) in enumerate(L):
        cx.close("temp-unchanged", t[i], t0)
        cx.close("water-unchanged", w[i], w0)
        cx.le("height-nonincreasing", h[i], h0, tol=1e-12)
        cx.check("height-positive", h[i] > 0.0)
        if rho[i] >= 600.0:
            cx.close("dense-untouched", h[i], h0)
            cx.close("dense-untouched", f[i], f0)
        else:
            cx.le("limit-density", f[i], 600.0 / C.ice_density + 1e-9)
            cx.ge("limit-density", f[i] * C.ice_density, (rho[i] * 1.0 if dry else f0 * 0.0) - 1e-6)


@harness("C09", params=[dict(n=2)], consts=dict(densification_method="constant"),
         bounds="2 layers", assumes=[GRID_ASSUME], expect=["constant-untouched"])
def constant(cx, M, n):
    L, g = snowcol(cx, M, n, False)
    M.densification.densification(g, 0.0, 3600)
    for s, k in zip(state(g), range(4)):
        for i in range(n):
            cx.close("constant-untouched", s[i], L[i][k])
