"""C37 derived layer properties."""
import numpy as np

from vt import sym
from vt.api import harness
from harness._common import *
from harness.surfaceflux import num
from harness.timeloop import vec

METHODS = [dict(method=k, _consts=dict(thermal_conductivity_method=k)) for k in ("bulk", "empirical")]
ICE, WAT, AIR = 917.0, 1000.0, 1.1


def props(cx, C, f, w, h, t, rho, c, k, por, cc, irr, diff, air, method):
    v = 1 - f - w
    v = v if v >= 0 else 0.0
    cx.close("air-fraction", air, v)
    cx.close("porosity", por, 1 - f - w)
    if f + w <= 1:
        cx.close("volume-fractions", f + w + air, 1.0)
    r = f * C.ice_density + w * C.water_density + v * C.air_density
    cx.close("density-mixture", rho, r, tol=1e-7)
    s = f * C.spec_heat_ice + w * C.spec_heat_water + v * C.spec_heat_air
    cx.close("specific-heat-mixture", c, s, tol=1e-6)
    lam = (f * C.k_i + w * C.k_w + v * C.k_a) if method == "bulk" else 0.021 + 2.5 * (r / 1000) * (r / 1000)
    cx.close("conductivity", k, lam, tol=1e-8)
    cx.ge("conductivity-above-air", k, C.k_a if method == "bulk" else 0.021, tol=1e-9)
    cx.le("conductivity-below-ice", k, C.k_i if method == "bulk" else 2.6, tol=1e-9)
    cx.close("diffusivity", diff * r * s, lam, tol=1e-7)
    cx.close("cold-content", cc, s * r * h * (C.zero_temperature - t), tol=1e-2)
    cx.ge("irreducible-nonneg", irr, 0.0, tol=1e-9)
    if f <= 0.23:
        cx.close("irreducible-law", irr * f, 0.0264 * f + 0.0099 * (1 - f), tol=1e-8)
    elif f <= 0.812:
        cx.close("irreducible-law", irr, 0.08 - 0.1023 * (f - 0.03), tol=1e-8)
    else:
        cx.close("irreducible-law", irr, 0.0, tol=1e-8)


EXP = ["air-fraction", "volume-fractions", "density-mixture", "specific-heat-mixture", "conductivity", "conductivity-above-air",
       "conductivity-below-ice", "diffusivity", "cold-content", "irreducible-nonneg", "irreducible-law", "porosity"]


@harness("C37", params=METHODS, bounds="one layer, any height 1 mm - 5 m, ice fraction 0.02-1, water 0-1, temperature 200-280 K",
         expect=EXP)
def node_properties(cx, M, method):
    C = M.Constants
    h, f, w, t = layer(cx, 0, thi=280.0, full=False)
    cx.assume(f + w <= 1.05)
    n = M.node.Node(num(h), 300.0, num(t), num(w), num(f))
    cx.close("state-kept", n.get_layer_height(), h)
    cx.close("state-kept", n.get_layer_temperature(), t)
    cx.close("state-kept", n.get_layer_ice_fraction(), f)
    cx.close("state-kept", n.get_layer_liquid_water_content(), w)
    cx.close("state-kept", n.get_layer_refreeze(), 0.0)
    if f + w > 1:
        cx.assume(f + w >= 1.001)
        cx.close("air-fraction", n.get_layer_air_porosity(), 0.0)
        return
    props(cx, C, f, w, h, t, n.get_layer_density(), n.get_layer_specific_heat(), n.get_layer_thermal_conductivity(),
          n.get_layer_porosity(), n.get_layer_cold_content(), n.get_layer_irreducible_water_content(),
          n.get_layer_thermal_diffusivity(), n.get_layer_air_porosity(), method)
    cx.observe("rho", n.get_layer_density())
    cx.observe("cc", n.get_layer_cold_content())


@harness("C37", bounds="any snow density 50-917 kg m-3", expect=["density-recovered", "valid-fraction"])
def fraction_from_density(cx, M):
    """a layer made from a density has that density and a valid ice fraction."""
    r = cx.real("rho", 50.0, 917.0)
    n = M.node.Node(0.1, num(r), 270.0, 0.0, None)
    f = n.get_layer_ice_fraction()
    cx.close("density-recovered", n.get_layer_density(), r, tol=0.01)
    cx.check("valid-fraction", (f > 0) & (f <= 1.0 + 1e-12))
    cx.observe("f", f)


@harness("C37", params=[dict(n=2), dict(n=3)], bounds="2-3 layers, any state",
         expect=["lists-match-layers", "depth-is-mid-layer", "totals", "snow-count", "node-getters"])
def grid_properties(cx, M, n):
    """the column's lists are the layers' values in order."""
    C = M.Constants
    L = [layer(cx, i) for i in range(n)]
    g = build(cx, M, L)
    names = ["height", "temperature", "ice_fraction", "liquid_water_content", "density", "specific_heat", "porosity", "cold_content",
             "irreducible_water_content", "thermal_conductivity", "thermal_diffusivity", "refreeze"]
    for name in names:
        v = list(getattr(g, "get_" + name)())
        cx.check("lists-match-layers", len(v) == n)
        for i in range(n):
            h, f, w, t = L[i]
            nd = M.node.Node(num(h), 300.0, num(t), num(w), num(f))
            ref = getattr(nd, "get_layer_" + name)()
            cx.close("lists-match-layers", v[i], ref, tol=1e-6)
            cx.close("node-getters", getattr(g, "get_node_" + name)(i), ref, tol=1e-6)
    s = 0.0
    depth = list(g.get_depth())
    for i in range(n):
        cx.close("depth-is-mid-layer", depth[i], s + L[i][0] / 2)
        cx.close("depth-is-mid-layer", g.get_node_depth(i), s + L[i][0] / 2)
        s = s + L[i][0]
    cx.close("totals", g.get_total_height(), s)
    sn, k = 0.0, 0
    for i, d in enumerate(list(g.get_density())):
        if d < C.snow_ice_threshold:
            sn = sn + L[i][0]
            k += 1
    cx.close("totals", g.get_total_snowheight(), sn)
    cx.check("snow-count", g.get_number_snow_layers() == k)
    cx.close("totals", total(list(g.get_snow_heights())), sn)
    cx.close("totals", total(list(g.get_ice_heights())), s - sn)


@harness("C37", params=[dict(n=3)], bounds="3 layers, any position, any new values", expect=["setter-exact", "others-unchanged"])
def setters(cx, M, n):
    L = [layer(cx, i) for i in range(n)]
    g = build(cx, M, L)
    pos = int(cx.choice("pos", list(range(n))))
    what = cx.choice("what", ["height", "temperature", "ice_fraction", "liquid_water_content", "refreeze"])
    x = cx.real("x", 0.01, 0.9)
    y = num(x)
    if cx.symbolic:
        y = x
    names = ["height", "temperature", "ice_fraction", "liquid_water_content", "refreeze"]
    before = {k: list(getattr(g, "get_" + k)()) for k in names}
    getattr(g, "set_node_" + what)(pos, y)
    for k in names:
        v = list(getattr(g, "get_" + k)())
        for i in range(n):
            if k == what and i == pos:
                cx.close("setter-exact", v[i], x)
            else:
                cx.close("others-unchanged", v[i], before[k][i])
    new = arr([cx.real(f"y{i}", 0.01, 0.9) for i in range(n)])
    getattr(g, "set_" + what)(new)
    for k in names:
        v = list(getattr(g, "get_" + k)())
        for i in range(n):
            if k == what:
                cx.close("setter-exact", v[i], new[i])
            else:
                cx.close("others-unchanged", v[i], before[k][i])


@harness("C37", params=[dict(n=2)], bounds="appending a layer with any state at any position", expect=["updated", "others-unchanged"])
def update_layer(cx, M, n):
    L = [layer(cx, i) for i in range(n)]
    g = build(cx, M, L)
    pos = int(cx.choice("pos", list(range(n))))
    h, f, w, t = layer(cx, 9)
    g.update_node(pos, num(h), num(t), num(f), num(w))
    st = state(g)
    for i in range(n):
        exp = (h, f, w, t) if i == pos else L[i]
        for k in range(4):
            cx.close("updated" if i == pos else "others-unchanged", st[k][i], exp[k])
