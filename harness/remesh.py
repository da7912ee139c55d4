"""C01/C02: remeshing conserves the column.

Two families keep every branch condition linear, so the solver decides them all:
  H  heights and water masses symbolic, ice fractions and temperatures concrete
  F  heights concrete, ice fractions, water contents and temperatures symbolic
"""
from vt.api import harness
from harness._common import *

CONS = ["height-conserved", "ice-conserved", "water-conserved", "heat-conserved"]


def column(cx, ns, ni, hs, hi, ice=None, T=None, heights=None):
    L = []
    for i in range(ns + ni):
        snow = i < ns
        if heights is None:
            h = cx.real(f"h{i}", *(hs if snow else hi))
            f, t = ice[i], T[i]
            W = cx.real(f"W{i}", 0.0, hs[1] if snow else 0.02 * hi[1])
            cx.assume(W <= (1.0 - f) * h)
            w = W / h
        else:
            h = heights[i]
            f = cx.real(f"ice{i}", 0.24 if snow else 0.97, 0.95 if snow else 1.0)
            w = cx.real(f"lwc{i}", 0.0, 0.76 if snow else 0.03)
            t = cx.real(f"T{i}", 200.0, 273.16)
            cx.assume(f + w <= 1.0)
        L.append((h, f, w, t))
    return L


def assume_kinds(cx, g, M, ns):
    thr = M.Constants.snow_ice_threshold
    for i in range(g.get_number_layers()):
        d = g.get_node_density(i)
        cx.assume(d < thr if i < ns else d >= thr)


def sums(g):
    h, f, w, t = state(g)
    return total(h), dot(f, h), dot(w, h), dot(t, h)


def start(cx, M, ns, ni, hs, hi, **k):
    L = column(cx, ns, ni, hs, hi, **k)
    g = build(cx, M, L)
    assume_kinds(cx, g, M, ns)
    return L, g


def after(cx, g):
    observe_grid(cx, g)
    n = g.get_number_layers()
    h, f, w, t = state(g)
    cx.check("node-count", len(h) == n and len(t) == n and n >= 1)
    cx.check_all("heights-positive-water-nonneg", [x > 0.0 for x in h] + [x >= -1e-9 for x in w])
    return h, f, w, t


ICES = [0.3, 0.45, 0.6, 0.2, 0.7]
TS = [260.0, 265.5, 270.25, 263.0, 268.0]


def H(ns, ni, rot=0, **k):
    ice = [ICES[(i + rot) % 5] for i in range(ns)] + [1.0, 0.99, 0.985, 1.0][:ni]
    return dict(ns=ns, ni=ni, ice=ice, T=[TS[(i + rot) % 5] for i in range(ns + ni)], **k)


def F(hsn, hic, **k):
    return dict(ns=len(hsn), ni=len(hic), heights=list(hsn) + list(hic), **k)


LOG = dict(remesh_method="log_profile", first_layer_height=0.01, layer_stretching=1.2)


@harness("C01", params=[H(1, 1, hi=(0.01, 0.04)), H(0, 2, hi=(0.01, 0.04)), H(1, 2, hs=(1e-6, 0.02), hi=(0.01, 0.02)),
                        H(2, 1, 1, hs=(1e-6, 0.015), hi=(0.02, 0.025)),
                        F([0.004, 0.012], [0.05]), F([0.03], [0.02, 0.02]), F([], [0.1, 0.02]),
                        F([0.013, 0.004, 0.02], [0.06]), F([0.0005, 0.0004], [0.2]),
                        F([0.005, 0.006, 0.003], [0.011, 0.013, 0.03]), F([0.1], [0.1]), F([], [0.004]), F([0.03], [0.002])],
         thorough=[H(1, 2), H(2, 1, 1), H(2, 2), H(3, 1, 3), H(0, 3), H(3, 2), H(4, 1, 2),
                   F([0.02, 0.003, 0.009, 0.02], [0.03, 0.05]), F([0.3], [0.2, 0.1]), F([0.05] * 4, [0.1] * 3)],
         consts=LOG,
         bounds="columns of up to 3 snow and 3 ice layers (thorough 4); family H: any heights (snow 0.001-20 mm, ice "
                "10-40 mm; thorough 0.001-30, 10-60 mm) and any water content, ice fractions and temperatures fixed per "
                "instance; family F: heights fixed per instance, any ice fraction >= 0.24, water content, temperature",
         assumes=[GRID_ASSUME, "snow layers lie above ice layers"], expect=CONS)
def log_remesh(cx, M, ns, ni, hs=(1e-6, 0.03), hi=(0.01, 0.06), **k):
    L, g = start(cx, M, ns, ni, hs, hi, **k)
    a = sums(g)
    hsnow = total([l[0] for l in L[:ns]])
    g.update_grid()
    after(cx, g)
    # a snowpack thinner than the documented minimum is dropped
    if ns and hsnow < M.Constants.minimum_snow_layer_height:
        s = sums(g)
        thin = (hsnow, dot([l[1] for l in L[:ns]], [l[0] for l in L]), dot([l[2] for l in L[:ns]], [l[0] for l in L]),
                dot([l[3] for l in L[:ns]], [l[0] for l in L]))
        for x, y, z in zip(s, a, thin):
            cx.le("thin-snow-loss-bounded", x, y)
            cx.ge("thin-snow-loss-bounded", x, y - z)
        return
    for lab, x, y in zip(CONS, sums(g), a):
        cx.close(lab, x, y)


ADP = dict(remesh_method="adaptive_profile", first_layer_height=0.01, merge_max=1,
           density_threshold_merging=5, temperature_threshold_merging=0.01)


@harness("C02", params=[H(2, 1, hs=(0.0011, 0.03), hi=(0.011, 0.04)), dict(H(2, 2, hs=(1e-6, 0.012), hi=(0.011, 0.03)), T=[260.0, 260.005, 265.0, 264.0], ice=[0.4, 0.402, 1.0, 0.99]),
                        H(0, 3, hi=(1e-6, 0.03)), H(1, 2, hs=(1e-6, 0.012), hi=(0.011, 0.03)),
                        F([0.02, 0.02, 0.005], [0.05]), F([0.004, 0.012], [0.05, 0.0005, 0.02]), F([], [0.1, 0.02, 0.3]),
                        F([0.002, 0.003, 0.0025, 0.05], [0.3]), F([0.0005, 0.02, 0.0006], [0.2]), F([0.12, 0.08], [0.3]), F([], [0.004]), F([0.03], [0.002])],
         thorough=[H(3, 1, hs=(1e-6, 0.03), hi=(0.011, 0.04)), H(2, 2), H(1, 3), H(3, 2), F([0.02] * 5, [0.05, 0.1]),
                   F([0.003] * 6, [0.1]), F([0.02, 0.0005, 0.02, 0.0008, 0.03], [0.2])],
         consts=ADP,
         bounds="columns of at least 2 mm, of up to 4 snow and 3 ice layers (thorough 6); family H: any heights (snow 0.001-30 mm, ice "
                "0.001-40 mm) and any water content, ice fractions and temperatures fixed per instance; family F: heights "
                "fixed per instance, any ice fraction >= 0.24, water content, temperature; merge_max 1",
         assumes=[GRID_ASSUME, "snow layers lie above ice layers",
                  "snow layers not thicker than minimum_snow_layer_height may be dropped (bounded by their own content)"],
         expect=CONS + ["thin-snow-loss-bounded"])
def adaptive_remesh(cx, M, ns, ni, hs=(1e-6, 0.03), hi=(0.01, 0.06), **k):
    L, g = start(cx, M, ns, ni, hs, hi, **k)
    a = sums(g)
    cx.assume(a[0] >= 0.002)      # a thinner column has melted away
    minh = M.Constants.minimum_snow_layer_height
    thin = [False] * len(L)
    for i in range(ns):
        if L[i][0] <= minh:
            thin[i] = True
    g.update_grid()
    after(cx, g)
    s = sums(g)
    if not any(thin):
        for lab, x, y in zip(CONS, s, a):
            cx.close(lab, x, y)
        return
    # what a dropped layer may take with it: its own content plus what was merged into it
    T = [l for l, t in zip(L, thin) if t]
    cap = (total([l[0] for l in T]), dot([l[1] for l in T], [l[0] for l in T]), dot([l[2] for l in T], [l[0] for l in T]),
           dot([l[3] for l in T], [l[0] for l in T]))
    for x, y, z in zip(s, a, cap):
        cx.le("thin-snow-loss-bounded", x, y)
        cx.ge("thin-snow-loss-bounded", x, y - z)
