"""C03 merge/split, C04 surface melt removal."""
from vt.api import harness
from harness._common import *


@harness("C03", params=[dict(n=2, idx=0), dict(n=3, idx=1), dict(n=4, idx=1)], thorough=[dict(n=5, idx=2)],
         bounds="columns of 2-5 layers, any layer state", assumes=[GRID_ASSUME],
         expect=["height-conserved", "ice-conserved", "water-conserved", "heat-conserved", "others-untouched"])
def merge(cx, M, n, idx):
    L = [layer(cx, i) for i in range(n)]
    g = build(cx, M, L)
    g.merge_nodes(idx)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    cx.check("node-count", len(h) == n - 1 and g.get_number_layers() == n - 1)
    a, b = L[idx], L[idx + 1]
    cx.close("height-conserved", h[idx], a[0] + b[0])
    cx.close("ice-conserved", f[idx] * h[idx], a[1] * a[0] + b[1] * b[0])
    cx.close("water-conserved", w[idx] * h[idx], a[2] * a[0] + b[2] * b[0])
    cx.close("heat-conserved", t[idx] * h[idx], a[3] * a[0] + b[3] * b[0])
    rest = L[:idx] + [None] + L[idx + 2:]
    for i, l in enumerate(rest):
        if l is not None:
            for x, y in zip((h[i], f[i], w[i], t[i]), l):
                cx.close("others-untouched", x, y)


@harness("C03", params=[dict(n=1, pos=0), dict(n=3, pos=1), dict(n=3, pos=2)], thorough=[dict(n=5, pos=2)],
         bounds="columns of 1-5 layers, any layer state", assumes=[GRID_ASSUME],
         expect=["height-conserved", "ice-conserved", "water-conserved", "heat-conserved", "others-untouched"])
def split(cx, M, n, pos):
    L = [layer(cx, i) for i in range(n)]
    g = build(cx, M, L)
    g.split_node(pos)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    cx.check("node-count", len(h) == n + 1 and g.get_number_layers() == n + 1)
    for lab, v in (("ice", f), ("water", w), ("heat", t)):
        k = {"ice": 1, "water": 2, "heat": 3}[lab]
        cx.close(f"{lab}-conserved", v[pos] * h[pos] + v[pos + 1] * h[pos + 1], L[pos][k] * L[pos][0])
    cx.close("height-conserved", h[pos] + h[pos + 1], L[pos][0])
    rest = L[:pos] + [None, None] + L[pos + 1:]
    for i, l in enumerate(rest):
        if l is not None:
            for x, y in zip((h[i], f[i], w[i], t[i]), l):
                cx.close("others-untouched", x, y)


@harness("C03", params=[dict(n=2, idx=[0]), dict(n=3, idx=[1]), dict(n=4, idx=[0, 2]), dict(n=4, idx=[3, 1, 0])],
         bounds="columns of 2-4 layers, fixed index lists", assumes=[GRID_ASSUME], expect=["others-untouched"])
def remove(cx, M, n, idx):
    L = [layer(cx, i) for i in range(n)]
    g = build(cx, M, L)
    g.remove_node(idx if cx.symbolic else _typed(idx))
    h, f, w, t = state(g)
    keep = [l for i, l in enumerate(L) if i not in idx]
    cx.check("node-count", len(h) == len(keep) and g.get_number_layers() == len(keep))
    for i, l in enumerate(keep):
        for x, y in zip((h[i], f[i], w[i], t[i]), l):
            cx.close("others-untouched", x, y)


def _typed(idx):
    return list(idx)


def swe(g, M):
    return dot(list(g.get_height()), list(g.get_density())) / M.Constants.water_density


@harness("C04", params=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4), dict(n=5)],
         bounds="1-3 layers (thorough 5), any layer state with ice fraction >= 0.02, melt from -1 to 3 m w.e. "
                "(not above the column's water equivalent)",
         assumes=[GRID_ASSUME], expect=["melt-balance", "returned-water", "no-op", "rest-untouched", "fresh-snow-clock"])
def melt(cx, M, n):
    L = [layer(cx, i, hhi=2.0) for i in range(n)]
    m = cx.real("melt", -1.0, 3.0)
    fresh = tuple(cx.real(x, 0.0, 1e6) for x in ("nsh", "nst", "ost"))
    g = build(cx, M, L, fresh)
    s0 = swe(g, M)
    rho = list(g.get_density())
    cx.assume(m < s0)
    out = g.remove_melt_weq(m)
    observe_grid(cx, g)
    h, f, w, t = state(g)
    k = n - len(h)
    cx.check("node-count", g.get_number_layers() == len(h) and k >= 0 and len(h) >= 1)
    cx.close("fresh-snow-clock", g.get_fresh_snow_props()[1], fresh[1])
    cx.close("fresh-snow-clock", g.get_fresh_snow_props()[2], fresh[2])
    if m <= 0.0:
        cx.check("no-op", k == 0)
        cx.close("no-op", h[0], L[0][0])
        cx.close("no-op", out, 0.0)
    else:
        # mass leaves from the top: removed layers completely, then part of the next one
        cx.close("melt-balance", swe(g, M), s0 - m)
        cx.close("returned-water", out, dot([l[2] for l in L[:k]], [l[0] for l in L[:k]]))
        cx.check("top-layer-shrinks", h[0] > 0.0)
        cx.le("top-layer-shrinks", h[0], L[k][0])
    for i in range(len(h)):
        if i:
            cx.close("rest-untouched", h[i], L[k + i][0])
        for x, y in zip((f[i], w[i], t[i]), L[k + i][1:]):
            cx.close("rest-untouched", x, y)
