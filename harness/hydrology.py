from vt.api import harness
from harness._common import *


@harness("C05", params=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5), dict(n=6)],
         bounds="1-4 layers (thorough 6), heights 1 mm - 5 m, any ice fraction 0.02-1, water 0-1, surface input 0-2 m w.e.",
         assumes=[GRID_ASSUME], expect=["water-balance", "runoff-nonneg"])
def percolate(cx, M, n):
    L = [layer(cx, i, full=False) for i in range(n)]
    win = cx.real("water_in", 0.0, 2.0)
    g = build(cx, M, L)
    th = [g.get_node_irreducible_water_content(i) for i in range(n)]
    q = M.percolation.percolation(g, win, 3600)
    h, f, w, t = state(g)
    observe_grid(cx, g)
    cx.check("same-layers", len(h) == n and g.get_number_layers() == n)
    cx.close("water-balance", dot(w, h) + q, dot([l[2] for l in L], [l[0] for l in L]) + win)
    cx.ge("runoff-nonneg", q, 0.0)
    for i in range(n):
        cx.close("height-unchanged", h[i], L[i][0])
        cx.close("ice-unchanged", f[i], L[i][1])
        cx.close("temp-unchanged", t[i], L[i][3])
        cx.ge("water-nonneg", w[i], 0.0)
        if i < n - 1:
            cx.le("retention-limit", w[i], th[i])
            # capillary retention: a layer keeps what it can hold
        else:
            cx.close("bottom-drained", w[i], 0.0)
