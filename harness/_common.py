"""helpers shared by the harnesses (work symbolically and concretely)."""
import numpy as np

from vt.sym import is_sym

GRID_ASSUME = ("layers: height > 0, 0 < ice fraction <= 1, liquid water >= 0, ice + water <= 1, "
               "200 K <= T <= melting point (unless a harness states otherwise)")


def arr(v):
    """array of floats (concrete) or of symbolic values."""
    if any(is_sym(e) for e in v):
        out = np.empty(len(v), dtype=object)
        for i, e in enumerate(v):
            out[i] = e
        return out
    return np.array([float(e) for e in v])


def layer(cx, i, hlo=0.001, hhi=5.0, ilo=0.02, ihi=1.0, wlo=0.0, whi=1.0, tlo=200.0, thi=273.16,
          full=True, p=""):
    h = cx.real(f"{p}h{i}", hlo, hhi)
    f = cx.real(f"{p}ice{i}", ilo, ihi)
    w = cx.real(f"{p}lwc{i}", wlo, whi)
    t = cx.real(f"{p}T{i}", tlo, thi)
    if full:
        cx.assume(f + w <= 1.0)
    return h, f, w, t


def build(cx, M, layers, fresh=None):
    """Grid from (h, ice, lwc, T) tuples."""
    h, f, w, t = (arr([l[k] for l in layers]) for k in range(4))
    rho = arr([0.0] * len(layers)) if cx.symbolic else np.full(len(layers), 300.0)
    if fresh is None:
        return M.grid.Grid(h, rho, t, w, f, 0.0, 0.0, 0.0)
    return M.grid.Grid(h, rho, t, w, f, *fresh)


def state(g):
    return (list(g.get_height()), list(g.get_ice_fraction()), list(g.get_liquid_water_content()),
            list(g.get_temperature()))


def dot(a, b):
    s = 0.0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def total(v):
    s = 0.0
    for x in v:
        s = s + x
    return s


def observe_grid(cx, g):
    if cx.symbolic:
        return
    for n, v in zip(("h", "ice", "lwc", "T"), state(g)):
        for i, x in enumerate(v):
            cx.observe(f"{n}[{i}]", x)
