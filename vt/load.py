"""Import cosipy from /repo, either symbolically executable or for real."""
import importlib
import math
import os
import sys
import types

REPO = os.environ.get("COSIPY_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

ALL = {
    "config": "cosipy.config", "constants": "cosipy.constants",
    "node": "cosipy.cpkernel.node", "grid": "cosipy.cpkernel.grid",
    "init": "cosipy.cpkernel.init", "io": "cosipy.cpkernel.io",
    "core": "cosipy.cpkernel.cosipy_core",
    "albedo": "cosipy.modules.albedo", "densification": "cosipy.modules.densification",
    "evaluation": "cosipy.modules.evaluation", "heat": "cosipy.modules.heatEquation",
    "radiation": "cosipy.modules.penetratingRadiation", "percolation": "cosipy.modules.percolation",
    "radcor": "cosipy.modules.radCor", "refreezing": "cosipy.modules.refreezing",
    "roughness": "cosipy.modules.roughness", "secant": "cosipy.modules.secant",
    "surface": "cosipy.modules.surfaceTemperature",
    "aws": "cosipy.utilities.aws2cosipy.aws2cosipy",
    "wrf": "cosipy.utilities.wrf2cosipy.wrf2cosipy",
    "setup": "cosipy.utilities.setup_cosipy.setup_cosipy",
    "static": "cosipy.utilities.createStatic.create_static_file",
    "utilcfg": "cosipy.utilities.config_utils",
    "main": "COSIPY",
}


def pandas_objects():
    """pandas reductions and to_numeric accept symbolic values."""
    import numpy as np
    import pandas as pd
    from pandas.core import nanops
    from .sym import is_sym
    if getattr(pd, "_vt", False):
        return
    pd._vt = True
    num, ens = pd.to_numeric, nanops._ensure_numeric

    def to_numeric(x, *a, **k):
        if is_sym(x):
            return x
        if isinstance(x, pd.Series) and any(is_sym(e) for e in x):
            return x
        return num(x, *a, **k)

    def ensure(x):
        if is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object and any(is_sym(e) for e in x.ravel())):
            return x
        return ens(x)

    pd.to_numeric = to_numeric
    nanops._ensure_numeric = ensure


class Modules:
    """lazy access to the modules under test."""

    def __init__(self, mode, consts=None, config=None, symconsts=None, values=None):
        self._mode = mode
        self._loaded = {}
        self._sym = {}
        os.chdir(REPO)
        sys.argv = sys.argv[:1]
        sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        if mode == "sym":
            import numpy, pandas, xarray, scipy.optimize  # noqa: real libraries first
            try:
                import dask, distributed  # noqa
            except Exception:
                pass
            for k in [k for k in sys.modules if k == "numba" or k.startswith("numba.")]:
                del sys.modules[k]
            from . import fakenumba
            fakenumba.install()
            xrs = types.ModuleType("xrspatial")     # needs numba.cuda; slope and aspect are stubbed by the harness
            xrs.slope = xrs.aspect = None
            sys.modules.setdefault("xrspatial", xrs)
            pandas_objects()
        try:
            import richdem  # noqa
        except ImportError:                           # stubbed by the harness
            sys.modules.setdefault("richdem", types.ModuleType("richdem"))
        C = importlib.import_module("cosipy.constants").Constants
        G = importlib.import_module("cosipy.config").Config
        for k, v in (consts or {}).items():
            setattr(C, k, v)
        for k, v in (config or {}).items():
            setattr(G, k, v)
        for k, bounds in (symconsts or {}).items():
            if mode == "sym":
                from .sym import Sym
                import z3
                v = Sym(z3.Real("const_" + k))
                self._sym[k] = bounds
            else:
                v = float((values or {}).get("const_" + k, (bounds[0] + bounds[1]) / 2))
            setattr(C, k, v)
        self.Constants, self.Config = C, G

    def __getattr__(self, k):
        if k.startswith("_") or k not in ALL:
            raise AttributeError(k)
        if k not in self._loaded:
            m = importlib.import_module(ALL[k])
            self._loaded[k] = m
            if self._mode == "sym":
                self.patch()
        return self._loaded[k]

    def patch(self):
        import numpy
        from . import npshim, sym
        back = {}
        for n, f in npshim.np_shim._ov.items():
            back[id(getattr(numpy, n))] = f
        for name, m in list(sys.modules.items()):
            if not (name.startswith("cosipy") or name == "COSIPY") or m is None:
                continue
            if getattr(m, "_vt_patched", False):
                continue
            m._vt_patched = True
            g = m.__dict__
            for k, v in list(g.items()):
                if v is numpy:
                    g[k] = npshim.np_shim
                elif v is math:
                    g[k] = npshim.math_shim
                elif id(v) in back and not k.startswith("__"):
                    g[k] = back[id(v)]
                elif getattr(v, "__module__", None) == "math" and callable(v):
                    g[k] = getattr(npshim.math_shim, k, v)
            for k, f in npshim.BUILTINS.items():
                g.setdefault(k, f)

    def declare(self, cx):
        """bounds of the symbolic constants (start of every path)."""
        for k, b in self._sym.items():
            cx.real("const_" + k, *b)

    def swap_consts(self, vals):
        """context manager: replace symbolic constants by numbers."""
        return _Swap(self, vals)


class _Swap:
    def __init__(self, M, vals):
        self.M, self.vals = M, vals

    def __enter__(self):
        self.saved = []
        if not self.M._sym:
            return
        from .sym import Sym
        from . import poly as P

        def ev(p):
            r = 0.0
            for m, c in p.d.items():
                x = float(c)
                for a, e in m:
                    x *= self.vals.get(str(P.ATOMS[a]), 0.0) ** e
                r += x
            return r

        def conv(v):
            r = ev(v.num)
            for f in v.dens:
                r /= ev(f)
            return r

        for name, m in list(sys.modules.items()):
            if (name.startswith("cosipy") or name == "COSIPY") and m is not None:
                for k, v in list(m.__dict__.items()):
                    if isinstance(v, Sym):
                        self.saved.append((m, k, v))
                        setattr(m, k, conv(v))
        for o in (self.M.Constants, self.M.Config):
            for k, v in list(vars(o).items()):
                if isinstance(v, Sym):
                    self.saved.append((o, k, v))
                    setattr(o, k, conv(v))

    def __exit__(self, *a):
        for o, k, v in self.saved:
            setattr(o, k, v)
