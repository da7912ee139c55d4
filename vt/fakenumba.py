"""Identity stand-in for numba: the decorated Python source itself is executed."""
import sys
import types as _pytypes

import numpy as np


def install():
    nb = _pytypes.ModuleType("numba")

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f

    class _T:
        def __init__(self, n):
            self.n = n

        def __getitem__(self, i):
            return _T(self.n + "[]")

        def __call__(self, *a, **k):
            return _T(self.n + "()")

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return _T(self.n + "." + k)

    for n in ("float64", "float32", "int64", "int32", "intp", "uint64", "boolean", "optional", "void", "types"):
        setattr(nb, n, _T(n))
    nb.njit = nb.jit = nb.generated_jit = njit
    nb.prange = range
    nb.vectorize = nb.guvectorize = njit
    nb.__version__ = "0.0"
    nb.config = _pytypes.SimpleNamespace(DISABLE_JIT=True)

    class _List:
        def __call__(self, it=()):
            return list(it)

        @staticmethod
        def empty_list(*a, **k):
            return []

        def __getitem__(self, i):
            return self

    typed = _pytypes.ModuleType("numba.typed")
    typed.List = _List()
    nb.typed = typed

    exp = _pytypes.ModuleType("numba.experimental")

    def jitclass(*a, **k):
        spec = a[0] if a and not isinstance(a[0], type) else k.get("spec", {})

        def deco(cls):
            floats = {n for n, t in dict(spec).items() if getattr(t, "n", "") == "float64"}

            def __setattr__(self, name, v):
                if name in floats and isinstance(v, np.ndarray) and v.size == 1:
                    v = v.item()
                object.__setattr__(self, name, v)

            cls.__setattr__ = __setattr__
            cls.class_type = _pytypes.SimpleNamespace(instance_type=_T(cls.__name__))
            return cls

        if a and isinstance(a[0], type):
            spec = {}
            return deco(a[0])
        return deco

    exp.jitclass = jitclass
    nb.experimental = exp
    core = _pytypes.ModuleType("numba.core")
    ext = _pytypes.ModuleType("numba.core.extending")
    ext.overload = lambda *a, **k: (lambda f: f)
    ext.register_jitable = njit
    ext.intrinsic = njit
    core.extending = ext
    core.types = nb.types
    ext2 = _pytypes.ModuleType("numba.extending")
    ext2.__dict__.update(ext.__dict__)
    nnp = _pytypes.ModuleType("numba.np")
    ns = _pytypes.ModuleType("numba.np.numpy_support")
    ns.type_can_asarray = lambda *_: True
    nnp.numpy_support = ns
    nb.core, nb.np, nb.extending = core, nnp, ext2
    for m in (nb, typed, exp, core, ext, ext2, nnp, ns):
        m.__dict__.setdefault("__path__", [])
        sys.modules[m.__name__] = m
