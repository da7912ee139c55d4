"""numpy / math / builtins stand-ins that understand symbolic values.
Everything not listed delegates to the real library."""
import builtins
import math as _math

import numpy as _np

from . import sym
from .sym import Sym, SymBool, fun, ite, is_sym, mkb, power, root, smax, smin, term, bterm
import z3


def _has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, _np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(_has_sym(e) for e in a)
    return False


def _is_floatish(dt):
    if dt is None:
        return True
    if dt is FloatShim or dt is F64Shim or dt is builtins.float:
        return True
    try:
        return _np.issubdtype(_np.dtype(dt), _np.floating)
    except TypeError:
        return False


def _map(f, *args):
    if any(isinstance(a, (_np.ndarray, list, tuple)) for a in args):
        arrs = _np.broadcast_arrays(*[_np.asarray(a, dtype=object) if not isinstance(a, _np.ndarray) else a for a in args])
        out = _np.empty(arrs[0].shape, dtype=object)
        for i in _np.ndindex(arrs[0].shape):
            out[i] = f(*[a[i] for a in arrs])
        return out
    return f(*args)


def _unary(name, kind=None, fn=None):
    real = getattr(_np, name)
    f1 = fn or (lambda x: fun(kind, x))

    def w(x, *a, **k):
        if is_sym(x):
            return f1(x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return _map(lambda e: f1(e) if is_sym(e) else real(float(e)), x)
        if isinstance(x, (list, tuple)) and _has_sym(x):
            return _map(lambda e: f1(e) if is_sym(e) else real(float(e)), _np.array(x, dtype=object))
        return real(x, *a, **k)

    w.__name__ = name
    return w


def _binary(name, fn):
    real = getattr(_np, name)

    def w(x, y, *a, **k):
        if _has_sym(x) or _has_sym(y):
            return _map(lambda p, q: fn(p, q) if (is_sym(p) or is_sym(q)) else real(p, q), x, y)
        return real(x, y, *a, **k)

    w.__name__ = name
    return w


def _scal_isnan(e):
    if is_sym(e):
        return False
    if e is None:
        raise TypeError("ufunc 'isnan' not supported for NoneType")
    return bool(_np.isnan(e))


def _arctan2(y, x):
    if x > 0:
        return fun("arctan", y / x)
    if x < 0:
        return fun("arctan", y / x) + (_math.pi if y >= 0 else -_math.pi)
    return _math.pi / 2 if y > 0 else -_math.pi / 2 if y < 0 else 0.0


TWO = dict(arctan2=_arctan2, hypot=lambda a, b: root(a * a + b * b, 2), copysign=lambda a, b: ite(b >= 0, abs(a), -abs(a)),
           heaviside=lambda a, b: ite(a > 0, 1.0, ite(a < 0, 0.0, b)), logaddexp=lambda a, b: fun("log", fun("exp", a) + fun("exp", b)))
ONE = dict(log10=lambda x: fun("log", x) / _math.log(10), log2=lambda x: fun("log", x) / _math.log(2), log1p=lambda x: fun("log", x + 1),
           expm1=lambda x: fun("exp", x) - 1, exp2=lambda x: fun("exp", x * _math.log(2)), reciprocal=lambda x: 1 / x, negative=lambda x: -x,
           positive=lambda x: x, sinh=lambda x: (fun("exp", x) - fun("exp", -x)) / 2, cosh=lambda x: (fun("exp", x) + fun("exp", -x)) / 2)


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _np.float64) or isinstance(o, Sym)


class F64Shim(metaclass=_F64Meta):
    def __new__(cls, x=0.0):
        if is_sym(x):
            return x
        if isinstance(x, _np.ndarray) and x.dtype == object:
            if x.ndim == 0:
                return F64Shim(x.item())
            return x
        if type(x).__name__ == "DataArray" and x.dtype == object:
            return F64Shim(x.values)
        return _np.float64(x)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or isinstance(o, Sym)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if is_sym(x):
            return x if isinstance(x, Sym) else Sym(term(x))
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return FloatShim(x.item())
        if type(x).__name__ == "DataArray" and x.dtype == object:
            return FloatShim(x.values)
        return builtins.float(x)


def _labelled(f):
    """accept xarray / pandas containers of symbolic values; elementwise results keep their labels."""
    def w(*a, **k):
        first = None
        b = []
        for x in a:
            if type(x).__module__.split(".")[0] in ("xarray", "pandas") and hasattr(x, "values"):
                v = x.values() if callable(x.values) else x.values
                if isinstance(v, _np.ndarray) and v.dtype == object:
                    first = x if first is None else first
                    x = v
            b.append(x)
        if first is None:
            return f(*a, **k)
        r = f(*b, **k)
        if isinstance(r, _np.ndarray) and r.shape == _np.shape(first) and not w.__name__.endswith("_like"):
            t = type(first).__name__
            if t == "DataArray":
                return first.copy(data=r)
            if t == "Series":
                return type(first)(r, index=first.index)
            if t == "DataFrame":
                return type(first)(r, index=first.index, columns=first.columns)
        return r

    w.__name__ = getattr(f, "__name__", "shim")
    return w


class NpShim:
    """behaves as numpy; float arrays become object arrays."""

    def __init__(self):
        self.__dict__["_ov"] = {}
        ov = self._ov
        for n, k in [("exp", "exp"), ("log", "log"), ("tanh", "tanh"), ("cos", "cos"),
                     ("sin", "sin"), ("arctan", "arctan"), ("arccos", "arccos"), ("arcsin", "arcsin")]:
            ov[n] = _unary(n, k)
        ov["acos"], ov["asin"], ov["atan"] = ov["arccos"], ov["arcsin"], ov["arctan"]
        ov["tan"] = _unary("tan", fn=lambda x: fun("sin", x) / fun("cos", x))
        ov["sqrt"] = _unary("sqrt", fn=lambda x: root(x, 2))
        ov["square"] = _unary("square", fn=lambda x: x * x)
        ov["radians"] = ov["deg2rad"] = _unary("radians", fn=lambda x: x * (_math.pi / 180))
        ov["degrees"] = ov["rad2deg"] = _unary("degrees", fn=lambda x: x * (180 / _math.pi))
        ov["abs"] = ov["absolute"] = ov["fabs"] = _unary("abs", fn=abs)
        ov["floor"] = _unary("floor", fn=lambda x: x.floor())
        ov["ceil"] = _unary("ceil", fn=lambda x: x.ceil())
        ov["sign"] = _unary("sign", fn=lambda x: ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0)))
        ov["maximum"] = _binary("maximum", smax)
        ov["minimum"] = _binary("minimum", smin)
        ov["fmax"] = _binary("fmax", smax)
        ov["fmin"] = _binary("fmin", smin)
        ov["power"] = _binary("power", power)
        ov["divide"] = ov["true_divide"] = _binary("divide", lambda a, b: a / b)
        ov["multiply"] = _binary("multiply", lambda a, b: a * b)
        ov["add"] = _binary("add", lambda a, b: a + b)
        ov["subtract"] = _binary("subtract", lambda a, b: a - b)
        for n in ("arctan2", "hypot", "copysign", "heaviside", "logaddexp"):
            ov[n] = _binary(n, TWO[n])
        ov["atan2"] = ov["arctan2"]
        for n, f in ONE.items():
            ov[n] = _unary(n, fn=f)
        ov["float_power"] = ov["pow"] = ov["power"]
        ov["float64"] = F64Shim
        ov["isclose"] = self._isclose
        ov["isnan"] = self._isnan
        ov["isfinite"] = self._isfinite
        ov["full"] = self._full
        for n in ("zeros", "ones", "empty"):
            ov[n] = self._filled(n)
        for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            ov[n] = self._like(n)
        ov["array"] = self._array
        ov["asarray"] = self._asarray
        ov["append"] = self._append
        ov["where"] = self._where
        ov["clip"] = lambda x, lo, hi: self.minimum(self.maximum(x, lo), hi)
        ov["min"] = ov["amin"] = self._red(smin, "min")
        ov["max"] = ov["amax"] = self._red(smax, "max")
        ov["nanmin"] = self._red(smin, "nanmin", True)
        ov["nanmax"] = self._red(smax, "nanmax", True)
        ov["sum"] = self._red(lambda a, b: a + b, "sum")
        ov["nansum"] = self._red(lambda a, b: a + b, "nansum", True)
        ov["any"] = self._anyall("any")
        ov["all"] = self._anyall("all")
        ov["logical_and"] = _binary("logical_and", lambda a, b: mkb(z3.And(bterm(a), bterm(b))))
        ov["logical_or"] = _binary("logical_or", lambda a, b: mkb(z3.Or(bterm(a), bterm(b))))
        ov["logical_not"] = _unary("logical_not", fn=lambda a: mkb(z3.Not(bterm(a))))

        for n, f in list(ov.items()):
            if not isinstance(f, type):
                ov[n] = _labelled(f)

    def __getattr__(self, k):
        ov = self.__dict__["_ov"]
        if k in ov:
            return ov[k]
        return getattr(_np, k)

    @staticmethod
    def _isnan(x):
        if is_sym(x):
            return _np.False_
        if isinstance(x, _np.ndarray) and x.dtype == object:
            out = _np.zeros(x.shape, dtype=bool)
            for i in _np.ndindex(x.shape):
                out[i] = _scal_isnan(x[i])
            return out if x.shape else out[()]
        if _has_sym(x):
            return _np.array([_scal_isnan(e) for e in x])
        return _np.isnan(x)

    @staticmethod
    def _isfinite(x):
        if is_sym(x):
            return True
        if isinstance(x, _np.ndarray) and x.dtype == object:
            out = _np.zeros(x.shape, dtype=bool)
            for i in _np.ndindex(x.shape):
                out[i] = is_sym(x[i]) or bool(_np.isfinite(x[i]))
            return out if x.shape else bool(out)
        return _np.isfinite(x)

    def _isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not (_has_sym(a) or _has_sym(b)):
            a = a if not isinstance(a, _np.ndarray) else a.astype(float)
            b = b if not isinstance(b, _np.ndarray) else b.astype(float)
            return _np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        return _map(lambda p, q: abs(p - q) <= atol + rtol * abs(q), a, b)

    @staticmethod
    def _full(shape, fill_value=None, dtype=None, **k):
        v = fill_value
        if _is_floatish(dtype) and (is_sym(v) or isinstance(v, (float, _np.floating)) or dtype is not None):
            out = _np.empty(shape, dtype=object)
            out[...] = v if is_sym(v) else float(v)
            return out
        return _np.full(shape, v, dtype=dtype, **k)

    @staticmethod
    def _filled(n):
        val = {"zeros": 0.0, "ones": 1.0, "empty": 0.0}[n]

        def f(shape, dtype=None, **k):
            if _is_floatish(dtype):
                out = _np.empty(shape, dtype=object)
                out[...] = val
                return out
            return getattr(_np, n)(shape, dtype=dtype, **k)

        return f

    @staticmethod
    def _like(n):
        def f(a=None, *args, dtype=None, fill_value=None, **k):
            a = k.pop("prototype", a)
            if n == "full_like" and not args:
                args = (fill_value,)
            shape = _np.shape(a)
            adt = getattr(a, "dtype", None)
            floatish = _is_floatish(dtype) if dtype is not None else (
                adt == object or adt is None or _np.issubdtype(adt, _np.floating))
            if floatish:
                out = _np.empty(shape, dtype=object)
                out[...] = args[0] if n == "full_like" else {"zeros_like": 0.0, "ones_like": 1.0, "empty_like": 0.0}[n]
                return out
            return getattr(_np, n)(a, *args, dtype=dtype, **k)

        f.__name__ = n

        return f

    @staticmethod
    def _array(x, dtype=None, **k):
        if _has_sym(x):
            if isinstance(x, _np.ndarray):
                return x.copy()
            if is_sym(x):
                out = _np.empty((), dtype=object)
                out[()] = x
                return out
            return _np.array([e for e in x], dtype=object)
        r = _np.array(x, dtype=(_np.float64 if dtype in (FloatShim, F64Shim) else dtype), **k)
        if r.dtype.kind == "f":
            return r.astype(object)
        return r

    def _asarray(self, x, dtype=None, **k):
        if isinstance(x, _np.ndarray):
            return x
        return self._array(x, dtype)

    def _append(self, a, b, axis=None):
        if axis is None:
            la = list(_np.ravel(_np.asarray(a, dtype=object)))
            lb = list(_np.ravel(_np.asarray(b, dtype=object))) if not isinstance(b, (list, tuple)) else list(b)
            out = _np.empty(len(la) + len(lb), dtype=object)
            for i, e in enumerate(la + lb):
                out[i] = e
            return out
        return _np.append(a, b, axis)

    def _where(self, c, *ab):
        if not ab:
            if isinstance(c, _np.ndarray) and c.dtype == object:
                c = _np.array([bool(e) for e in c.ravel()]).reshape(c.shape)
            return _np.where(c)
        a, b = ab
        if _has_sym(c):
            return _map(lambda q, x, y: (ite(q, x, y) if is_sym(q) else (x if q else y)), c, a, b)
        if _has_sym(a) or _has_sym(b):
            return _map(lambda q, x, y: x if q else y, c, a, b)
        return _np.where(c, a, b)

    def _red(self, f, name, skipnan=False):
        real = getattr(_np, name)

        def w(x, *a, **k):
            if not _has_sym(x):
                return real(x, *a, **k)
            if a or k:
                axis = k.get("axis", a[0] if a else None)
                if axis is not None:
                    return _np.apply_along_axis(lambda v: w(v), axis, x)
            v = [x] if is_sym(x) else list(_np.ravel(_np.array(x, dtype=object)))
            if skipnan:
                v = [e for e in v if is_sym(e) or e == e]
            if not v:
                return 0.0 if "sum" in name else float("nan")
            r = v[0]
            for e in v[1:]:
                r = f(r, e)
            return r

        w.__name__ = name
        return w

    @staticmethod
    def _anyall(name):
        real = getattr(_np, name)

        def w(x, *a, **k):
            if isinstance(x, SymBool):
                return x
            if isinstance(x, _np.ndarray) and x.dtype == object:
                t = [bterm(e) for e in x.ravel()]
                if not t:
                    return name == "all"
                return mkb(z3.simplify(z3.Or(t) if name == "any" else z3.And(t)))
            return real(x, *a, **k)

        return w


np_shim = NpShim()


class MathShim:
    def __getattr__(self, k):
        f = getattr(_math, k)
        two = {"atan2": "arctan2", "hypot": "hypot", "copysign": "copysign"}
        if k in two:
            return lambda x, y: TWO[two[k]](x, y) if is_sym(x) or is_sym(y) else f(_f(x), _f(y))
        if k in ("log10", "log2", "log1p", "expm1"):
            return lambda x: ONE[k](x) if is_sym(x) else f(_f(x))
        if k == "fsum":
            return lambda x: sum(x)
        table = {"exp": "exp", "log": "log", "tanh": "tanh", "cos": "cos", "sin": "sin",
                 "atan": "arctan", "acos": "arccos", "asin": "arcsin"}
        if k in ("acos", "asin"):
            def inv(x):
                if not is_sym(x):
                    return f(_f(x))
                
                lo, hi = sym.EX.ival_q(x.num, x.dens)
                if sym.DOMAIN and (lo < -1 - 1e-9 or hi > 1 + 1e-9) and bool((x > 1) | (x < -1)):
                    raise ValueError("math domain error")
                return fun(table[k], x)
            return inv
        if k in table:
            return lambda x, *a: fun(table[k], x) if is_sym(x) else f(_f(x), *a)
        if k == "sqrt":
            return lambda x: root(x, 2) if is_sym(x) else f(_f(x))
        if k == "radians":
            return lambda x: x * (_math.pi / 180)
        if k == "degrees":
            return lambda x: x * (180 / _math.pi)
        if k == "fabs":
            return abs
        if k == "pow":
            return lambda x, y: power(x, y)
        if k == "floor":
            return lambda x: int(x.floor()) if is_sym(x) else f(x)
        if k == "ceil":
            return lambda x: int(x.ceil()) if is_sym(x) else f(x)
        if k == "isnan":
            return lambda x: False if is_sym(x) else f(x)
        if k == "isfinite":
            return lambda x: True if is_sym(x) else f(x)
        if k == "tan":
            return lambda x: fun("sin", x) / fun("cos", x) if is_sym(x) else f(x)
        return f


def _f(x):
    return x.item() if isinstance(x, _np.ndarray) and x.size == 1 else x


math_shim = MathShim()


def _flat(args):
    if len(args) == 1:
        a = args[0]
        return list(a)
    return list(args)


def sh_min(*args, **kw):
    if kw:
        return builtins.min(*args, **kw)
    v = _flat(args)
    if any(_has_sym(e) for e in v):
        return _fold(smin, v)
    return builtins.min(*args)


def sh_max(*args, **kw):
    if kw:
        return builtins.max(*args, **kw)
    v = _flat(args)
    if any(_has_sym(e) for e in v):
        return _fold(smax, v)
    return builtins.max(*args)


def _fold(f, v):
    # min(np.array([x]), arr): arrays of size one stay arrays
    arr = any(isinstance(e, _np.ndarray) and e.ndim for e in v)
    w = [e.item() if isinstance(e, _np.ndarray) else e for e in v]
    r = w[0]
    for e in w[1:]:
        r = f(r, e)
    if arr:
        out = _np.empty(1, dtype=object)
        out[0] = r
        return out
    return r


def sh_abs(x):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _map(abs, x)
    return builtins.abs(x)


def sh_round(x, n=None):
    if is_sym(x):
        raise sym.Unsupported("round")
    return builtins.round(x, n)


BUILTINS = {"min": sh_min, "max": sh_max, "abs": sh_abs, "float": FloatShim}
