"""Symbolic values: the real Python source is executed with these objects in
place of floats.  Arithmetic builds SMT (z3, theory of real arithmetic) terms;
a truth test on a symbolic condition asks the running explorer which branch to
take, so every feasible path of the executed code is visited.

Floats are modelled as exact reals (stated as an assumption of every check);
transcendental functions become fresh variables constrained by sound lemmas
(bounds, monotonicity, tangents, secants), refined on demand.
"""
import math
from fractions import Fraction

import numpy as np
import z3

from . import poly as P


class PathAbort(BaseException):
    """Control flow of the explorer (never caught by code under test)."""


class Unsupported(PathAbort):
    """The engine cannot encode an operation: the run is inconclusive."""


class AssumeFailed(PathAbort):
    """An assumption is infeasible on this path."""


class DomainDead(PathAbort):
    """Path left the modelled domain."""


EX = None  # running explorer (set by engine)

NUM = (int, float, np.integer, np.floating, bool, np.bool_)


DOMAIN = False      # math.acos and math.asin check their domain (set by a harness)
ROUND = False       # comparisons see coefficients relative to the leading one with 12 digits (set by a harness)
FORK = False        # minimum and maximum split the path (set by a harness)
ANGLES = False      # sine and cosine of a shifted angle by the addition theorem (set by a harness)
PAIRS = True        # relate all instances of a function to each other


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


_rv_cache = {}


def rv(x):
    """Python number -> z3 rational.  A float is read as its shortest decimal."""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    key = (type(x), x)
    r = _rv_cache.get(key)
    if r is not None:
        return r
    if isinstance(x, Fraction):
        r = z3.RatVal(x.numerator, x.denominator)
    elif isinstance(x, (int, np.integer)):
        r = z3.RealVal(int(x))
    else:
        x = float(x)
        if not math.isfinite(x):
            raise Unsupported(f"non-finite constant {x} in symbolic arithmetic")
        r = z3.RealVal(repr(x))
        if x == int(x) and abs(x) < 1e15:
            r = z3.RealVal(int(x))
    _rv_cache[key] = r
    return r


def as_fraction(t):
    """z3 numeral -> Fraction, or None."""
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def term(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, rv(1), rv(0))
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return term(x.item())
        raise Unsupported("array used as scalar")
    if isinstance(x, Fraction) or isinstance(x, NUM):
        return rv(x)
    if x is None:
        raise TypeError("unsupported operand type(s): 'float' and 'NoneType'")
    raise Unsupported(f"cannot encode {type(x)}")


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def _num(x):
    return isinstance(x, NUM) or isinstance(x, Fraction)


def _other_ok(o):
    return isinstance(o, (Sym, SymBool, Fraction)) or isinstance(o, NUM)


MAXTERMS = 60
LCD = 4


class Sym:
    """Symbolic real: quotient of polynomials over solver variables.
    dens is a multiset of factors, each known positive on the current path."""

    __slots__ = ("num", "dens", "isint", "_t")
    # numpy: element-wise object loops are used for arrays
    __array_priority__ = 1000

    def __init__(self, t=None, num=None, dens=(), isint=False):
        if t is not None:
            num = from_z3(t)
        self.num = num
        self.dens = dens
        self.isint = isint
        self._t = None

    @property
    def t(self):
        """z3 term (a quotient becomes a defined variable)."""
        if self._t is None:
            if not self.dens:
                self._t = self.num.z3()
            else:
                self._t = EX.quotient(self.num, self.dens)
        return self._t

    # --- conversions -------------------------------------------------
    def __float__(self):
        raise Unsupported("float() on a symbolic value")

    def __int__(self):
        return EX.concretise_int(self, trunc=True)

    def __index__(self):
        if self.isint:
            return EX.concretise_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        raise Unsupported("round() on symbolic")

    def __hash__(self):
        return hash((self.num, self.dens))

    def __bool__(self):
        return EX.branch(cmp0(self, "!="))

    def __repr__(self):
        s = str(self.num.z3())
        return f"Sym({s[:80]}{'/..' if self.dens else ''})"

    def __format__(self, spec):
        return "<sym>"

    def item(self):
        return self

    @property
    def values(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def ndim(self):
        return 0

    size = 1

    def copy(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def any(self):
        return mkb(cmp0(self, "!="))

    # --- arithmetic --------------------------------------------------
    def _arr(self, o, f):
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = f(o[i])
            return out if o.shape else out.item()
        return NotImplemented

    def __add__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: self + e)
        if _nonfinite(o):
            return float(o)
        return addsub(self, lift(o), 1)

    __radd__ = __add__

    def __sub__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: self - e)
        if _nonfinite(o):
            return -float(o)
        return addsub(self, lift(o), -1)

    def __rsub__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: e - self)
        if _nonfinite(o):
            return float(o)
        return addsub(lift(o), self, -1)

    def __mul__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: self * e)
        if _nonfinite(o):
            if o != o:
                return float(o)
            raise Unsupported("symbolic * inf")
        return mulq(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: self / e)
        if _num(o):
            if _nonfinite(o):
                if o != o:
                    return float("nan")
                return 0.0
            if o == 0:
                raise ZeroDivisionError("float division by zero")
        return divq(self, lift(o))

    def __rtruediv__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: e / self)
        if _nonfinite(o):
            raise Unsupported("inf / symbolic")
        return divq(lift(o), self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        return self - (self / o).floor() * o

    def __neg__(self):
        return Sym(num=P.pscale(self.num, -1), dens=self.dens)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(cmp0(self, ">="), self, -self)

    def __pow__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: self**e)
        return power(self, o)

    def __rpow__(self, o):
        if not _other_ok(o):
            return self._arr(o, lambda e: e**self)
        return power(o, self)

    # --- comparisons -------------------------------------------------
    def _cmp(self, o, op, inf_pos, nan_v=False):
        if isinstance(o, np.ndarray):      # as numpy does for objects: one decision per element
            return np.array([bool(self._cmp(e, op, inf_pos, nan_v)) for e in o.ravel()], dtype=bool).reshape(o.shape)
        if not _other_ok(o):
            return NotImplemented
        if _nonfinite(o):
            if o != o:
                return nan_v
            return inf_pos(o)
        return mkb(compare(self, lift(o), op))

    def __lt__(self, o):
        return self._cmp(o, "<", lambda o: o > 0)

    def __le__(self, o):
        return self._cmp(o, "<=", lambda o: o > 0)

    def __gt__(self, o):
        return self._cmp(o, ">", lambda o: o < 0)

    def __ge__(self, o):
        return self._cmp(o, ">=", lambda o: o < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, "==", lambda o: False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, "!=", lambda o: True, True)

    # --- numpy object-loop methods ------------------------------------
    def exp(self):
        return fun("exp", self)

    def log(self):
        return fun("log", self)

    def log10(self):
        return fun("log", self) * (1 / math.log(10))

    def tanh(self):
        return fun("tanh", self)

    def cos(self):
        return fun("cos", self)

    def sin(self):
        return fun("sin", self)

    def arctan(self):
        return fun("arctan", self)

    def arccos(self):
        return fun("arccos", self)

    def arcsin(self):
        return fun("arcsin", self)

    def sqrt(self):
        return root(self, 2)

    def cbrt(self):
        return root(self, 3)

    def square(self):
        return self * self

    def radians(self):
        return self * (math.pi / 180.0)

    deg2rad = radians

    def degrees(self):
        return self * (180.0 / math.pi)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def conjugate(self):
        return self

    def floor(self):
        return EX.floor(self)

    def ceil(self):
        return -((-self).floor())


class SymBool:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return EX.branch(self.t)

    def __and__(self, o):
        return mkb(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.t, bterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return mkb(self.t == bterm(o))
        return Sym(term(self)) == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(self.t)

    def _n(self):
        return Sym(term(self))

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __lt__(self, o):
        return self._n() < o

    def __gt__(self, o):
        return self._n() > o

    def __le__(self, o):
        return self._n() <= o

    def __ge__(self, o):
        return self._n() >= o

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f"SymBool({str(self.t)[:80]})"


def bterm(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, np.ndarray) and o.size == 1:
        return bterm(o.item())
    if isinstance(o, Sym):
        return o.t != rv(0)
    return z3.BoolVal(bool(o))


def from_z3(t):
    """z3 term -> Poly (a non-constant compound term is an atom)."""
    f = as_fraction(t)
    if f is not None:
        return P.pconst(f)
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return P.patom(t)
    v = EX.define(t)
    return P.patom(v)


_lift_cache = {}


def lift(x):
    """number / Sym -> Sym"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return lift(x._n())
    key = (type(x), x)
    r = _lift_cache.get(key)
    if r is None:
        r = _lift_cache[key] = Sym(num=P.pconst(as_fraction(rv(x))))
    return r


def fin(num, dens=(), isint=False):
    """normalised Sym, or a float if constant."""
    if not num.d:
        return 0.0
    if dens:
        out = []
        for f in dens:
            q = P.pdivexact(num, f)
            if q is None:
                out.append(f)
            else:
                num = q
        dens = tuple(out)
    if not dens and num.is_const():
        return float(num.const())
    if len(num) > MAXTERMS and len(num) > 1:
        num = P.patom(EX.define(num.z3(), num))
    return Sym(num=num, dens=dens, isint=isint)


def _union(a, b):
    """multiset union; returns (lcd, missing from a, missing from b)."""
    if not a and not b:
        return (), (), ()
    rest = list(b)
    ma = []
    for f in a:
        if f in rest:
            rest.remove(f)
        else:
            ma.append(f)
    # a = common+ma ; b = common+rest ; lcd = a+rest
    return tuple(sorted(a + tuple(rest), key=hash)), tuple(rest), tuple(ma)


def _pm(p, fs):
    for f in fs:
        p = P.pmul(p, f)
    return p


def addsub(a, b, s):
    isint = a.isint and b.isint
    if not b.num.d:
        return a
    if a.dens == b.dens:
        return fin(P.padd(a.num, b.num, s), a.dens, isint)
    lcd, for_a, for_b = _union(a.dens, b.dens)
    if len(lcd) > LCD or len(a.num) * (1 + len(for_a)) > MAXTERMS or len(b.num) * (1 + len(for_b)) > MAXTERMS:
        return fin(P.padd(flat(a), flat(b), s))
    return fin(P.padd(_pm(a.num, for_a), _pm(b.num, for_b), s), lcd, isint)


def flat(a):
    """poly equal to a (quotient replaced by a defined variable)."""
    if not a.dens:
        return a.num
    return P.patom(EX.quotient(a.num, a.dens))


def mulq(a, b):
    if not a.num.d or not b.num.d:
        return 0.0
    an, bn = a.num, b.num
    ad, bd = list(a.dens), list(b.dens)
    # cross-cancel before multiplying
    for f in list(bd):
        q = P.pdivexact(an, f)
        if q is not None:
            an = q
            bd.remove(f)
    for f in list(ad):
        q = P.pdivexact(bn, f)
        if q is not None:
            bn = q
            ad.remove(f)
    if len(an) * len(bn) > 3 * MAXTERMS:
        an = P.patom(EX.define(an.z3(), an)) if len(an) > 1 else an
        bn = P.patom(EX.define(bn.z3(), bn)) if len(bn) > 1 else bn
    return fin(P.pmul(an, bn), tuple(sorted(ad + bd, key=hash)), a.isint and b.isint)


def divq(n, d):
    if d.num.is_const():
        c = d.num.const()
        if c == 0:
            raise ZeroDivisionError("float division by zero")
        return mulq(n, Sym(num=_pm(P.pconst(1 / c), d.dens)))
    sg, factors, coef = EX.den_factors(d.num)
    inv = Sym(num=_pm(P.pconst(Fraction(sg) / coef), d.dens), dens=tuple(sorted(factors, key=hash)))
    return mulq(n, inv)


def compare(a, b, op):
    if a.dens == b.dens:
        num = P.padd(a.num, b.num, -1)
    else:
        lcd, for_a, for_b = _union(a.dens, b.dens)
        if len(lcd) > LCD:
            num = P.padd(flat(a), flat(b), -1)
        else:
            num = P.padd(_pm(a.num, for_a), _pm(b.num, for_b), -1)
    return cmpp(num, op)


def cmp0(a, op):
    return cmpp(a.num, op)


def cmpp(num, op):
    if num.is_const():
        c = num.const()
        return z3.BoolVal({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op])
    num = P.normalise(num)
    if ROUND:
        num = P.Poly({m: Fraction(f"{float(c):.12g}") for m, c in num.d.items() if abs(c) > 1e-13})
        if num.is_const():
            return cmpp(num, op)
    # canonical orientation: leading coefficient positive
    lead = num.d[max(num.d, key=P._lex)]
    if lead < 0:
        num = P.pscale(num, -1)
        op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
    t, z = num.z3(), rv(0)
    if op == "<":
        c = z3.Not(t >= z)
    elif op == ">=":
        c = t >= z
    elif op == "<=":
        c = t <= z
    elif op == ">":
        c = z3.Not(t <= z)
    elif op == "==":
        c = t == z
    else:
        c = z3.Not(t == z)
    EX.atomcmp[c.get_id()] = (c, num, op)
    return c


def mk(t):
    f = as_fraction(t)
    if f is not None:
        return float(f)
    return Sym(t)


def mkb(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def ite(c, a, b):
    c = bterm(c) if not isinstance(c, z3.BoolRef) else c
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    known = EX.known(c)
    if known is True:
        return a
    if known is False:
        return b
    a, b = lift(a), lift(b)
    if a.num == b.num and a.dens == b.dens:
        return a
    return EX.ite(c, a, b)


def smax(a, b):
    """max with ITE (NaN-free)."""
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    if _nonfinite(a) or _nonfinite(b):
        inf, o = (a, b) if _nonfinite(a) else (b, a)
        if inf != inf:
            return inf
        return inf if inf > 0 else o
    return clipped(a, b, ">=", max)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    if _nonfinite(a) or _nonfinite(b):
        inf, o = (a, b) if _nonfinite(a) else (b, a)
        if inf != inf:
            return inf
        return inf if inf < 0 else o
    return clipped(a, b, "<=", min)


def scaled_flat(x):
    """the quotient of x as one unknown, shared by its multiples."""
    n = P.normalise(x.num)
    c = x.num.d[max(x.num.d, key=P._lex)] / n.d[max(n.d, key=P._lex)]
    return fin(P.pscale(P.patom(EX.quotient(n, x.dens)), c))


def clipped(a, b, op, f):
    if FORK:
        return a if SymBool(compare(lift(a), lift(b), op)) else b
    if DOMAIN:      # quotients become one unknown, so that the clipped value has its own bounds
        a, b = (scaled_flat(x) if is_sym(x) and x.dens else x for x in (a, b))
    r = ite(compare(lift(a), lift(b), op), a, b)
    if is_sym(r) and not r.dens and len(r.num.d) == 1 and (not is_sym(a) or not is_sym(b)):
        (m, c), = r.num.d.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            p, q = (EX.ival_q(lift(x).num, lift(x).dens) for x in (a, b))
            EX.clip[m[0][0]] = f(p[0], q[0]), f(p[1], q[1])
    return r


def root(x, n):
    """n-th real root (n>=2), principal; x must be >= 0 for even n."""
    if not is_sym(x):
        return float(x) ** (1.0 / n)
    return EX.root(x, n)


def power(b, e):
    if isinstance(e, Sym):
        f = e.num.const() if e.num.is_const() and not e.dens else None
        if f is None:
            # a**x = exp(x ln a)
            if not is_sym(b):
                if b <= 0:
                    raise Unsupported("power of non-positive base")
                return fun("exp", e * math.log(b))
            return fun("exp", e * fun("log", b))
        e = f
    if not is_sym(b):
        return b**e
    fe = Fraction(e).limit_denominator(1000) if not isinstance(e, Fraction) else e
    if abs(float(fe) - float(e)) > 1e-15:
        fe = Fraction(repr(float(e)))
    if fe.denominator == 1:
        k = int(fe)
        if k == 0:
            return 1.0
        r = b
        for _ in range(abs(k) - 1):
            r = r * b
        return r if k > 0 else 1.0 / r
    if fe.denominator <= 8 and abs(fe.numerator) <= 8:
        r = root(b, fe.denominator)
        return power(r, fe.numerator)
    # x**r = exp(r*ln x): monotone fresh variable
    return EX.realpow(b, fe)


def fun(kind, x):
    if not is_sym(x):
        x = float(x)
        return {
            "exp": math.exp,
            "log": lambda v: math.log(v) if v > 0 else float("nan"),
            "tanh": math.tanh,
            "cos": math.cos,
            "sin": math.sin,
            "arctan": math.atan,
            "arccos": math.acos,
            "arcsin": math.asin,
        }[kind](x)
    if isinstance(x, SymBool):
        x = Sym(term(x))
    return EX.function(kind, x)
