"""Exact multivariate polynomials (canonical form of the numeric terms handed
to the solver: equal expressions become identical constraints)."""
from fractions import Fraction

import z3

ATOMS = []      # index -> z3 constant
_BYID = {}      # z3 id -> index


def atom_index(t):
    k = t.get_id()
    i = _BYID.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(t)
        _BYID[k] = i
    return i


class Poly:
    __slots__ = ("d", "_h", "_z")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._z = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fraction(0))

    def __len__(self):
        return len(self.d)

    def z3(self):
        if self._z is None:
            ts = []
            for m in sorted(self.d):
                c = self.d[m]
                f = [ATOMS[a] for a, e in m for _ in range(e)]
                if c != 1 or not f:
                    f.insert(0, z3.RatVal(c.numerator, c.denominator) if c.denominator != 1
                             else z3.RealVal(c.numerator))
                t = f[0]
                for x in f[1:]:
                    t = t * x
                ts.append(t)
            self._z = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
        return self._z


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def pconst(c):
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


def patom(t):
    return Poly({((atom_index(t), 1),): Fraction(1)})


def padd(a, b, s=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + (c if s == 1 else -c)
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(a, c):
    if not c:
        return ZERO
    return Poly({m: v * c for m, v in a.d.items()})


def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    d = dict(x)
    for a, e in y:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    d = {}
    for m, c in a.d.items():
        for n, e in b.d.items():
            k = mmul(m, n)
            v = d.get(k, 0) + c * e
            if v:
                d[k] = v
            else:
                d.pop(k, None)
    return Poly(d)


def mdiv(x, y):
    """monomial x / y or None"""
    d = dict(x)
    for a, e in y:
        r = d.get(a, 0) - e
        if r < 0:
            return None
        if r:
            d[a] = r
        else:
            d.pop(a)
    return tuple(sorted(d.items()))


def _key(m):
    return (sum(e for _, e in m), m)


def pdivexact(a, b, limit=400):
    """a / b if exact, else None."""
    if not a.d:
        return ZERO
    lb = max(b.d, key=_lex)
    cb = b.d[lb]
    r = dict(a.d)
    q = {}
    n = 0
    while r:
        n += 1
        if n > limit:
            return None
        lr = max(r, key=_lex)
        m = mdiv(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q[m] = c
        for mb, vb in b.d.items():
            k = mmul(m, mb)
            v = r.get(k, 0) - c * vb
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return Poly(q)


def _lex(m):
    # lexicographic order on exponent vectors (atom 0 most significant)
    return tuple((-a, e) for a, e in m) + ((-(1 << 60), 0),)


def normalise(p):
    """p scaled so that its leading coefficient is +-1 (sign kept)."""
    if not p.d:
        return p
    c = abs(p.d[max(p.d, key=_lex)])
    return p if c == 1 else pscale(p, 1 / c)


def rounded(p):
    """coefficients with 12 digits, those of rounding errors dropped."""
    if not p.d:
        return p
    top = max(abs(c) for c in p.d.values())
    return Poly({m: Fraction(f"{float(c):.12g}") for m, c in p.d.items() if abs(c) > top * Fraction(1, 10**13)})


def mono_gcd(p):
    """common monomial factor."""
    it = iter(p.d)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0))
            if e:
                g[a] = e
            else:
                del g[a]
        if not g:
            break
    return tuple(sorted(g.items()))
