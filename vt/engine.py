"""Path explorer + SMT discharge for the symbolic execution of real Python code."""
import math
import os
import pickle
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import poly as P
from . import sym
from .sym import (AssumeFailed, PathAbort, Sym, SymBool, Unsupported, as_fraction,
                  bterm, cmp0, compare, fin, is_sym, lift, mk, mkb, rv, term)

INF = float("inf")
ROUND = Fraction(1, 10**12)   # constants closer than this (relative) are the same number


class Violation(BaseException):
    def __init__(self, info):
        self.info = info


class Deadline(PathAbort):
    pass


MONO_INC = {"exp", "log", "tanh", "arctan", "arcsin"}
MONO_DEC = {"arccos"}
REALF = {
    "exp": math.exp, "log": math.log, "tanh": math.tanh, "cos": math.cos,
    "sin": math.sin, "arctan": math.atan, "arccos": math.acos, "arcsin": math.asin,
}


def realf(kind, v):
    if isinstance(kind, tuple):  # ("pow", r)
        return v ** float(kind[1])
    return REALF[kind](v)


def widen(lo, hi):
    return lo - abs(lo) * 1e-12 if lo > -INF else lo, hi + abs(hi) * 1e-12 if hi < INF else hi


def imul(a, b, c, d):
    v = [0.0 if (x == 0 or y == 0) else x * y for x in (a, b) for y in (c, d)]
    return min(v), max(v)


def unwrap(x):
    while isinstance(x, np.ndarray) and x.size == 1:
        x = x.item()
    return x


def val_of(model, t):
    """model value as Fraction (algebraic numbers approximated)."""
    v = model.eval(t, model_completion=True)
    f = as_fraction(v)
    if f is not None:
        return f
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return as_fraction(v)
    v = z3.simplify(v)
    f = as_fraction(v)
    if f is None:
        raise Unsupported(f"cannot read model value {v}")
    return f


class Explorer:
    """Depth-first exploration with re-execution."""

    symbolic = True

    def __init__(self, opts=None):
        o = opts or {}
        self.t_feas = int(o.get("t_feas", 400))        # ms, feasibility queries
        self.t_prove = o.get("t_prove", (3000, 20000, 60000))
        self.max_paths = o.get("max_paths", 20000)
        self.deadline = min(time.time() + o.get("budget", 600), float(os.environ.get("VT_END", "inf")))
        self.want_nl = o.get("nl", True)
        self.points = {}      # kind -> sorted list of Fraction refinement points
        self.stats = dict(paths=0, infeasible=0, branches=0, feas_q=0, prove_q=0,
                          unsat=0, sat=0, unknown=0, solver_s=0.0, exact_eq=0,
                          refinements=0, dead=0)
        self.labels = {}      # label -> dict(reached, proved, witness)
        self.inconclusive = []
        self.decl = {}        # input name -> z3 var (all paths)
        self.rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
        self.samples = []
        self.suppress = set()
        self.vectors = []
        self.children = []
        self.more_fns = set()
        self.tokens = None
        self.outbase = None
        self.is_child = False

    # ------------------------------------------------------------------
    def run(self, harness):
        """harness(cx) executed on every path."""
        self.harness = harness
        self.work = [([], [])]
        while self.work:
            if not self.in_budget():
                break
            self.poll_children()
            self.maybe_fork()
            prefix, models = self.work.pop()
            self.run_path(prefix, models)
        self.join_children()

    # --- parallel exploration -------------------------------------------
    def maybe_fork(self):
        """hand half of the pending prefixes to a child when a core is free."""
        fds = getattr(self, "tokens", None)
        if not fds or len(self.work) < 2:
            return
        try:
            os.read(fds[0], 1)
        except (BlockingIOError, OSError):
            return
        n = len(self.work)
        give, keep = self.work[0:n:2], self.work[1:n:2]
        out = f"{self.outbase}.{os.getpid()}.{len(self.children)}.pkl"
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                self.is_child = True
                self.children = []
                self.work = give
                for k in self.stats:
                    self.stats[k] = 0
                for L in self.labels.values():
                    L["reached"] = L["proved"] = 0
                self.inconclusive = []
                viol = None
                try:
                    while self.work:
                        if not self.in_budget():
                            break
                        self.maybe_fork()
                        prefix, models = self.work.pop()
                        self.run_path(prefix, models)
                    self.join_children()
                except Violation as v:
                    viol = v.info
                    self.kill_children()
                res = dict(stats=self.stats, labels=self.labels, inconclusive=self.inconclusive,
                           samples=self.samples, decl=self.decl, violation=viol, fns=self.fns())
                with open(out + ".tmp", "wb") as f:
                    pickle.dump(res, f)
                os.rename(out + ".tmp", out)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                try:
                    os.write(fds[1], b"t")
                finally:
                    os._exit(rc)
        self.children.append((pid, out))
        self.work = keep

    def fns(self):
        return []

    def poll_children(self):
        """merge finished children (raises their violation)."""
        left = []
        for pid, out in self.children:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                left.append((pid, out))
            else:
                self.merge(out)
        self.children = left

    def join_children(self):
        while self.children:
            pid, out = self.children.pop()
            os.waitpid(pid, 0)
            self.merge(out)

    def kill_children(self):
        for pid, out in self.children:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        self.children = []

    def merge(self, out):
        try:
            with open(out, "rb") as f:
                r = pickle.load(f)
            os.unlink(out)
        except OSError:
            self.inconclusive.append("an exploration process died")
            return
        for k, v in r["stats"].items():
            self.stats[k] += v
        for l, L in r["labels"].items():
            M = self.labels.setdefault(l, dict(reached=0, proved=0, witness=None))
            M["reached"] += L["reached"]
            M["proved"] += L["proved"]
            if M["witness"] is None:
                M["witness"] = L["witness"]
        self.inconclusive += r["inconclusive"]
        self.samples = (self.samples + [s for s in r["samples"] if s not in self.samples])[:6]
        self.decl.update(r["decl"])
        self.more_fns |= set(r["fns"])
        if r["violation"]:
            raise Violation(r["violation"])

    def in_budget(self):
        if self.stats["paths"] + self.stats["infeasible"] >= self.max_paths:
            self.inconclusive.append(f"path budget {self.max_paths} exhausted")
            return False
        if time.time() > self.deadline:
            self.inconclusive.append("time budget exhausted")
            return False
        return True

    def run_path(self, prefix, models=()):
        self.start(prefix, models)
        sym.EX = self
        try:
            self.harness(self)
        except AssumeFailed:
            self.stats["infeasible"] += 1
            return
        except sym.DomainDead:
            self.stats["dead"] += 1
            return
        except Deadline:
            self.inconclusive.append("time budget exhausted")
            return
        except Violation:
            raise
        except Unsupported as e:
            # only matters if the path is feasible
            if self.feasible_strong() == "unsat":
                self.stats["infeasible"] += 1
                return
            tb = traceback.extract_tb(e.__traceback__)
            loc = next((f"{f.filename}:{f.lineno}" for f in reversed(tb)
                        if "/repo/" in f.filename or "harness" in f.filename), "?")
            self.inconclusive.append(f"unsupported: {e} at {loc}")
            return
        except Exception as e:  # raised by the code under test on this path
            self.on_exception(e)
            return
        self.stats["paths"] += 1
        n = self.stats["paths"]
        if not self.is_child and n in (2, 3, 5, 9, 17, 33, 65, 129):
            # another input vector for the validation against the real build
            m = self.models[-1] if self.models and not self.insts else None
            if m is None:
                r, m = self._check(timeout=1000)
                k = 0
                while m is not None and k < 6 and self.insts and self.refine(m):
                    r, m = self._check(timeout=1500)
                    k += 1
            if m is not None:
                try:
                    self.vectors.append({a: float(v) for a, v in self.input_values(m).items()})
                except Unsupported:
                    pass

    def start(self, prefix, models=()):
        self.pending_models = list(models)
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.t_feas)
        self.cons = []
        self.decided = {}
        self.keep = []
        self.fresh_n = 0
        self.insts = {}      # kind -> list[(arg, var)]
        self.inst_memo = {}
        self.quots = {}
        self.roots = {}
        self.rootlist = []
        self.inputs = {}     # name -> Sym / value (this path)
        self.denreg = {}
        self.atomcmp = {}    # comparison term -> polynomial and operator
        self.clip = {}       # atom index -> bounds of a minimum or maximum with a constant
        self.idef = {}       # atom index -> definition for interval bounds
        self.ivals = {}
        self.path_sat, self.path_hard = None, False
        self.notes = []
        self.models = []

    # --- constraints ----------------------------------------------------
    def add(self, c):
        self.cons.append(c)
        self.solver.add(c)
        if self.models:
            self.models = [m for m in self.models if z3.is_true(m.eval(c, model_completion=True))]

    def setdef(self, v, f):
        """give a freshly defined variable its value in the cached models."""
        keep = []
        for m in self.models:
            try:
                x = f(m)
                if x is not None:
                    m.update_value(v, x)
                    keep.append(m)
            except (z3.Z3Exception, Unsupported, ZeroDivisionError, OverflowError, ValueError, TypeError):
                pass
        self.models = keep

    def evalr(self, m, t):
        v = m.eval(t, model_completion=True)
        return v if z3.is_rational_value(v) else None

    def remember_model(self, m):
        if m is not None:
            self.models = (self.models + [m])[-3:]

    def _check(self, *extra, timeout=None):
        t = time.time()
        if timeout:
            self.solver.set("timeout", int(timeout))
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        if timeout:
            self.solver.set("timeout", self.t_feas)
        self.stats["solver_s"] += time.time() - t
        return str(r), m

    def known(self, c):
        return self.decided.get(c.get_id())

    def _remember(self, c, v):
        self.keep.append(c)
        self.decided[c.get_id()] = v
        n = z3.Not(c)
        self.keep.append(n)
        self.decided[n.get_id()] = not v

    def branch(self, c):
        c = bterm(c) if not isinstance(c, z3.BoolRef) else c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known(c)
        if k is not None:
            return k
        pc = self.atomcmp.get(c.get_id())
        if pc is not None:
            k = self.decide(pc[1], pc[2])
            if k is not None:
                self.add(c if k else z3.Not(c))
                self._remember(c, k)
                return k
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = self.known(s)
        if k is not None:
            return k
        if time.time() > self.deadline:
            raise Deadline()
        self.stats["branches"] += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            rt = rf = None
            mt, mf = [], []
            for m in self.models:
                e = m.eval(c, model_completion=True)
                if z3.is_true(e):
                    rt = "sat"
                    mt.append(m)
                elif z3.is_false(e):
                    rf = "sat"
                    mf.append(m)
            if rt is None:
                self.stats["feas_q"] += 1
                rt, m = self._check(c)
                if m is not None:
                    mt.append(m)
            if rf is None:
                if rt == "unsat":
                    rf = "sat"
                else:
                    self.stats["feas_q"] += 1
                    rf, m = self._check(z3.Not(c))
                    if m is not None:
                        mf.append(m)
            if rt == "unsat" and rf == "unsat":
                raise AssumeFailed()
            if rt == "unsat":
                d = False
            elif rf == "unsat":
                d = True
            else:
                d = True
                self.work.append((self.taken + [False], mf))
            self.models = mt if d else mf
        self.pos += 1
        self.taken.append(d)
        self._remember(c, d)
        self._remember(s, d)
        self.add(c if d else z3.Not(c))
        if self.pos == len(self.prefix) and self.pending_models:
            self.models = [m for m in self.pending_models
                           if all(z3.is_true(m.eval(k, model_completion=True)) for k in self.cons)]
            self.pending_models = []
        return d

    def assume(self, c):
        c = bterm(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise AssumeFailed()
        self._remember(c, True)
        self.add(c)

    def den_factors(self, p):
        """p = sign * coef * prod(factors), every factor positive on this path."""
        key = ("den", p)
        m = self.inst_memo.get(key)
        if m is not None:
            return m
        if not self.branch(sym.cmpp(p, "!=")):
            raise ZeroDivisionError("division by zero")
        sg = 1
        factors = []
        rest = p
        g = P.mono_gcd(p)
        if g and not (len(p) == 1 and len(g) == 1 and g[0][1] == 1):
            rest = P.Poly({P.mdiv(m_, g): c for m_, c in p.d.items()})
            for a, e in g:
                f = P.Poly({((a, 1),): Fraction(1)})
                if not self.branch(sym.cmpp(f, ">")):
                    f = P.pscale(f, -1)
                    if e % 2:
                        sg = -sg
                factors += [f] * e
        if rest.is_const():
            c = rest.const()
            coef = abs(c)
            if c < 0:
                sg = -sg
        else:
            if not self.branch(sym.cmpp(rest, ">")):
                rest = P.pscale(rest, -1)
                sg = -sg
            n = P.normalise(rest)
            lm = max(n.d, key=P._lex)
            coef = rest.d[lm] / n.d[lm]
            factors.append(self.same_factor(n))
        r = (sg, factors, coef)
        self.inst_memo[key] = r
        return r

    def same_factor(self, n):
        """a denominator seen before that differs by float rounding of its constants only."""
        lst = self.denreg.setdefault(frozenset(n.d), [])
        for o in lst:
            if all(o.d[k] == c or abs(o.d[k] - c) <= abs(c) * ROUND for k, c in n.d.items()):
                return o
        lst.append(n)
        return n

    def define(self, t, poly=None):
        key = ("def", t.get_id())
        r = self.inst_memo.get(key)
        if r is not None:
            return r[1]
        v = self.fresh("d")
        self.inst_memo[key] = (t, v)
        self.setdef(v, lambda m: self.evalr(m, t))
        self.add(v == t)
        if poly is not None:
            self.idef[P.atom_index(v)] = ("poly", poly)
        return v

    def ite(self, c, a, b):
        key = ("ite", c.get_id(), a.num, a.dens, b.num, b.dens)
        r = self.inst_memo.get(key)
        if r is not None:
            return r[1]
        v = self.fresh("ite")
        if a.dens == b.dens:
            lcd, an, bn = a.dens, a.num, b.num
        else:
            lcd, fa, fb = sym._union(a.dens, b.dens)
            an, bn = sym._pm(a.num, fa), sym._pm(b.num, fb)
        d = z3.If(c, an.z3(), bn.z3())
        self.setdef(v, lambda m: self.evalr(m, d))
        self.add(v == d)
        self.idef[P.atom_index(v)] = ("ite", an, bn)
        r = Sym(num=P.patom(v), dens=lcd)
        self.inst_memo[key] = (c, r)
        return r

    def floor(self, x):
        key = ("floor", x.num, x.dens)
        r = self.inst_memo.get(key)
        if r is not None:
            return r
        self.fresh_n += 1
        i = z3.ToReal(z3.Int(f"int!{self.fresh_n}"))
        r = Sym(num=P.patom(i), isint=True)
        self.inst_memo[key] = r
        self.add(compare(r, x, "<="))
        self.add(compare(x, lift(r + 1.0), "<"))
        return r

    def concretise_int(self, s, trunc=False):
        if s.num.is_const() and not s.dens:
            return int(s.num.const())
        neg = not self.branch(compare(s, lift(0.0), ">="))
        x = -s if neg else s
        if trunc and not s.isint:
            x = self.floor(x)
            if not is_sym(x):
                return int(-x if neg else x)
        for k in range(400):
            if self.branch(compare(x, lift(float(k)), "==")):
                return -k if neg else k
        raise Unsupported("unbounded integer concretisation")

    # --- fresh terms ------------------------------------------------------
    def fresh(self, p):
        self.fresh_n += 1
        return z3.Real(f"{p}!{self.fresh_n}")

    def quotient(self, num, dens):
        if sym.ROUND:
            num, dens = P.rounded(num), tuple(P.rounded(f) for f in dens)
        key = (num, dens)
        r = self.quots.get(key)
        if r is not None:
            return r
        q = self.fresh("q")
        self.quots[key] = q
        self.idef[P.atom_index(q)] = ("quot", num, dens)
        D = dens[0]
        for f in dens[1:]:
            D = P.pmul(D, f)
        n, d, z = num.z3(), D.z3(), rv(0)
        self.setdef(q, lambda m: rv(as_fraction(self.evalr(m, n)) / as_fraction(self.evalr(m, d))))
        self.add(q * d == n)
        self.add(d > z)
        self.add(z3.And(z3.Implies(n >= z, q >= z), z3.Implies(n <= z, q <= z),
                        z3.Implies(n <= d, q <= rv(1)), z3.Implies(n >= d, q >= rv(1))))
        if sym.ROUND:
            self.add(z3.And(z3.Implies(n >= -d, q >= rv(-1)), z3.Implies(n <= -d, q <= rv(-1))))
        return q

    def root(self, x, n):
        if sym.ROUND and not x.dens:
            x = Sym(num=P.rounded(x.num))
        key = (n, x.num, x.dens)
        r = self.roots.get(key)
        if r is not None:
            return r
        if not x.dens and len(x.num.d) == 1:
            (m, c), = x.num.d.items()
            d = self.idef.get(m[0][0]) if c == 1 and len(m) == 1 and m[0][1] == 1 else None
            if d is not None and d[0] == "root":      # a root of a root
                return self.root(d[2], d[1] * n)
        if n % 2 == 0 and not self.branch(cmp0(x, ">=")):
            return float("nan")
        s = self.fresh("root")
        p = s
        for _ in range(n - 1):
            p = p * s
        xt = x.t
        self.add(s >= rv(0))
        self.add(p == xt)
        self.add(z3.Implies(xt >= rv(1), s >= rv(1)))
        self.add(z3.Implies(xt <= rv(1), s <= rv(1)))
        self.add(z3.Implies(xt > rv(0), s > rv(0)))
        for (n2, s2, x2) in self.rootlist:
            if n2 == n:
                self.add(z3.Implies(xt < x2, s < s2))
                self.add(z3.Implies(xt > x2, s > s2))
                self.add(z3.Implies(xt == x2, s == s2))
        for (n2, x2, d2), r2 in self.roots.items():     # roots of the same number are powers of each other
            if x2 == x.num and d2 == x.dens and max(n, n2) % min(n, n2) == 0:
                b, k, t = (s, n // n2, r2.t) if n > n2 else (r2.t, n2 // n, s)
                q = b
                for _ in range(k - 1):
                    q = q * b
                self.add(q == t)
        self.rootlist.append((n, s, xt))
        self.idef[P.atom_index(s)] = ("root", n, x)
        r = Sym(s)
        self.roots[key] = r
        return r

    def realpow(self, b, r):
        if not self.branch(cmp0(b, ">")):
            return float("nan")
        return self.function(("pow", r), b)

    def function(self, kind, a):
        if a.num.is_const() and not a.dens:
            return realf(kind, float(a.num.const()))
        key = (kind, a.num, a.dens)
        m = self.inst_memo.get(key)
        if m is not None:
            return m[1]
        if kind in ("sin", "cos"):
            r = self.inverse_trig(kind, a)
            if r is None and sym.ANGLES:
                r = self.shifted_trig(kind, a)
            if r is not None:
                self.inst_memo[key] = (a.t, r)
                return r
        if kind == "log":
            if not self.branch(cmp0(a, ">")):
                return float("nan") if self.branch(cmp0(a, "<")) else -INF
        akey = (a.num, a.dens)
        asym = a
        a = a.t
        v = self.fresh(kind if isinstance(kind, str) else "pow")
        self.idef[P.atom_index(v)] = ("fun", kind, asym)
        res = Sym(v)
        self.inst_memo[key] = (a, res)
        lst = self.insts.setdefault(kind, [])
        self.setdef(v, lambda m: rv(Fraction(realf(kind, float(as_fraction(self.evalr(m, a)))))))
        z, one = rv(0), rv(1)
        A = self.add
        if kind == "exp":
            A(v > z)
            A(v >= one + a)
            A(z3.Implies(a <= z, v <= one))
            A(z3.Implies(a >= z, v >= one))
            # exp(a) <= 1/(1-a) for a < 1
            A(z3.Implies(a < one, v * (one - a) <= one))
        elif kind == "log":
            A(v <= a - one)
            A(z3.Implies(a >= one, v >= z))
            A(z3.Implies(a <= one, v <= z))
            A(v * a >= a - one)
            # consistency with exp instances: log(exp(x)) == x
            for (b, e) in self.insts.get("exp", []):
                A(z3.Implies(a == e, v == b))
        elif kind == "tanh":
            A(v < one); A(v > -one)
            A(z3.Implies(a >= z, z3.And(v >= z, v <= a)))
            A(z3.Implies(a <= z, z3.And(v <= z, v >= a)))
        elif kind == "arctan":
            hp = rv(math.pi / 2 + 1e-12)
            A(v < hp); A(v > -hp)
            A(z3.Implies(a >= z, z3.And(v >= z, v <= a)))
            A(z3.Implies(a <= z, z3.And(v <= z, v >= a)))
        elif kind in ("cos", "sin"):
            A(v <= one); A(v >= -one)
            other = "sin" if kind == "cos" else "cos"
            o = self.inst_memo.get((other,) + akey)
            if o is not None:
                A(v * v + o[1].t * o[1].t == one)
            if kind == "cos":
                hp = rv(math.pi / 2 - 1e-12)
                A(z3.Implies(z3.And(a <= hp, a >= -hp), v >= z))
                A(v >= one - a * a / 2)
            else:
                A(z3.Implies(z3.And(a >= z, a <= rv(3.14159265)), v >= z))
                A(z3.Implies(a >= z, v <= a))
                A(z3.Implies(a <= z, v >= a))
        elif kind == "arccos":
            A(v >= z); A(v <= rv(math.pi + 1e-12))
        elif kind == "arcsin":
            hp = rv(math.pi / 2 + 1e-12)
            A(v < hp); A(v > -hp)
            A(z3.Implies(a >= z, v >= z)); A(z3.Implies(a <= z, v <= z))
        elif isinstance(kind, tuple):
            A(v > z)
            r = kind[1]
            if r > 0:
                A(z3.Implies(a >= one, v >= one)); A(z3.Implies(a <= one, v <= one))
            else:
                A(z3.Implies(a >= one, v <= one)); A(z3.Implies(a <= one, v >= one))
        for (b, w) in (lst if sym.PAIRS else []):
            inc = kind in MONO_INC or (isinstance(kind, tuple) and kind[1] > 0)
            dec = kind in MONO_DEC or (isinstance(kind, tuple) and kind[1] < 0)
            if inc:
                A(z3.Implies(a < b, v < w)); A(z3.Implies(a > b, v > w))
            elif dec:
                A(z3.Implies(a < b, v > w)); A(z3.Implies(a > b, v < w))
            elif kind == "cos":
                A(z3.Implies(z3.And(z <= a, a < b, b <= rv(3.14159265)), v > w))
                A(z3.Implies(z3.And(z <= b, b < a, a <= rv(3.14159265)), v < w))
            A(z3.Implies(a == b, v == w))
        lst.append((a, v))
        for p in self.points.get(kind, []):
            for l in self.lemma(kind, a, v, p):
                A(l)
        return res

    def inverse_trig(self, kind, a):
        """sin/cos of  c +- arcsin(x)  or  c +- arccos(x), by the addition theorem."""
        if a.dens or len(a.num.d) > 2:
            return None
        c, t = 0.0, None
        for m, k in a.num.d.items():
            if m == ():
                c = float(k)
            elif len(m) == 1 and m[0][1] == 1 and abs(abs(float(k)) - 1) < 1e-14:
                t = (m[0][0], k)
            else:
                return None
        if t is None:
            return None
        d = self.idef.get(t[0])
        if d is None or d[0] != "fun" or d[1] not in ("arcsin", "arccos"):
            return None
        x = d[2]
        y = sym.power(1.0 - x * x, 0.5)
        s, k = (x, y) if d[1] == "arcsin" else (y, x)
        s = s if t[1] > 0 else -s
        near = lambda v: float(round(v)) if abs(v - round(v)) < 1e-15 else v
        sc, cc = near(math.sin(c)), near(math.cos(c))
        return sc * k + cc * s if kind == "sin" else cc * k - sc * s

    def shifted_trig(self, kind, a):
        """sin/cos of  c + x: by the addition theorem; of -x: by symmetry (one instance per angle)."""
        if a.dens:
            return None
        r = {m: Fraction(f"{float(k):.15g}") for m, k in a.num.d.items()}
        if r != a.num.d:      # angles differing by a rounding of pi / 180 are the same angle
            return self.function(kind, sym.fin(P.Poly(r)))
        c = a.num.d.get((), 0)
        if c != 0:
            x = sym.fin(P.Poly({m: k for m, k in a.num.d.items() if m != ()}))
            sc, cc = math.sin(float(c)), math.cos(float(c))
            near = lambda v: float(round(v)) if abs(v - round(v)) < 1e-15 else v
            sc, cc = near(sc), near(cc)
            sx = self.function("sin", x) if (cc if kind == "sin" else sc) else 0.0
            cx = self.function("cos", x) if (sc if kind == "sin" else cc) else 0.0
            return sc * cx + cc * sx if kind == "sin" else cc * cx - sc * sx
        lead = a.num.d[min(a.num.d)]
        if lead < 0:
            r = self.function(kind, -a)
            return -r if kind == "sin" else r
        return None

    def neighbours(self, kind, p):
        """the refinement points next to p."""
        pts = self.points.get(kind, [])
        lo = [q for q in pts if q < p]
        hi = [q for q in pts if q > p]
        return ([max(lo)] if lo else []) + ([min(hi)] if hi else [])

    def lemma(self, kind, a, v, p):
        """sound facts about v = kind(a) around the rational point p."""
        fp = float(p)
        try:
            y = realf(kind, fp)
        except (ValueError, OverflowError, ZeroDivisionError):
            return []
        eps = max(abs(y) * 1e-13, 1e-300) + abs(fp) * abs(y) * 1e-15
        if not math.isfinite(y):
            return []
        lo, hi = Fraction(y) - Fraction(eps), Fraction(y) + Fraction(eps)
        lo = lo.limit_denominator(10**18) if abs(y) > 1e-9 else lo
        hi = hi.limit_denominator(10**18) if abs(y) > 1e-9 else hi
        if float(hi) <= y:
            hi = Fraction(y) + Fraction(eps)
        if float(lo) >= y:
            lo = Fraction(y) - Fraction(eps)
        P, LO, HI = rv(Fraction(p)), rv(lo), rv(hi)
        inc = kind in MONO_INC or (isinstance(kind, tuple) and kind[1] > 0)
        dec = kind in MONO_DEC or (isinstance(kind, tuple) and kind[1] < 0)
        out = []
        if inc:
            out += [z3.Implies(a <= P, v <= HI), z3.Implies(a >= P, v >= LO)]
        elif dec:
            out += [z3.Implies(a <= P, v >= LO), z3.Implies(a >= P, v <= HI)]
        else:  # cos/sin: 1-Lipschitz
            out += [v - HI <= z3.If(a >= P, a - P, P - a),
                    LO - v <= z3.If(a >= P, a - P, P - a)]
        if kind == "exp" and y > 1e-12:
            # tangent: e^x >= s (1 + x - L) with L >= ln s
            s = Fraction(y).limit_denominator(10**12)
            if s > 0:
                L = Fraction(math.log(s)) + Fraction(1e-13) * (1 + abs(int(fp)))
                out.append(v >= rv(s) * (rv(1 - L) + a))
            # chord to the neighbouring points
        if kind == "exp":
            for p2 in self.neighbours(kind, p):
                a1, a2 = min(p, p2), max(p, p2)
                y1, y2 = math.exp(a1) * (1 + 1e-12), math.exp(a2) * (1 + 1e-12)
                sl = Fraction(y2 - y1) / (a2 - a1)
                out.append(z3.Implies(z3.And(a >= rv(a1), a <= rv(a2)),
                                      v <= rv(Fraction(y1)) + rv(sl) * (a - rv(a1))
                                      + rv(Fraction(1, 10**15))))
        if kind == "log":
            out.append(v <= rv(hi) + (a - P) * rv(1 / Fraction(p)))
        if kind == "arctan" and fp >= 0:
            # concave on x >= 0 (odd function)
            sl = Fraction(1) / (1 + Fraction(p) ** 2)
            out.append(z3.Implies(a >= rv(0), v <= rv(hi) + (a - P) * rv(sl)))
            out.append(z3.Implies(a <= rv(0), v >= -rv(hi) + (a + P) * rv(sl)))
        if kind == "log" or (kind == "arctan" and fp >= 0):
            for p2 in self.neighbours(kind, p):
                if kind == "arctan" and p2 < 0:
                    continue
                a1, a2 = min(p, p2), max(p, p2)
                y1, y2 = realf(kind, float(a1)), realf(kind, float(a2))
                y1 -= abs(y1) * 1e-12 + 1e-15
                y2 -= abs(y2) * 1e-12 + 1e-15
                sl = Fraction(y2 - y1) / (a2 - a1)
                out.append(z3.Implies(z3.And(a >= rv(a1), a <= rv(a2)), v >= rv(Fraction(y1)) + rv(sl) * (a - rv(a1))))
        return out

    def refine(self, model):
        """add point lemmas where the model misrepresents a function."""
        n = 0
        for kind, lst in self.insts.items():
            for (a, v) in lst:
                av, vv = val_of(model, a), val_of(model, v)
                try:
                    y = realf(kind, float(av))
                except (ValueError, OverflowError):
                    continue
                if abs(float(vv) - y) <= 1e-10 * max(1e-6, abs(y)):
                    continue
                p = Fraction(float(av)).limit_denominator(10**6) if abs(av) > Fraction(1, 1000) \
                    else Fraction(float(av))
                pts = self.points.setdefault(kind, [])
                if p in pts:
                    p = Fraction(float(av))
                if p in pts:
                    continue
                pts.append(p)
                n += 1
                for (a2, v2) in lst:
                    for l in self.lemma(kind, a2, v2, p):
                        self.add(l)
        self.stats["refinements"] += n
        return n

    # --- inputs -----------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            self.decl[name] = "real"
            if lo is not None:
                self.add(v > rv(lo) if lo_open else v >= rv(lo))
            if hi is not None:
                self.add(v < rv(hi) if hi_open else v <= rv(hi))
            self.idef[P.atom_index(v)] = ("box", lo, hi)
        return Sym(v)

    def choice(self, name, options):
        """one of a finite list (each explored)."""
        options = list(options)
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            self.decl[name] = "choice"
            self.add(z3.Or([v == rv(i) for i in range(len(options))]))
        for i in range(len(options) - 1):
            if self.branch(v == rv(i)):
                return options[i]
        return options[-1]

    def boolean(self, name):
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            self.decl[name] = "bool"
            self.add(z3.Or(v == rv(0), v == rv(1)))
        return SymBool(v == rv(1))

    def integer(self, name, lo, hi):
        """symbolic integer in [lo, hi] (enumerated when used as an index)."""
        i = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = z3.ToReal(i)
            self.decl[name] = "int"
            self.add(i >= lo)
            self.add(i <= hi)
        return Sym(z3.ToReal(i), isint=True)

    def input_values(self, model):
        return {n: val_of(model, t) for n, t in self.inputs.items()}

    # --- interval bounds (linear relaxation) ----------------------------------
    def ival_atom(self, i):
        r = self.ivals.get(i)
        if r is None:
            self.ivals[i] = (-INF, INF)    # guards against cycles
            d = self.idef.get(i)
            try:
                r = self._ival_def(d, i) if d else (-INF, INF)
            except (OverflowError, ValueError, ZeroDivisionError):
                r = (-INF, INF)
            self.ivals[i] = r
        return r

    def _ival_def(self, d, atom=None):
        k = d[0]
        if k == "box":
            return widen(-INF if d[1] is None else float(d[1]), INF if d[2] is None else float(d[2]))
        if k == "poly":
            return self.ival_poly(d[1])
        if k == "ite":
            a, b = self.ival_poly(d[1]), self.ival_poly(d[2])
            if atom in self.clip:
                return self.clip[atom]
            return min(a[0], b[0]), max(a[1], b[1])
        if k == "quot":
            return self.ival_q(d[1], d[2])
        if k == "root":
            lo, hi = self.ival_q(d[2].num, d[2].dens)
            if d[1] % 2:
                return (-INF, INF)
            return widen(max(lo, 0.0) ** (1 / d[1]), INF if hi == INF else max(hi, 0.0) ** (1 / d[1]))
        kind, x = d[1], d[2]
        if kind in ("cos", "sin"):
            return (-1.0, 1.0)
        if kind == "tanh":
            return (-1.0, 1.0)
        lo, hi = self.ival_q(x.num, x.dens)
        if kind in ("arctan", "arcsin"):
            return (-1.5708, 1.5708)
        if kind == "arccos":
            return (0.0, 3.1416)
        if kind == "exp":
            return widen(math.exp(lo) if lo > -700 else 0.0, math.exp(hi) if hi < 700 else INF)
        if kind == "log":
            return widen(math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF)
        if isinstance(kind, tuple):
            r = float(kind[1])
            f = lambda v: (0.0 if r > 0 else INF) if v <= 0 else ((INF if r > 0 else 0.0) if v == INF else v ** r)
            a, b = f(lo), f(hi)
            return widen(min(a, b), max(a, b))
        return (-INF, INF)

    def ival_mono(self, m):
        lo = hi = 1.0
        for a, e in m:
            l, h = self.ival_atom(a)
            if e % 2 == 0 and l < 0:
                l, h = (0.0, max(-l, h)) if h > 0 else (-h, -l)
            l, h = (l ** e, h ** e)
            lo, hi = imul(lo, hi, l, h)
        return lo, hi

    def ival_poly(self, p):
        lo = hi = ml = mh = 0.0
        for m, c in p.d.items():
            l, h = self.ival_mono(m)
            c = float(c)
            if c < 0:
                l, h = h, l
            lo += c * l
            hi += c * h
            ml += abs(c * l)
            mh += abs(c * h)
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return lo - ml * 1e-12 if lo > -INF else lo, hi + mh * 1e-12 if hi < INF else hi

    def decide(self, num, op):
        """truth of num op 0 from interval bounds of its atoms, or None."""
        if len(num) > 60:
            return None
        try:
            lo, hi = self.ival_poly(num)
        except OverflowError:
            return None
        if op == ">":
            return True if lo > 0 else (False if hi <= 0 else None)
        if op == ">=":
            return True if lo >= 0 else (False if hi < 0 else None)
        if op == "<":
            return True if hi < 0 else (False if lo >= 0 else None)
        if op == "<=":
            return True if hi <= 0 else (False if lo > 0 else None)
        if lo > 0 or hi < 0:
            return op == "!="
        return None

    def ival_q(self, num, dens):
        lo, hi = self.ival_poly(num)
        for f in dens:
            l, h = self.ival_poly(f)
            if l <= 0:
                l = 0.0
            if h <= 0 or h != h:
                h = INF
            il, ih = (0.0 if h == INF else 1 / h), (INF if l == 0 else 1 / l)
            lo, hi = imul(lo, hi, il, ih)
        return widen(lo, hi)

    def relaxed(self, d, op, tol):
        """True if the linear relaxation over the bounds of the monomials refutes d > tol (d < -tol)."""
        if len(d.num) > 400:
            return False
        den = 1.0
        for f in d.dens:
            l, _ = self.ival_poly(f)
            if not l > 0:
                return False
            den *= l
        s = z3.Solver()
        s.set("timeout", 2000)
        ts = []
        for j, (m, c) in enumerate(d.num.d.items()):
            l, h = self.ival_mono(m)
            if not (math.isfinite(l) and math.isfinite(h)):
                return False
            v = z3.Real(f"mono!{j}")
            s.add(v >= rv(Fraction(l)), v <= rv(Fraction(h)))
            ts.append(rv(c) * v)
        t = z3.Sum(ts) if ts else rv(0)
        lim = rv(Fraction(tol) * Fraction(den * (1 - 1e-12)))
        s.add(t > lim if op == ">" else t < -lim)
        t0 = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t0
        self.stats["prove_q"] += 1
        if r == z3.unsat:
            self.stats["unsat"] += 1
            return True
        return False

    # --- solving ------------------------------------------------------------
    def feasible_strong(self):
        r, m = self.solve([], self.t_prove)
        return r

    def solve(self, extra, timeouts):
        """decide cons /\\ extra.  Portfolio of z3 configurations."""
        t0 = time.time()
        self.stats["prove_q"] += 1
        r, m = self._check(*extra, timeout=timeouts[0]) if extra else self._check(timeout=timeouts[0])
        if r == "unknown":
            for to, mkS in zip(timeouts[1:], (self._nlsat, self._smt)):
                t = time.time()
                s = mkS()
                s.set("timeout", int(to))
                s.add(*self.cons)
                s.add(*extra)
                try:
                    rr = s.check()
                except z3.Z3Exception:
                    rr = z3.unknown
                self.stats["solver_s"] += time.time() - t
                r = str(rr)
                if r == "sat":
                    m = s.model()
                if r != "unknown":
                    break
        self.stats[r] += 1
        return r, m

    @staticmethod
    def _nlsat():
        return z3.SolverFor("QF_NRA")

    @staticmethod
    def _smt():
        s = z3.SimpleSolver()
        s.set("arith.solver", 2)
        return s

    # --- assertions ---------------------------------------------------------
    def _label(self, label):
        L = self.labels.get(label)
        if L is None:
            L = self.labels[label] = dict(reached=0, proved=0, witness=None)
        L["reached"] += 1
        if L["witness"] is None:
            if self.path_sat is None and not self.path_hard:
                r, m = self._check(timeout=2000)
                if r == "unknown" and not sym.ROUND:
                    r, m = self.solve([], self.t_prove)
                # keep functions consistent so that the witness is a real input
                k = 0
                while r == "sat" and k < 8 and self.insts and self.refine(m):
                    r, m = self._check(timeout=3000)
                    k += 1
                if r == "sat":
                    self.path_sat = {n: float(v) for n, v in self.input_values(m).items()}
                elif r == "unsat":
                    raise AssumeFailed()
                else:
                    self.path_hard = True
            if self.path_sat is not None:
                L["witness"] = self.path_sat
                if len(self.samples) < 6:
                    self.samples.append(dict(label=label, inputs=self.path_sat))
        return L

    def check(self, label, cond, detail=None):
        """assert a boolean."""
        if label in self.suppress:
            return
        L = self._label(label)
        c = bterm(cond)
        self._prove(label, L, [[z3.Not(c)]], detail)

    def check_all(self, label, conds, detail=None):
        """assert a list of booleans in one query."""
        if label in self.suppress:
            return
        L = self._label(label)
        ts = [bterm(c) for c in conds]
        if not ts:
            return
        self._prove(label, L, [[z3.Not(z3.And(ts))]], detail)

    def observe(self, name, v):
        """record an output (compared between encoding and real build)."""

    def close(self, label, a, b, tol=1e-9, rel=1e-9, detail=None):
        """assert a == b up to tol (+ rel*|b|)."""
        if label in self.suppress:
            return
        a, b = unwrap(a), unwrap(b)
        if not is_sym(a) and not is_sym(b):
            a, b = float(a), float(b)
            ok = (a == b) or (abs(a - b) <= tol + rel * max(abs(a), abs(b))) or (a != a and b != b)
            return self.check(label, ok, detail)
        for x in (a, b):
            if not is_sym(x) and x is not None and not math.isfinite(x):
                return self.check(label, False, detail)
        L = self._label(label)
        d = lift(a) - lift(b)
        if not is_sym(d):
            if abs(d) <= tol:
                L["proved"] += 1
                self.stats["exact_eq"] += 1
                return
            return self._prove(label, L, [[]], detail)
        if self.relaxed(d, ">", tol) and self.relaxed(d, "<", tol):
            L["proved"] += 1
            return
        r, m = self.solve([cmp0(d, "!=")], (self.t_prove[0],) + tuple(self.t_prove[1:2]))
        if r == "unsat":
            L["proved"] += 1
            self.stats["exact_eq"] += 1
            return
        self._prove(label, L, [[compare(d, lift(tol), ">")], [compare(d, lift(-tol), "<")]], detail, margin=d)

    def le(self, label, a, b, tol=1e-9, detail=None):
        """assert a <= b (+ tol)."""
        if label in self.suppress:
            return
        a, b = unwrap(a), unwrap(b)
        if not is_sym(a) and not is_sym(b):
            return self.check(label, bool(a <= b + tol + 1e-9 * max(abs(a), abs(b))), detail)
        for x in (a, b):
            if not is_sym(x) and not math.isfinite(x):
                return self.check(label, (x == INF) if x is b else (x == -INF), detail)
        L = self._label(label)
        d = lift(a) - lift(b)
        if not is_sym(d):
            if d <= tol:
                L["proved"] += 1
                return
            return self._prove(label, L, [[]], detail)
        if self.relaxed(d, ">", tol):
            L["proved"] += 1
            return
        self._prove(label, L, [[compare(d, lift(tol), ">")]], detail, margin=d)

    def ge(self, label, a, b, tol=1e-9, detail=None):
        return self.le(label, b, a, tol, detail)

    def _prove(self, label, L, cases, detail, margin=None):
        if time.time() > self.deadline:
            raise Deadline()
        done = True
        for neg in cases:
            ok = self._refute(label, neg, detail, margin)
            done = done and ok
        if done:
            L["proved"] += 1

    def _refute(self, label, neg, detail, margin):
        """True if neg is impossible; raises Violation if it is real."""
        r, m = self.solve(neg, self.t_prove)
        tried = 0
        while r == "sat":
            if self.try_candidate(label, m, detail):
                raise AssertionError("unreachable")
            tried += 1
            n = self.refine(m)
            if n == 0:
                # numerically borderline? ask for a larger margin, else block
                if margin is not None and tried <= 3:
                    big = [1e-6, 1e-4, 1e-2][tried - 1]
                    rr, mm = self.solve(neg + [z3.Or(compare(margin, lift(big), ">"), compare(margin, lift(-big), "<"))],
                                        self.t_prove[:1])
                    if rr == "sat" and self.try_candidate(label, mm, detail):
                        pass
                if tried > 3:
                    self.inconclusive.append(f"{label}: counterexample does not reproduce concretely")
                    return False
            if tried > 60 or time.time() > self.deadline:
                self.inconclusive.append(f"{label}: refinement limit")
                return False
            r, m = self.solve(neg, self.t_prove)
        if r == "unsat":
            return True
        # unknown: look for a counterexample with some inputs pinned
        if self.pinned_search(label, neg, detail):
            return False
        self.inconclusive.append(f"{label}: solver returned unknown")
        return False

    def pinned_search(self, label, neg, detail):
        names = [n for n in self.inputs if self.decl.get(n) == "real"]
        t_end = time.time() + 25
        base = self._check(timeout=2000)
        for k in range(24):
            if time.time() > t_end:
                break
            if not names:
                break
            pins = []
            sub = self.rng.sample(names, max(1, int(len(names) * (0.4 + 0.5 * self.rng.random()))))
            m0 = base[1]
            ok = True
            self.solver.push()
            for n in sub:
                if m0 is None:
                    break
                pins.append(self.inputs[n] == rv(Fraction(float(val_of(m0, self.inputs[n]))).limit_denominator(1000)))
            self.solver.pop()
            s = z3.SolverFor("QF_NRA") if k % 2 else z3.Solver()
            s.set("timeout", 1500)
            s.add(*self.cons); s.add(*neg); s.add(*pins)
            if s.check() == z3.sat:
                m = s.model()
                if self.try_candidate(label, m, detail):
                    return True
                if self.refine(m) == 0:
                    pass
            else:
                # random restart of the base point
                b = self._check(*[self.inputs[n] >= rv(Fraction(float(val_of(m0, self.inputs[n])))) for n in
                                  self.rng.sample(names, 1)] if m0 is not None else [], timeout=800)
                if b[1] is not None:
                    base = b
        return False

    def try_candidate(self, label, m, detail):
        vals = {n: float(v) for n, v in self.input_values(m).items()}
        res = replay_inprocess(self.harness, vals)
        sym.EX = self
        res.failed = [f for f in res.failed if f[0] not in self.suppress]
        if res.failed:
            lab, msg = res.failed[0]
            raise Violation(dict(label=lab, wanted=label, detail=msg, inputs=vals))
        return False

    def on_exception(self, e):
        name = type(e).__name__
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
        label = "no-exception"
        if label in self.suppress:
            self.stats["paths"] += 1
            return
        L = self.labels.setdefault(label, dict(reached=0, proved=0, witness="-"))
        L["reached"] += 1
        r, m = self.solve([], self.t_prove)
        k = 0
        while r == "sat" and k < 25:
            vals = {n: float(v) for n, v in self.input_values(m).items()}
            res = replay_inprocess(self.harness, vals)
            sym.EX = self
            res.failed = [f for f in res.failed if f[0] not in self.suppress]
            if res.failed:
                raise Violation(dict(label=res.failed[0][0], wanted=label,
                                     detail=res.failed[0][1], inputs=vals))
            if self.refine(m) == 0:
                break
            r, m = self.solve([], self.t_prove)
            k += 1
        if r == "unsat":
            self.stats["infeasible"] += 1
            L["proved"] += 1
            return
        self.inconclusive.append(f"exception {name}: {e} at {loc} (path {r})")


class Replay:
    """Concrete context: same harness, real numbers."""

    symbolic = False

    def __init__(self, vals):
        self.vals = vals
        self.failed = []
        self.checked = {}
        self.invalid = None
        self.obs = {}
        self.rng = None

    def observe(self, name, v):
        k = name
        i = 0
        while k in self.obs:
            i += 1
            k = f"{name}#{i}"
        try:
            self.obs[k] = float(np.asarray(v, dtype=object).item())
        except (TypeError, ValueError):
            self.obs[k] = str(v)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.vals.get(name)
        if v is None and self.rng is not None and lo is not None and hi is not None:
            v = self.vals[name] = self.rng.uniform(lo, hi)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0.0)
            if lo is not None and hi is not None:
                v = (lo + hi) / 2
        return float(v)

    def choice(self, name, options):
        return list(options)[self._pick(name, 0, len(list(options)) - 1)]

    def _pick(self, name, lo, hi):
        if name not in self.vals and self.rng is not None:
            self.vals[name] = self.rng.randint(lo, hi)
        return int(round(self.vals.get(name, lo)))

    def boolean(self, name):
        return bool(self._pick(name, 0, 1))

    def integer(self, name, lo, hi):
        return self._pick(name, lo, hi)

    def assume(self, c):
        if not bool(np.all(c)):
            # tolerate rounding at the border of an assumption
            raise AssumeFailed()

    def check(self, label, cond, detail=None):
        ok = bool(np.all(cond))
        self.checked[label] = self.checked.get(label, 0) + 1
        if not ok:
            self.failed.append((label, str(detail) if detail is not None else "condition is false"))

    def check_all(self, label, conds, detail=None):
        bad = [i for i, c in enumerate(conds) if not bool(np.all(c))]
        self.check(label, not bad, f"condition {bad} is false" if detail is None else detail)

    def close(self, label, a, b, tol=1e-9, rel=1e-9, detail=None):
        a, b = float(np.asarray(a).item()), float(np.asarray(b).item())
        self.observe(label + ".a", a)
        self.observe(label + ".b", b)
        ok = (a == b) or (a != a and b != b) or abs(a - b) <= tol + rel * max(abs(a), abs(b))
        self.check(label, ok, f"{a!r} != {b!r}" + (f" ({detail})" if detail else ""))

    def le(self, label, a, b, tol=1e-9, detail=None):
        a, b = float(np.asarray(a).item()), float(np.asarray(b).item())
        self.observe(label + ".a", a)
        self.observe(label + ".b", b)
        self.check(label, a <= b + tol + 1e-9 * max(abs(a), abs(b)),
                   f"{a!r} > {b!r}" + (f" ({detail})" if detail else ""))

    def ge(self, label, a, b, tol=1e-9, detail=None):
        self.le(label, b, a, tol, detail)


class _NoEx:
    """explorer stand-in while replaying concretely inside the process"""

    def __getattr__(self, k):
        raise Unsupported("symbolic operation during a concrete replay")


def replay_inprocess(harness, vals, rng=None):
    cx = Replay(vals)
    cx.rng = rng
    old = sym.EX
    sym.EX = _NoEx()
    try:
        harness(cx)
    except AssumeFailed:
        cx.invalid = "assumption"
    except sym.DomainDead:
        pass
    except PathAbort as e:
        cx.invalid = f"{type(e).__name__}: {e}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
        cx.failed.append((f"no-exception", f"{type(e).__name__}: {e} at {loc}"))
    finally:
        sym.EX = old
    return cx
