"""Path-wise symbolic execution of real Python code, decided by z3.

A scenario is a function fn(ctx).  It is executed once per feasible path; every
truth value of a symbolic condition goes through Path.decide, which asks the
solver which outcomes are possible and forks when both are.  Obligations
(ctx.require) are discharged at the end of a path as one validity query under
the path condition.  The same function is executed with a Replay context (plain
floats) to confirm counterexamples and to validate sampled paths.
"""
from __future__ import annotations

import math
import multiprocessing as mp
import os
import queue as queue_mod
import random as _random
import sys
import time
import traceback
from collections import Counter
from fractions import Fraction

import z3

from . import num
from .num import And, Implies, Ite, Max, Min, Not, Or, SymBool, SymReal, Unsupported, norm, zb

QUERY_TIMEOUT_MS = 30000
MAX_REAL = 10**4


class PathAbort(BaseException):
    """infeasible assumption: this path does not exist"""


class StopPath(BaseException):
    """the harness ends the path here (a stated bound)"""


class Inconclusive(BaseException):
    """the solver answered unknown, or the run diverged"""


class _Base:
    symbolic = True
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)
    Implies = staticmethod(Implies)
    Ite = staticmethod(Ite)
    Min = staticmethod(Min)
    Max = staticmethod(Max)

    def Sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def stop(self):
        raise StopPath()

    hashables = None

    def hash_among(self, values):
        """symbolic numbers may be hashed; `values` holds every concrete number they may be compared with"""
        self.hashables = []
        for v in values:
            if isinstance(v, (int, float)) and all(v != w for w, _ in self.hashables):
                self.hashables.append((v, hash(v)))

    def bool(self, label="b"):
        return self.choice(2, label) == 1


class Path(_Base):
    def __init__(self, prefix, stats):
        self.prefix = prefix
        self.stats = stats
        self.trace = []  # decisions taken
        self.keys = []
        self.alts = []  # alternative prefixes discovered
        self.solver = None
        self.pc = []  # z3 constraints
        self.n_asserted = 0
        self.names = {}
        self.vars = []  # (name, kind)
        self.choices = []  # (label, value)
        self.known = {}
        self.roots = {}  # root variable -> the form under it
        self.model = None
        self.obligations = []
        self.drawn = []
        self.covered = set()
        self.obs = []
        self.failed_ops = None
        self.defs = {}  # quotient atoms: name -> (numerator, denominator)
        self.checked = 0

    # -- symbolic inputs ------------------------------------------------
    def _name(self, label):
        i = self.names.get(label, 0)
        self.names[label] = i + 1
        return f"{label}#{i}" if i or not label else label

    def real(self, label="x", lo=0, hi=None, strict=False, approx=False):
        if hi is None and lo is not None:
            hi = MAX_REAL  # stated bound on every non-negative quantity
        n = self._name(label)
        v = z3.Real(n)
        num.ATOMS[n] = v
        self.vars.append((n, "real"))
        lo_n = None if lo is None else norm(lo)
        hi_n = None if hi is None else norm(hi)
        cs = []
        if lo_n is not None:
            cs.append(v > num.zq(lo_n) if strict else v >= num.zq(lo_n))
        if hi_n is not None:
            cs.append(v <= num.zq(hi_n))
        if self.model is not None:
            if lo_n is None:
                val = 0 if hi_n is None else min(0, hi_n)
            else:
                val = lo_n + 1
                if hi_n is not None and val > hi_n:
                    val = Fraction(lo_n + hi_n) / 2 if lo_n < hi_n else hi_n
            self.model[n] = val
        for c in cs:
            self._assert(c)
        return SymReal.var(n)

    def int(self, label="n", lo=0, hi=None):
        n = self._name(label)
        v = z3.Int(n)
        num.ATOMS[n] = z3.ToReal(v)
        self.vars.append((n, "int"))
        if self.model is not None:
            self.model[n] = lo if lo is not None else (0 if hi is None else min(0, hi))
        if lo is not None:
            self._assert(v >= lo)
        if hi is not None:
            self._assert(v <= hi)
        return SymReal.var(n)

    def choice(self, n, label="choice"):
        """a nondeterministic index in range(n) (any seed, any distribution)"""
        if n <= 0:
            raise IndexError("choice from an empty sequence")
        i = len(self.trace)
        name = self._name("?" + label)
        if n == 1:
            self.choices.append((name, 0))
            return 0
        self.stats["choices"] += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != "c" or d[1] >= n:
                raise Inconclusive("divergent replay at a choice")
            val = d[1]
        else:
            val = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(tuple(self.trace) + (("c", k),))
        self.trace.append(("c", val))
        self.choices.append((name, val))
        return val

    # -- constraints ----------------------------------------------------
    def _assert(self, c):
        self.pc.append(c)

    def _sync(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set("timeout", QUERY_TIMEOUT_MS)
        for c in self.pc[self.n_asserted:]:
            self.solver.add(c)
        self.n_asserted = len(self.pc)

    def _check(self, extra=None):
        self._sync()
        t = time.perf_counter()
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra is not None:
            self.solver.pop()
        if r == z3.unknown:
            # the incremental solver gives up on some products of unknowns: ask again from scratch
            for make in (z3.Solver, lambda: z3.Then("simplify", "purify-arith", "qfnra-nlsat").solver()):
                s = make()
                s.set("timeout", QUERY_TIMEOUT_MS)
                for c in self.pc + ([extra] if extra is not None else []):
                    s.add(c)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r != z3.unknown:
                    m = s.model() if r == z3.sat else None
                    break
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
            raise Inconclusive("solver answered unknown")
        return (r == z3.sat), m

    def _take_model(self, m):
        d = {}
        for n, kind in self.vars:
            v = m.eval(num.ATOMS[n], model_completion=True)
            if z3.is_rational_value(v) or z3.is_int_value(v):
                d[n] = norm(Fraction(v.as_fraction()))
            else:
                return None
        return d

    def _ensure_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                raise PathAbort()
            self.model = self._take_model(m)
        return self.model

    def _eval(self, sb):
        """truth of a SymBool under the cached model; None when unclear"""
        m = self.model
        if m is None:
            return None
        if sb.kind == "lin":
            t = sb.form.k
            for n, c in sb.form.c.items():
                if n not in m:
                    v = self._eval_atom(n)
                    if v is None:
                        return None
                    t += c * v
                else:
                    t += c * m[n]
            return t < 0 if sb.op == "<" else (t <= 0 if sb.op == "<=" else t == 0)
        e = self._subst(sb.expr)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return None

    def _subst(self, e):
        subs = []
        for n, kind in self.vars:
            v = self.model[n]
            if kind == "int":
                subs.append((z3.Int(n), z3.IntVal(int(v))))
            elif kind == "real":
                subs.append((z3.Real(n), num.zq(v)))
        return z3.simplify(z3.substitute(e, *subs))

    def _eval_atom(self, n):
        e = self._subst(num.ATOMS[n])
        if z3.is_rational_value(e):
            return norm(Fraction(e.as_fraction()))
        return None

    @staticmethod
    def _key(sb):
        if sb.kind == "lin":
            items = sorted(sb.form.c.items())
            lead = abs(items[0][1])
            if lead != 1:
                items = [(n, norm(Fraction(c) / lead)) for n, c in items]
                k = norm(Fraction(sb.form.k) / lead)
            else:
                k = sb.form.k
            return (sb.op, tuple(items), k)
        return ("z3", sb.expr.sexpr())

    def _lookup(self, sb):
        if sb.kind == "lin":
            key = self._key(sb)
            v = self.known.get(key)
            if v is not None:
                return key, v
            op, items, k = key
            nitems = tuple((n, -c) for n, c in items)
            if op == "==":
                v = self.known.get(("==", nitems, -k))
                if v is not None:
                    return key, v
                # a<b or a>b known
                if self.known.get(("<", items, k)) or self.known.get(("<", nitems, -k)):
                    return key, False
            elif op == "<":
                v = self.known.get(("<=", nitems, -k))
                if v is not None:
                    return key, (not v)
                if self.known.get(("==", items, k)) or self.known.get(("==", nitems, -k)):
                    return key, False
            elif op == "<=":
                v = self.known.get(("<", nitems, -k))
                if v is not None:
                    return key, (not v)
                if self.known.get(("==", items, k)) or self.known.get(("==", nitems, -k)):
                    return key, True
            return key, None
        key = self._key(sb)
        return key, self.known.get(key)

    def decide(self, sb):
        key, v = self._lookup(sb)
        if v is not None:
            return v
        i = len(self.trace)
        self.stats["decisions"] += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] == "c":
                raise Inconclusive("divergent replay at a condition")
            val, forced = d[1], d[0] == "f"
        else:
            self._ensure_model()
            side = self._eval(sb)
            if side is None:
                t, m = self._check(sb.z())
                f, m2 = self._check(sb.neg().z())
                if t and f:
                    val, forced = True, False
                    self.model = self._take_model(m)
                elif t or f:
                    val, forced = t, True
                    self.model = self._take_model(m if t else m2)
                else:
                    raise PathAbort()
            else:
                other = sb.neg() if side else sb
                ok, _ = self._check(other.z())
                val, forced = side, not ok
            if not forced:
                self.stats["forks"] += 1
                self.alts.append(tuple(self.trace) + (("b", not val),))
        self.trace.append(("f" if forced else "b", val))
        self.known[key] = val
        if not forced:
            self._assert(sb.z() if val else sb.neg().z())
        return val

    def assume(self, cond):
        """a stated bound / precondition; prunes paths that do not meet it"""
        if isinstance(cond, SymBool):
            key, v = self._lookup(cond)
            if v is True:
                return
            if v is False:
                raise PathAbort()
            self._assert(cond.z())
            self.known[key] = True
            if self.model is not None and not self._eval(cond):
                self.model = None
            if len(self.trace) >= len(self.prefix):
                self._ensure_model()
        elif not cond:
            raise PathAbort()

    # -- non-linear helpers --------------------------------------------
    def quotient(self, a, b):
        """a / b with b != 0 already decided; fresh q with q*b == a"""
        key = ("q", a.z().sexpr(), b.z().sexpr())
        if key in self.known:
            return self.known[key]
        n = self._name("div")
        num.ATOMS[n] = z3.Real(n)
        self.vars.append((n, "real"))
        q = SymReal.var(n)
        self.defs[n] = (a, b)
        self._assert(num.ATOMS[n] * b.z() == a.z())
        self.model = None
        self.known[key] = q
        return q

    def sqrt(self, a):
        if not a.c:
            k = Fraction(a.k)
            r = Fraction(math.isqrt(k.numerator), math.isqrt(k.denominator)) if k >= 0 else None
            if r is not None and r * r == k:
                return SymReal({}, norm(r))
        key = ("s", a.z().sexpr())
        if key in self.known:
            return self.known[key]
        if a < 0:
            raise ValueError("math domain error")
        n = self._name("sqrt")
        num.ATOMS[n] = z3.Real(n)
        self.vars.append((n, "real"))
        v = num.ATOMS[n]
        self._assert(v >= 0)
        self._assert(v * v == a.z())
        self.model = None
        r = SymReal.var(n)
        self.roots[n] = a
        self.known[key] = r
        return r

    def round(self, a, n):
        """a to n decimals (either neighbour at a tie)"""
        key = ("r", n, a.z().sexpr())
        if key in self.known:
            return self.known[key]
        nm = self._name("round")
        iv = z3.Int(nm)
        num.ATOMS[nm] = z3.ToReal(iv)
        self.vars.append((nm, "int"))
        d = a * 10**n - SymReal.var(nm)
        self._assert(And(d * 2 <= 1, d * 2 >= -1).z())
        self.model = None
        r = SymReal.var(nm) / 10**n
        self.known[key] = r
        return r

    def to_int(self, a):
        """int(): truncation towards zero, concretised by forking"""
        ints = all(nm in dict(self.vars) and dict(self.vars)[nm] == "int" for nm in a.c)
        if not (ints and all(isinstance(c, int) for c in a.c.values()) and isinstance(a.k, int)):
            n = self._name("trunc")
            iv = z3.Int(n)
            num.ATOMS[n] = z3.ToReal(iv)
            self.vars.append((n, "int"))
            t = SymReal.var(n)
            self.model = None
            if a >= 0:
                self.assume(And(t <= a, t > a - 1))
            else:
                self.assume(And(t >= a, t < a + 1))
            a = t
        for _ in range(200):
            i = len(self.trace)
            if i < len(self.prefix):
                # the value tried is recorded in the prefix marker
                d = self.prefix[i]
                if d[0] not in ("i", "I"):
                    raise Inconclusive("divergent replay at int()")
                k, val = d[1]
            else:
                self._ensure_model()
                k = a.k
                for nm, c in a.c.items():
                    k += c * self.model[nm]
                k = int(k)
                val = True
                ok, _ = self._check((a != k).z() if isinstance(a != k, SymBool) else z3.BoolVal(False))
                if ok:
                    self.stats["forks"] += 1
                    self.alts.append(tuple(self.trace) + (("i", (k, False)),))
            self.trace.append(("i", (k, val)))
            c = a == k
            if isinstance(c, SymBool):
                self._assert(c.z() if val else c.neg().z())
            if val:
                return k
            self.model = None
        raise Unsupported("int() with too many values")

    # -- properties -----------------------------------------------------
    def require(self, cond, label, info=None):
        self.stats["obligations"] += 1
        if isinstance(cond, SymBool):
            key, v = self._lookup(cond)
            if v is True:
                self.stats["syntactic"] += 1
                return
        elif cond is NotImplemented:
            raise Unsupported("comparison of incompatible values in an obligation")
        elif cond:
            self.stats["syntactic"] += 1
            return
        self.obligations.append((cond, label, info))

    def eq(self, a, b):
        return num.eq(a, b)

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def cover(self, label, cond=True):
        if label in self.covered:
            return
        if isinstance(cond, SymBool):
            if ("cov", label) in self.stats["covered"]:
                return
            self._pending_cover = getattr(self, "_pending_cover", []) + [(label, cond)]
            return
        if cond:
            self.covered.add(label)

    def observe(self, key, value):
        self.obs.append((key, value))

    # -- end of path ----------------------------------------------------
    def finish(self):
        """discharge obligations; returns a list of (label, info, values)"""
        for label, cond in getattr(self, "_pending_cover", []):
            if label not in self.covered:
                ok, _ = self._check(cond.z())
                if ok:
                    self.covered.add(label)
        if not self.obligations:
            return []
        neg = [zb(Not(c)) for c, _, _ in self.obligations]
        ok, m = self._check(z3.Or(neg) if len(neg) > 1 else neg[0])
        if not ok:
            return []
        bad = []
        seen = set()
        for (c, label, info), n in zip(self.obligations, neg):
            if label in seen:
                continue
            ok, m = self._check(n)
            if ok:
                seen.add(label)
                vals = self.nice_values(n)
                bad.append((label, info, vals))
                if len(bad) >= 3:
                    break
        return bad

    def nice_values(self, extra=None):
        """concrete inputs for the path, preferably exact in binary floats"""
        self._sync()
        s = self.solver
        out = None
        base = [(n, k) for n, k in self.vars if not n.startswith(("div", "sqrt", "trunc"))]
        for scale, bound in ((1, 24), (1, 4000), (4, 4000), (1024, None), (None, None)):
            s.push()
            try:
                if extra is not None:
                    s.add(extra)
                if scale is not None:
                    for n, kind in base:
                        if kind == "real":
                            a = num.ATOMS[n]
                            s.add(a * scale == z3.ToReal(z3.Int("int!" + n)))
                            if bound:
                                s.add(a <= bound, a >= -bound)
                s.set("timeout", 4000 if scale is not None else QUERY_TIMEOUT_MS)
                t = time.perf_counter()
                r = s.check()
                self.stats["queries"] += 1
                self.stats["solver_s"] += time.perf_counter() - t
                if r == z3.sat:
                    m = s.model()
                    out = {}
                    for n, kind in base:
                        v = m.eval(num.ATOMS[n], model_completion=True)
                        if z3.is_algebraic_value(v):
                            v = v.approx(20)
                        f = Fraction(v.as_fraction())
                        out[n] = [f.numerator, f.denominator]
                    break
            finally:
                s.pop()
                s.set("timeout", QUERY_TIMEOUT_MS)
        return out


def dyadic(v):
    d = v.denominator
    return d & (d - 1) == 0 and d <= 2**20 and abs(v.numerator) < 2**40


class Replay(_Base):
    """the same scenario with ordinary numbers"""

    symbolic = False

    def __init__(self, values, choices):
        self.values = {k: Fraction(v[0], v[1]) for k, v in values.items()}
        self.choice_list = list(choices)
        self.ci = 0
        self.names = {}
        self.failures = []
        self.drawn = []
        self.obs = []
        self.stats = Counter()
        self.obligations = 0

    _name = Path._name

    def real(self, label="x", lo=0, hi=None, strict=False, approx=False):
        v = self.values.get(self._name(label))
        if v is None:
            v = Fraction(lo or 0) + 1
        # a value without an exact binary float stays an exact fraction, so that
        # ties the counterexample depends on are not lost to rounding
        return float(v) if approx or dyadic(v) else v

    def int(self, label="n", lo=0, hi=None):
        v = self.values.get(self._name(label))
        return int(v) if v is not None else (lo or 0)

    def choice(self, n, label="choice"):
        if n <= 0:
            raise IndexError("choice from an empty sequence")
        self._name("?" + label)
        if self.ci < len(self.choice_list):
            v = self.choice_list[self.ci][1]
        else:
            v = 0
        self.ci += 1
        return min(v, n - 1)

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def require(self, cond, label, info=None):
        self.obligations += 1
        if not bool(cond):
            self.failures.append((label, info))

    def eq(self, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if math.isinf(a) or math.isinf(b):
                return a == b
            return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
        return a == b

    def le(self, a, b):
        return a <= b or self.eq(a, b)

    def lt(self, a, b):
        return a < b and not self.eq(a, b)

    def cover(self, label, cond=True):
        pass

    def observe(self, key, value):
        self.obs.append((key, value))


# ----------------------------------------------------------------------
class Scenario:
    def __init__(self, name, fn, covers=(), allow=(), bounds=""):
        self.name, self.fn, self.covers = name, fn, tuple(covers)
        self.allow = allow  # exception types that end a path legitimately
        self.bounds = bounds


class Hang(BaseException):
    """the real code did not return (endless loop without simulated time)"""


HANG_S = {True: 150, False: 40}


def _alarm(*_):
    raise Hang()


def _call(fn, ctx):
    from . import stubs

    import signal

    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S[ctx.symbolic])
    try:
        with stubs.installed(ctx):
            fn(ctx)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/prodsys/" in fr.filename:
            where = f" at {fr.filename.split('/prodsys/', 1)[1]}:{fr.name}"
            break
    return f"{type(e).__name__}: {str(e)[:200]}{where}"


def replay(scn, values, choices):
    ctx = Replay(values, choices)
    saved = num.CUR
    num.CUR = None
    try:
        try:
            _call(scn.fn, ctx)
        except StopPath:
            pass
        except PathAbort:
            ctx.failures = []
            ctx.aborted = True
        except Hang:
            ctx.failures.append(("hang", "the code did not return"))
        except Exception as e:  # the real code raised
            if not (scn.allow and isinstance(e, scn.allow)):
                ctx.failures.append(("exception", describe_exc(e)))
    finally:
        num.CUR = saved
    return ctx


def _obs_close(a, b):
    if a is None:
        return True  # a value the encoding keeps symbolic (a root, say)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if math.isinf(a) or math.isinf(b) or a != a or b != b:
            return a == b or (a != a and b != b)
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-6)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_obs_close(x, y) for x, y in zip(a, b))
    return a == b


def _concretise(v, values, path):
    if isinstance(v, SymReal):
        t = Fraction(v.k)
        for n, c in v.c.items():
            if n in values:
                t += Fraction(c) * Fraction(*values[n])
            elif n in path.defs:
                a, b = (_concretise(x, values, path) for x in path.defs[n])
                if a is None or not b:
                    return None
                t += Fraction(c) * Fraction(a) / Fraction(b)
            else:
                return None
        return float(t)
    if isinstance(v, (list, tuple)):
        return [_concretise(x, values, path) for x in v]
    if isinstance(v, SymBool):
        return None
    return v


def validate_path(scn, p, stats, res, known):
    """run the path's inputs with ordinary numbers and compare

    An input on the edge of a branch may take another path there, because a product of
    floats is rounded; a disagreement counts when other inputs of the path disagree, too.
    """
    extra, told = None, None
    for attempt in range(3):
        num.CUR = p
        vals = p.nice_values(z3.And(*extra[0], *extra[1])) if extra and extra[0] else None
        if vals is None:
            vals = p.nice_values(z3.And(*(z3.Or(*d) for d in extra[2])) if extra else None)
        if vals is None or not all(dyadic(Fraction(*v)) for v in vals.values()):
            break
        if attempt == 0:
            stats["validated"] += 1
        num.CUR = None
        sym_obs = [(k, _concretise(v, vals, p)) for k, v in p.obs]
        r = replay(scn, vals, p.choices)
        bad = [f for f in r.failures if not known({"label": f[0], "info": _txt(f[1])}, scn.name)]
        told = None
        if bad:
            told = "validation run disagrees: obligations fail concretely: " + repr(bad[:2])
        elif not r.failures and not getattr(r, "aborted", False):
            for (k, a), (k2, b) in zip(sym_obs, r.obs):
                if a is None:
                    continue
                if k != k2 or not _obs_close(a, b):
                    told = f"validation run disagrees at {k}/{k2}: {a!r} vs {b!r}"
                    break
            if len(sym_obs) != len(r.obs):
                told = "validation run disagrees: lengths"
            if told is None:
                stats["validated_ok"] += 1
        if told is None:
            return
        other = [num.ATOMS[n] != z3.RealVal(Fraction(*v)) if k == "real" else num.ATOMS[n] != v[0] for n, k in p.vars if (v := vals.get(n))]
        if not other:
            break
        # all inputs differ, or at least one does
        extra = (other, extra[0] + extra[1] if extra else [], (extra[2] if extra else []) + [other])
    res["inconclusive"] = told


def run_path(scn, prefix, stats, validate=False, known=lambda v, s: False):
    """one path; returns (alts, result-dict)"""
    num.ATOMS.clear()
    p = Path(prefix, stats)
    num.CUR = p
    res = {"violations": [], "inconclusive": None, "status": "ok"}
    stats["paths"] += 1
    try:
        exc = None
        hung = False
        try:
            _call(scn.fn, p)
        except StopPath:
            pass
        except Hang:
            hung = True
            res["violations"].append(
                {"label": "hang", "info": "the code did not return", "values": p.nice_values(), "choices": p.choices}
            )
        except Unsupported as e:
            res["inconclusive"] = f"unsupported operation: {e} :: " + "".join(
                traceback.format_tb(e.__traceback__)[-3:]
            )
        except Exception as e:
            if scn.allow and isinstance(e, scn.allow):
                pass
            else:
                exc = e
        if exc is not None and res["inconclusive"] is None:
            cause = exc
            while cause is not None:
                if isinstance(cause, Unsupported):
                    res["inconclusive"] = f"unsupported operation: {cause}" + "".join(
                        traceback.format_tb(cause.__traceback__)[-3:])
                    break
                cause = cause.__cause__ or cause.__context__
            else:
                d = describe_exc(exc)
                res["violations"].append(
                    {
                        "label": "exception",
                        "info": d,
                        "values": p.nice_values(),
                        "choices": p.choices,
                    }
                )
                res["tb"] = "".join(traceback.format_tb(exc.__traceback__)[-6:])
        if res["inconclusive"] is None and not hung:
            for label, info, vals in p.finish():
                res["violations"].append(
                    {"label": label, "info": _txt(info), "values": vals, "choices": p.choices}
                )
            if validate and not res["violations"]:
                validate_path(scn, p, stats, res, known)
        stats["max_depth"] = max(stats["max_depth"], len(p.trace))
        if not p.vars and not p.choices:
            pass
        res["covered"] = p.covered
        res["sample"] = None
    except PathAbort:
        stats["pruned"] += 1
        res["status"] = "pruned"
        res["covered"] = set()
    except Inconclusive as e:
        res["inconclusive"] = str(e)
        res["covered"] = set()
    finally:
        num.CUR = None
    res["path"] = p
    return p.alts, res


def _reproduces(scn, v):
    if v["label"] == "hang":
        return True
    try:
        return bool(replay(scn, v["values"], v["choices"]).failures)
    except Exception:
        return False


def _txt(x):
    try:
        return x if isinstance(x, str) else repr(x)
    except Exception:
        return "?"


def new_stats():
    c = Counter()
    c["covered"] = set()
    c["solver_s"] = 0.0
    c["max_depth"] = 0
    return c


def _worker(wid, scenarios, q, out, pending, stop, nworkers, deadline, validate_every, functions, known):
    from . import trace

    trace.start()
    stats = new_stats()
    stats.pop("covered")
    st = Counter(stats)
    st["solver_s"] = 0.0
    st["covered"] = set()
    covered = {}
    per = Counter()
    samples = []
    rng = _random.Random(wid * 7919 + int(os.environ.get("VERIF_SEED", "1")))
    paths_since = 0
    tried = {}
    try:
        while not stop.is_set():
            try:
                si, prefix = q.get(timeout=0.2)
            except queue_mod.Empty:
                with pending.get_lock():
                    if pending.value == 0:
                        break
                continue
            stack = [prefix]
            while stack:
                if stop.is_set():
                    break
                if time.time() > deadline:
                    out.put(("inconclusive", si, "time budget exhausted before all paths were explored"))
                    stop.set()
                    break
                pre = stack.pop()
                scn = scenarios[si]
                do_val = rng.random() < validate_every or per[si] < 1
                alts, res = run_path(scn, pre, st, do_val, known)
                per[si] += 1
                stack.extend(alts)
                covered.setdefault(si, set()).update(res["covered"])
                p = res["path"]
                if len(samples) < 2 and res["status"] == "ok" and per[si] <= 1:
                    samples.append(
                        {
                            "scenario": scn.name,
                            "path_condition": [str(c)[:160] for c in p.pc[:12]],
                            "choices": [list(c) for c in p.choices[:12]],
                            "decisions": len(p.trace),
                        }
                    )
                if res["inconclusive"]:
                    # no verdict on this path; others may still show a violation
                    out.put(("inconclusive", si, res["inconclusive"]))
                    tried["?"] = tried.get("?", 0) + 1
                    if tried["?"] > 20:
                        stop.set()
                        break
                for v in res["violations"]:
                    n = tried.get((si, v["label"]), 0)
                    tried[si, v["label"]] = n + 1
                    # a counterexample within rounding does not show on the real
                    # numbers: the search for one that does goes on
                    v["reproduced"] = n < 40 and v["values"] is not None and _reproduces(scn, v)
                    out.put(("violation", si, v, res.get("tb")))
                # donate work
                if len(stack) > 1 and q.qsize() < nworkers:
                    give = stack[: max(1, len(stack) // 2)]
                    del stack[: len(give)]
                    with pending.get_lock():
                        pending.value += len(give)
                    for g in give:
                        q.put((si, g))
            with pending.get_lock():
                pending.value -= 1
    except BaseException as e:  # noqa
        out.put(("inconclusive", -1, "worker died: " + "".join(traceback.format_exception(e))[-1500:]))
        stop.set()
    st.pop("covered", None)
    out.put(("done", wid, dict(st), {k: sorted(v) for k, v in covered.items()}, dict(per), samples, sorted(trace.functions())))


def explore(scenarios, jobs=None, budget_s=840, validate_rate=0.01, stop_on_violation=True, known=lambda v, s: False):
    """explore every scenario to exhaustion; returns a result dict.

    known: predicate(violation dict, scenario name) -> bool for listed findings
    """
    from . import trace

    jobs = jobs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    mpc = mp.get_context("fork")
    q = mpc.Queue()
    out = mpc.Queue()
    pending = mpc.Value("i", len(scenarios))
    stop = mpc.Event()
    for i in range(len(scenarios)):
        q.put((i, ()))
    ws = []
    for w in range(jobs):
        pr = mpc.Process(
            target=_worker,
            args=(w, scenarios, q, out, pending, stop, jobs, t0 + budget_s, validate_rate, None, known),
            daemon=True,
        )
        pr.start()
        ws.append(pr)
    done = 0
    viols, incon = [], []
    stats = Counter()
    covered = {i: set() for i in range(len(scenarios))}
    per = Counter()
    samples, funcs = [], set()
    nviol = nfirst = 0
    while done < jobs:
        try:
            msg = out.get(timeout=1.0)
        except queue_mod.Empty:
            if not any(w.is_alive() for w in ws):
                try:
                    msg = out.get(timeout=0.5)
                except queue_mod.Empty:
                    if done < jobs:
                        incon.append((-1, "a worker process ended without reporting (killed?)"))
                    break
            else:
                if time.time() > t0 + budget_s + 60:
                    incon.append((-1, "time budget exhausted (a path did not return)"))
                    stop.set()
                    for w in ws:
                        w.terminate()
                    break
                continue
        if msg[0] == "violation":
            nviol += 1
            if msg[2].get("reproduced"):
                viols.insert(nfirst, (msg[1], msg[2], msg[3]))
                nfirst += 1
                del viols[400:]
            elif len(viols) < 400:
                viols.append((msg[1], msg[2], msg[3]))
            if stop_on_violation and msg[2].get("reproduced") and not known(msg[2], scenarios[msg[1]].name):
                stop.set()
        elif msg[0] == "inconclusive":
            incon.append((msg[1], msg[2]))
        elif msg[0] == "done":
            done += 1
            md = msg[2].pop("max_depth", 0)
            stats.update(msg[2])
            stats["max_depth"] = max(stats["max_depth"], md)
            for k, v in msg[3].items():
                covered[k].update(v)
            per.update(msg[4])
            samples += msg[5]
            funcs.update(msg[6])
    q.cancel_join_thread()
    out.cancel_join_thread()
    for w in ws:
        w.join(timeout=5)
        if w.is_alive():
            w.terminate()
    return {
        "stats": stats,
        "violations": viols,
        "n_violations": nviol,
        "inconclusive": incon,
        "covered": covered,
        "per": per,
        "samples": samples,
        "functions": sorted(funcs),
        "wall": time.time() - t0,
    }
