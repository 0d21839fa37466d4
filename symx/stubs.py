"""Environment stubs: every random draw becomes a symbolic choice/value.

Installed around one execution of a scenario, in symbolic and in replay mode.
Contract: an element choice may return any element with non-zero probability, a
uniform draw any value in its range, a positive distribution any value >= 0, a
normal any real.  The drawn object itself is what the code receives.
"""
from __future__ import annotations

import contextlib
import random
import sys
import uuid
from fractions import Fraction

import numpy as np

from .num import SymReal


def _seq(ctx, seq):
    return seq if hasattr(seq, "__getitem__") and hasattr(seq, "__len__") else list(seq)


class _Stubs:
    def __init__(self, ctx):
        self.ctx = ctx

    # ---- random
    def choice(self, seq):
        seq = _seq(self.ctx, seq)
        return seq[self.ctx.choice(len(seq), "rnd")]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        idx = list(range(len(pop)))
        if weights is not None:
            idx = [i for i in idx if weights[i] > 0]
        return [pop[idx[self.ctx.choice(len(idx), "rnd")]] for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        pop = list(population)
        if k < 0 or k > len(pop):
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(pop.pop(self.ctx.choice(len(pop), "rnd")))
        return out

    def shuffle(self, x):
        n = len(x)
        for i in range(n - 1):
            j = i + self.ctx.choice(n - i, "rnd")
            x[i], x[j] = x[j], x[i]

    def randint(self, a, b):
        return a + self.ctx.choice(b - a + 1, "rnd")

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.ctx.choice(len(r), "rnd")]

    def random(self):
        return self.ctx.real("u", 0, 1)

    def uniform(self, a, b):
        v = self.ctx.real("u", 0, 1)
        return a + (b - a) * v

    # ---- numpy
    def np_choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            a = list(range(int(a)))
        a = list(a)
        idx = list(range(len(a)))
        if p is not None:
            p = list(p)
            idx = [i for i in idx if p[i] > 0]
        if size is None:
            v = a[idx[self.ctx.choice(len(idx), "rnd")]]
            self.ctx.drawn.append((list(a), v))
            return v
        n = int(np.prod(size)) if not isinstance(size, int) else size
        out = []
        for _ in range(n):
            k = self.ctx.choice(len(idx), "rnd")
            out.append(a[idx[k]])
            if not replace:
                idx.pop(k)
        r = np.empty(n, dtype=object)
        for i, v in enumerate(out):
            r[i] = v
        return r

    def _np_draw(self, size, lo):
        if size is None:
            return self.ctx.real("draw", lo, None)
        n = int(np.prod(size)) if not isinstance(size, int) else size
        n = min(n, MAX_BATCH)
        return ObjArray([self.ctx.real("draw", lo, None) for _ in range(n)])

    def np_exponential(self, scale=1.0, size=None):
        return self._np_draw(size, 0)

    def np_lognormal(self, mean=0.0, sigma=1.0, size=None):
        return self._np_draw(size, 0)

    def np_normal(self, loc=0.0, scale=1.0, size=None):
        return self._np_draw(size, None)

    def np_uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            return self.uniform(low, high)
        n = min(int(np.prod(size)), MAX_BATCH)
        return ObjArray([self.uniform(low, high) for _ in range(n)])

    def np_random(self, size=None):
        if size is None:
            return self.random()
        return ObjArray([self.random() for _ in range(min(int(np.prod(size)), MAX_BATCH))])

    def np_rand(self, *d):
        return self.np_random(d or None)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + self.ctx.choice(high - low, "rnd")
        return [low + self.ctx.choice(high - low, "rnd") for _ in range(int(np.prod(size)))]

    def np_shuffle(self, x):
        self.shuffle(x)

    def uuid1(self, *a):
        """contract: an identifier never seen before"""
        self.uuids += 1
        return f"uuid-{self.uuids}"

    def np_permutation(self, x):
        x = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        self.shuffle(x)
        return x


MAX_BATCH = 4


class ObjArray(list):
    """what a numpy sampler returns (only .tolist() and iteration are used)"""

    def tolist(self):
        return list(self)


PATCHES = [
    (random, "choice", "choice"),
    (random, "choices", "choices"),
    (random, "sample", "sample"),
    (random, "shuffle", "shuffle"),
    (random, "randint", "randint"),
    (random, "randrange", "randrange"),
    (random, "random", "random"),
    (random, "uniform", "uniform"),
    (np.random, "choice", "np_choice"),
    (np.random, "exponential", "np_exponential"),
    (np.random, "lognormal", "np_lognormal"),
    (np.random, "normal", "np_normal"),
    (np.random, "uniform", "np_uniform"),
    (np.random, "random", "np_random"),
    (np.random, "rand", "np_rand"),
    (np.random, "randint", "np_randint"),
    (np.random, "shuffle", "np_shuffle"),
    (np.random, "permutation", "np_permutation"),
]

for _f in ("uuid1", "uuid4"):
    PATCHES.append((uuid, _f, "uuid1"))

_real_norm = np.linalg.norm


def _norm(x, *a, **k):
    if getattr(x, "dtype", None) == object and not a and not k:
        t = 0
        for v in np.asarray(x).ravel():
            t = t + v * v
        if hasattr(t, "sqrt"):
            return t.sqrt()
        return float(t) ** 0.5
    return _real_norm(x, *a, **k)


_real_sqrt = np.sqrt


def _sqrt(x, *a, **k):
    if isinstance(x, SymReal) and not a and not k:
        return x.sqrt()
    if isinstance(x, Fraction):
        return _real_sqrt(float(x))
    return _real_sqrt(x, *a, **k)


class _ListSet(list):
    """set of tuples compared by value (symbolic costs cannot be hashed)"""

    def add(self, x):
        self.append(x)


def _heap_set():
    try:
        from pathfinding.core import heap
    except ImportError:
        return
    init = heap.SimpleHeap.__init__

    def __init__(self, node, grid):
        init(self, node, grid)
        self.removed_node_tuples = _ListSet()

    heap.SimpleHeap.__init__ = __init__


_heap_set()
_originals = {}
for _m, _n, _meth in PATCHES:
    _originals[id(getattr(_m, _n))] = (getattr(_m, _n), _meth)
_direct = None  # names imported straight into the code under test


def _scan():
    """names bound in prodsys modules to a random function (from x import y)"""
    global _direct
    _direct = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("prodsys"):
            continue
        for n, v in list(vars(mod).items()):
            if callable(v) and id(v) in _originals and _originals[id(v)][0] is v:
                _direct.append((mod, n, _originals[id(v)][1]))
            elif getattr(v, "__self__", None) is not None and getattr(v, "__name__", None) in _bound:
                if type(v.__self__) in (random.Random, np.random.RandomState):
                    _direct.append((mod, n, _bound[v.__name__]))


_bound = {n: meth for _, n, meth in PATCHES}


@contextlib.contextmanager
def installed(ctx):
    if _direct is None:
        _scan()
    s = _Stubs(ctx)
    s.uuids = 0
    targets = PATCHES + _direct
    saved = [(m, n, getattr(m, n)) for m, n, _ in targets]
    for m, n, meth in targets:
        setattr(m, n, getattr(s, meth))
    np.linalg.norm = _norm
    np.sqrt = _sqrt
    try:
        yield s
    finally:
        for m, n, f in saved:
            setattr(m, n, f)
        np.linalg.norm = _real_norm
        np.sqrt = _real_sqrt
