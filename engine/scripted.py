"""Exact laws of the real (floating point) code: every random draw becomes a branch point.

Installed before theboss is imported: numpy.random's and random's functions dispatch to the script when
one is active and to the originals otherwise.  A uniform draw is an object that splits its interval when
it is compared; exp(2 pi i k u) turns it into a point of a grid (exact for trigonometric polynomials of
degree below the grid size)."""
import cmath
import itertools
import math
import random as pyrandom

import numpy as np


class Fallback(BaseException):
    """the code uses randomness in a way the script does not follow"""


class Cut(BaseException):
    pass


EPS = 1e-11


class Script:
    def __init__(self, grid):
        self.grid = grid
        self.prefix = []
        self.max_leaves = 400000

    def start(self):
        self.pos = 0
        self.alts = []
        self.weight = 1.0
        self.us = []

    def branch(self, ws):
        """index with weights ws (floats, positive)"""
        if self.pos == len(self.prefix):
            self.prefix.append(0)
        k = self.prefix[self.pos]
        self.alts.append(len(ws))
        self.pos += 1
        self.weight *= ws[k]
        return k

    def law(self, fn, key, deadline=None):
        """{key(result): probability} over all decisions"""
        import time
        out = {}
        self.prefix = []
        leaves = 0
        while True:
            self.start()
            v = fn()
            k = key(v)
            out[k] = out.get(k, 0.0) + self.weight
            leaves += 1
            if leaves > self.max_leaves or (deadline and time.time() > deadline):
                raise Fallback("too many paths")
            del self.prefix[self.pos:]
            i = self.pos - 1
            while i >= 0 and self.prefix[i] + 1 >= self.alts[i]:
                i -= 1
            if i < 0:
                return out
            del self.prefix[i + 1:]
            self.prefix[i] += 1


ACTIVE = None


NODES = [v.tolist() for v in np.polynomial.legendre.leggauss(14)]


class Draw:
    """a uniform draw and what is known about it"""

    def __init__(self):
        self.lo, self.hi = 0.0, 1.0
        self.grid = None
        self.gauss = False

    def below(self, c):
        if self.grid is not None:
            return self.grid < c
        if c <= self.lo + EPS:
            return False
        if c >= self.hi - EPS:
            return True
        w = self.hi - self.lo
        k = ACTIVE.branch([(c - self.lo) / w, (self.hi - c) / w])
        if k == 0:
            self.hi = c
            return True
        self.lo = c
        return False


class U:
    """alpha * draw + beta"""
    __slots__ = ("d", "a", "b")

    def __init__(self, d, a=1.0, b=0.0):
        self.d, self.a, self.b = d, a, b

    @staticmethod
    def _num(o):
        if isinstance(o, (int, float, complex, np.number)):
            return o.item() if isinstance(o, np.number) else o
        if isinstance(o, np.ndarray) and o.shape == ():
            return o.item()
        return None

    def __mul__(self, o):
        o = self._num(o)
        return NotImplemented if o is None else U(self.d, self.a * o, self.b * o)

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, U) and o.d is self.d:
            return U(self.d, self.a + o.a, self.b + o.b)
        o = self._num(o)
        return NotImplemented if o is None else U(self.d, self.a, self.b + o)

    __radd__ = __add__

    def __neg__(self):
        return U(self.d, -self.a, -self.b)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, U) and o.d is self.d:
            return U(self.d, self.a - o.a, self.b - o.b)
        o = self._num(o)
        return NotImplemented if o is None else U(self.d, self.a, self.b - o)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __truediv__(self, o):
        o = self._num(o)
        return NotImplemented if o is None else U(self.d, self.a / o, self.b / o)

    def _less(self, o):
        """self < o  (ties have probability zero)"""
        if isinstance(o, U):
            raise Fallback("comparison of draws")
        o = self._num(o)
        if o is None:
            raise Fallback("comparison")
        a, b = complex(self.a), complex(self.b)
        o = complex(o)
        if abs(a.imag) + abs(b.imag) + abs(o.imag) > 1e-9:
            raise TypeError("ordering of complex numbers")
        a, b, o = a.real, b.real, o.real
        if a == 0:
            return b < o
        c = (o - b) / a
        return self.d.below(c) if a > 0 else not self.d.below(c)

    def __lt__(self, o):
        return self._less(o)

    __le__ = __lt__

    def __gt__(self, o):
        return not self._less(o)

    __ge__ = __gt__

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = object.__hash__

    def _pos(self):
        d = self.d
        if d.grid is None:
            if (d.lo, d.hi) != (0.0, 1.0):
                raise Fallback("phase of a conditioned draw")
            K = ACTIVE.grid
            d.grid = ACTIVE.branch([1.0 / K] * K) / K
        return d.grid

    def _node(self, f):
        """a node of Gauss' rule for a phase that is no whole number of turns"""
        d = self.d
        if d.grid is None:
            if (d.lo, d.hi) != (0.0, 1.0) or abs(f) > 3:
                raise Fallback("exponential of a draw")
            x, w = NODES
            k = ACTIVE.branch([v / 2 for v in w])
            d.grid = (x[k] + 1) / 2
            d.gauss = True
        elif not d.gauss:
            raise Fallback("exponential of a draw")

    def exp(self):
        a = complex(self.a)
        t = a.imag / (2 * math.pi)
        if abs(a.real) > 1e-12:
            raise Fallback("exponential of a draw")
        if abs(t - round(t)) > 1e-9:
            self._node(t)
        return cmath.exp(self.a * self._pos() + self.b)

    def _trig(self, f):
        t = complex(self.a).real / (2 * math.pi)
        if abs(t - round(t)) > 1e-9:
            self._node(t)
        return f((self.a * self._pos() + self.b).real)

    def cos(self):
        return self._trig(math.cos)

    def sin(self):
        return self._trig(math.sin)

    def conjugate(self):
        return U(self.d, complex(self.a).conjugate(), complex(self.b).conjugate())

    def _no(self, *a, **k):
        raise Fallback("number of a draw")

    __float__ = __complex__ = __int__ = __index__ = __floor__ = __round__ = __abs__ = __pow__ = __bool__ = __rtruediv__ = _no
    __deepcopy__ = lambda self, memo: self
    __copy__ = lambda self: self


def u1():
    return U(Draw())


def many(size, f):
    if size is None:
        return f()
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    out = np.empty(shape, dtype=object)
    fl = out.reshape(-1)
    for i in range(fl.size):
        fl[i] = f()
    if fl.size and all(isinstance(x, (int, np.integer)) for x in fl):
        return out.astype(int)
    return out


def index(n):
    return 0 if n == 1 else ACTIVE.branch([1.0 / n] * n)


def s_random(size=None):
    return many(size, u1)


def s_rand(*shape):
    return many(shape if shape else None, u1)


def s_uniform(low=0.0, high=1.0, size=None):
    return many(size, lambda: u1() * (high - low) + low)


def s_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if high <= low:
        raise ValueError("low >= high")
    return many(size, lambda: int(low) + index(int(high - low)))


def weighted(ps):
    live = [i for i, p in enumerate(ps) if p > 1e-15]
    if len(live) == 1:
        return live[0]
    return live[ACTIVE.branch([ps[i] for i in live])]


def s_choice(a, size=None, replace=True, p=None):
    vals = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
    if not vals:
        raise ValueError("'a' cannot be empty unless no samples are taken")

    def one():
        if p is None:
            return vals[index(len(vals))]
        ps = [float(x) for x in np.asarray(p, dtype=float)]
        if len(ps) != len(vals):
            raise ValueError("'a' and 'p' must have same size")
        if any(x != x for x in ps):
            raise ValueError("probabilities contain NaN")
        if any(x < 0 for x in ps):
            raise ValueError("probabilities are not non-negative")
        if abs(sum(ps) - 1) > 1.5e-8:
            raise ValueError("probabilities do not sum to 1")
        return vals[weighted(ps)]
    if size is None:
        return one()
    if not replace:
        if p is not None:
            raise Fallback("choice without replacement")
        pool = list(vals)
        return np.array([pool.pop(index(len(pool))) for _ in range(int(np.prod(size)))]).reshape(size)
    return np.array([one() for _ in range(int(np.prod(size)))]).reshape(size)


def s_shuffle(x):
    for i in range(len(x) - 1, 0, -1):
        j = index(i + 1)
        if isinstance(x, np.ndarray) and x.ndim > 1:
            x[[i, j]] = x[[j, i]]
        else:
            x[i], x[j] = x[j], x[i]


def s_permutation(x):
    a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
    s_shuffle(a)
    return a


def s_binomial(n, p, size=None):
    n, p = int(n), float(p)
    return many(size, lambda: weighted([math.comb(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1)]))


def p_choices(population, weights=None, cum_weights=None, k=1):
    pop = list(population)
    if cum_weights is not None:
        weights = [cum_weights[0]] + [cum_weights[i] - cum_weights[i - 1] for i in range(1, len(cum_weights))]
    if weights is None:
        return [pop[index(len(pop))] for _ in range(k)]
    t = float(sum(weights))
    return [pop[weighted([float(w) / t for w in weights])] for _ in range(k)]


def p_sample(population, k):
    pop = list(population)
    return [pop.pop(index(len(pop))) for _ in range(k)]


def unsupported(name):
    def f(*a, **k):
        raise Fallback(name)
    return f


def dispatch(orig, scripted):
    def f(*a, **k):
        if ACTIVE is None:
            return orig(*a, **k)
        return scripted(*a, **k)
    return f


class _Gen:
    def __init__(self, seed):
        self._seed, self._real = seed, None

    def __getattr__(self, name):
        table = {"random": s_random, "uniform": s_uniform, "choice": s_choice, "shuffle": s_shuffle, "permutation": s_permutation,
                 "binomial": s_binomial, "rand": s_rand, "random_sample": s_random, "randint": s_randint,
                 "integers": lambda low, high=None, size=None, endpoint=False, **k: s_randint(
                     *((low, high + bool(endpoint)) if high is not None else (0, low + bool(endpoint))), size=size)}
        if ACTIVE is not None:
            if self._seed is not None or name not in table:
                raise Fallback("generator " + name)
            return table[name]
        if self._real is None:
            self._real = _orig_rng(self._seed)
        return getattr(self._real, name)


_orig_rng = np.random.default_rng
INSTALLED = False


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    r = np.random
    for name, f in {"random": s_random, "random_sample": s_random, "ranf": s_random, "sample": s_random, "rand": s_rand,
                    "uniform": s_uniform, "randint": s_randint, "choice": s_choice, "shuffle": s_shuffle,
                    "permutation": s_permutation, "binomial": s_binomial}.items():
        setattr(r, name, dispatch(getattr(r, name), f))
    for name in ("normal", "randn", "standard_normal", "multinomial", "exponential", "poisson", "gamma", "beta", "seed", "get_state",
                 "set_state", "random_integers", "dirichlet"):
        if hasattr(r, name):
            setattr(r, name, dispatch(getattr(r, name), unsupported(name)))
    r.default_rng = lambda seed=None: _Gen(seed)
    p = pyrandom
    for name, f in {"random": lambda: u1(), "uniform": s_uniform, "randint": lambda a, b: a + index(b - a + 1),
                    "randrange": lambda a, b=None, step=1: (range(a) if b is None else range(a, b, step))[
                        index(len(range(a) if b is None else range(a, b, step)))],
                    "choice": lambda s: s[index(len(s))], "choices": p_choices, "sample": p_sample, "shuffle": s_shuffle}.items():
        setattr(p, name, dispatch(getattr(p, name), f))
    for name in ("gauss", "normalvariate", "betavariate", "triangular", "getrandbits", "seed"):
        setattr(p, name, dispatch(getattr(p, name), unsupported(name)))


def exact_law(fn, key, grid, deadline=None):
    global ACTIVE
    s = Script(grid)
    ACTIVE = s
    try:
        return s.law(fn, key, deadline)
    finally:
        ACTIVE = None
