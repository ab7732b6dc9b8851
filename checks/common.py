"""Shared pieces of the harnesses."""
import itertools
import math
from fractions import Fraction

import numpy as np

from engine import sym, shims, claims as C, poly as P
from engine.sym import S
from engine.check import Scenario, Violation, Undecided
from engine.control import Raised

PC = "boson_sampling_utilities.permanent_calculators."
CALCS = {
    "classic": (PC + "classic_permanent_calculator", "ClassicPermanentCalculator"),
    "glynn": (PC + "glynn_gray_permanent_calculator", "GlynnGrayPermanentCalculator"),
    "chinhuh": (PC + "chin_huh_permanent_calculator", "ChinHuhPermanentCalculator"),
    "ryser": (PC + "ryser_permanent_calculator", "RyserPermanentCalculator"),
}
SUBCALCS = {
    "sub_ryser": (PC + "bs_cc_ryser_submatrices_permanent_calculator", "BSCCRyserSubmatricesPermanentCalculator"),
    "sub_ch": (PC + "bs_cc_ch_submatrices_permanent_calculator", "BSCCCHSubmatricesPermanentCalculator"),
}
UTIL = "boson_sampling_utilities.boson_sampling_utilities"
QCU = "quantum_computations_utilities"


def cls_of(prog, name):
    mod, c = (CALCS.get(name) or SUBCALCS[name])
    return getattr(prog[mod], c)


def arr(rows):
    """array as user code would hand it in"""
    return shims._build([[S.of(x) for x in r] for r in rows])


def weak(m, n):
    """rotations by angles of about 2/n between neighbouring modes, rational entries"""
    n = Fraction(n)
    co, si = (n * n - 1) / (n * n + 1), 2 * n / (n * n + 1)
    out = [[Fraction(int(i == j)) for j in range(m)] for i in range(m)]
    for a in range(m - 1):
        for r in out:
            r[a], r[a + 1] = co * r[a] + si * r[a + 1], co * r[a + 1] - si * r[a]
    return arr(out)


def generic_matrix(W, m, name="M", zeros=()):
    """m x m matrix of unconstrained complex atoms (zeros: positions fixed to 0); zeros = "line": complex rationals and one
    symbolic number; zeros = "small<N>": weak couplings, concrete rational entries"""
    if isinstance(zeros, str):
        if zeros.startswith("small"):
            return weak(m, int(zeros[5:]))
        x = W.real(f"{name}x")
        k = sum(map(ord, name))
        num = lambda i, j, a, b: Fraction((a * i + b * j + i * j + k) % 7 - 3, 1 + (i + 2 * j) % 3)
        return arr([[S.c(num(i, j, 2, 3)) + S.c(num(i, j, 4, 1)) * S.I() + (x if i == j == 0 else 0) for j in range(m)] for i in range(m)])
    return arr([[S.c(0) if (i, j) in zeros else W.cplx(f"{name}{i}{j}") for j in range(m)] for i in range(m)])


def state(s, how):
    if how == "array":
        return shims._build(list(s))
    return tuple(s) if how == "tuple" else list(s)


def plain(v):
    """a returned state as a tuple of ints; raises ValueError if entries are not whole numbers"""
    out = []
    for x in (list(v) if not isinstance(v, np.ndarray) else list(np.asarray(v).reshape(-1))):
        if isinstance(x, S):
            if not x.is_const() or Fraction(x.const()).denominator != 1:
                raise ValueError("not a whole number: %r" % (x,))
            x = int(x.const())
        out.append(int(x))
    return tuple(out)


def occupations(m, n):
    return C.states(n, m)


def same_matrix(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and all(S.of(x).key() == S.of(y).key() for x, y in zip(a.reshape(-1), b.reshape(-1)))


def leaves_of(regs):
    """(region, leaf) pairs, with claims made in the region's context"""
    for r in regs:
        with C.within(r):
            for lf in r.leaves:
                yield r, lf


def witness(r=None):
    """a point of the region (or of the world): the one at which the last claim failed, if any"""
    if r is None:
        return C.points(1, base=4 + getattr(sym, "SALT", 0))[0]
    if isinstance(r, list):
        return r
    if getattr(sym.W, "bad_point", None) is not None:
        return sym.W.bad_point
    pts = C.region_points(r, 1)
    if not pts:
        raise Undecided("no numeric witness found in a parameter region")
    return pts[0]


DC = "distribution_calculators."
FIXED = (DC + "bs_distribution_calculator_with_fixed_losses", "BSDistributionCalculatorWithFixedLosses")
UNIFORM = (DC + "bs_exact_distribution_with_uniform_losses", "BSDistributionCalculatorWithUniformLosses")
IFACE = DC + "bs_distribution_calculator_interface"


def config(prog, M, s, left=None, eta=1, **k):
    """experiment configuration; k overrides fields"""
    n = sum(s)
    left = n if left is None else left
    f = dict(interferometer_matrix=M, initial_state=list(s), initial_number_of_particles=n, number_of_modes=len(s),
             number_of_particles_lost=n - left, number_of_particles_left=left, uniform_transmissivity=eta)
    f.update(k)
    return prog[IFACE].BosonSamplingExperimentConfiguration(**f)


def new_calc(prog, calc, M=None):
    """a permanent calculator as handed to calculators and strategies"""
    c = cls_of(prog, calc)
    return c(M, None, None)


def klass(prog, pair):
    return getattr(prog[pair[0]], pair[1])


def preludes(M, N, s, left, eta, eta2):
    """other experiments of the same program: (matrix, input, left, eta)"""
    n = sum(s)
    out = [(N, s, left, eta), (M, s[::-1], left, eta), (M, s, left, eta2)]
    if left != n:
        out.append((M, s, n, eta))
    elif n:
        out.append((M, s, n - 1, eta))
    return [o for i, o in enumerate(out) if i != 1 or s != s[::-1]]


def run_preludes(prog, pair, calc, pres):
    for N, s, left, eta in pres:
        N = copy_matrix(N)
        d = klass(prog, pair)(config(prog, N, s, left, eta), new_calc(prog, calc, N))
        d.calculate_distribution()
        d.calculate_probabilities_of_outcomes(d.get_outcomes_in_proper_order())


def numeric_preludes(pres, pt):
    return [{"matrix": C.numeric(N, pt), "input": s, "left": left, "eta": C.value(S.of(eta), pt).real} for N, s, left, eta in pres]


def copy_matrix(M):
    return np.array(M, dtype=object).view(shims.Arr)


def snapshot(cfg):
    """comparable picture of a configuration"""
    out = {}
    for k, v in vars(cfg).items():
        if isinstance(v, np.ndarray):
            out[k] = ("array", v.shape, tuple(S.of(x).key() for x in v.reshape(-1)))
        elif isinstance(v, (list, tuple)):
            out[k] = ("seq", type(v).__name__, tuple(S.of(x).key() if isinstance(x, (int, S, np.integer)) else repr(x) for x in v))
        elif isinstance(v, S):
            out[k] = v.key()
        else:
            out[k] = v if isinstance(v, (int, type(None))) else id(v)
    return out


_LAWS = {}


def cached_law(key, f):
    if key not in _LAWS:
        _LAWS[key] = f()
    return _LAWS[key]
