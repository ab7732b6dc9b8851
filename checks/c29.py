"""C29: the suggested sample count is the smallest that meets the error bound."""
import z3

from engine.control import run_solver, Z3Bridge
from .common import *

ASSUMPTIONS = ["number of outcomes, error probability and distance are symbolic reals in the stated ranges; logarithms are atoms with the "
               "numeric enclosure of ln 2 and the sign facts of ln p",
               "the ratio of logarithms and rationals that is rounded is never a whole number (Lindemann-Weierstrass)"]


def setup(ctx, kbounds):
    W = ctx.world(5)
    k = W.real("k", *kbounds) if kbounds[0] != kbounds[1] else S.c(kbounds[0])
    p = W.real("p", 0, 1, strict=True)
    d = W.real("d", 0, None, strict=True)
    return W, k, p, d


def integral(v):
    """z3-free structural fact: an integer combination of floors and integers"""
    v = S.of(v)
    if v.d:
        return False
    for m, c in v.n.items():
        if Fraction(c).denominator != 1:
            return False
        for i, e in P.exps(m):
            a = sym.W.atoms[i]
            if not (a.kind == "fn" and a.data[0] == "floor"):
                return False
    return True


def decide(ctx, v, strict, kind):
    """z3: v > 0 (>= 0) for all parameters; None, or a model as dict"""
    ctx.claims += 1
    v = S.of(v)
    num = sym.W.control._num_den_sign(v)
    br = Z3Bridge()
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(br.axioms_for(P.atom_indices(num)))
    e = br.poly(num)
    s.add(e <= 0 if strict else e < 0)
    r = run_solver(s, kind)
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        raise Undecided("z3 unknown")
    return s.model()


def samples(ctx, kb):
    W, k, p, d = setup(ctx, kb)

    def run():
        q = ctx.program()[QCU]
        return q.compute_minimal_number_of_samples_for_desired_accuracy(k, p, d)
    pl = {"kind": "sample_bound", "what": "samples", "ks": [max(1, kb[0]), 2, 7, 100, 12345]}
    ctx.validate(pl)
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(repr(lf.value), pl)
        N = S.of(lf.value)
        ctx.claims += 1
        if not integral(N):
            raise Violation(f"not a whole number: {N!r}", pl)
        L = k * S.c(2).log() - p.log()
        for a in list(sym.W.atoms):
            # rounding of a transcendental number is strict
            if a.kind == "fn" and a.data[0] == "floor":
                arg = a.data[1]
                if any(sym.W.atoms[i].kind == "fn" and sym.W.atoms[i].data[0] == "log" for i in P.atom_indices(arg.n)):
                    W.control._add_fact(arg - S.from_atom(a), ">")
        if decide(ctx, S.c(2) * N * d * d - L, True, "bound met") is not None:
            raise Violation("the suggested number does not meet the bound", pl)
        if decide(ctx, L - S.c(2) * (N - 1) * d * d, False, "minimal") is not None:
            raise Violation("one sample fewer would do", pl)
        ctx.sample(f"N = {N!r}")


def bound(ctx, kb):
    W, k, p, d = setup(ctx, kb)
    N, M = W.real("N", 1), W.real("M", 1)

    def run():
        q = ctx.program()[QCU]
        return q.count_tv_distance_error_bound_of_experiment_results(k, N, p), \
            q.count_tv_distance_error_bound_of_experiment_results(k, M, p)
    pl = {"kind": "sample_bound", "what": "bound", "ks": [max(1, kb[0]), 2, 7, 100, 12345]}
    ctx.validate(pl)
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(repr(lf.value), pl)
        b, b2 = lf.value
        L = k * S.c(2).log() - p.log()
        b = S.of(b)
        if not (C.claim_equal(ctx, b * b * 2 * N, L) and C.claim_equal(ctx, S.of(b2) * b2 * 2 * M, L) and C.claim_nonneg(ctx, b)):
            raise Violation(f"bound {b!r}", pl)
        # b(N)^2 - b(M)^2 has the sign of M - N
        D = (b * b - S.of(b2) * b2) * (M - N)
        if decide(ctx, D, False, "decreasing") is not None:
            raise Violation("not decreasing in the number of samples", pl)
        ctx.sample(f"bound = {b!r}")


def scenarios(tier):
    out = []
    for kb in [(1, None), (1, 1), (2, 2), (1000, None)]:
        out.append(Scenario(f"samples k in {kb}", samples, (kb,), bounds=f"outcomes in {kb}, 0<p<1, d>0"))
        out.append(Scenario(f"bound k in {kb}", bound, (kb,), bounds=f"outcomes in {kb}, 0<p<1, samples >= 1"))
    return out
