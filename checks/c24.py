"""C24: the counting functions agree exactly with what they count, at every size."""
from functools import lru_cache

from .ints import *

ASSUMPTIONS = ["floating-point library functions (scipy binom, factorial, comb) are modelled by their contract: exact below 2**44, "
               "otherwise off by a symbolic relative error of at most 2**-50",
               "reference counts: additive recurrences over whole numbers (no factorials or binomials)"]


@lru_cache(None)
def dim(n, m):
    """occupations of m modes with n particles, by the number of particles in the last mode"""
    if m == 0:
        return 1 if n == 0 else 0
    return sum(dim(n - k, m - 1) for k in range(n + 1)) if n < 3 else dim(n, m - 1) + dim(n - 1, m)


@lru_cache(None)
def parts(n, k, top):
    """partitions of n into exactly k positive parts of at most top"""
    if k == 0:
        return 1 if n == 0 else 0
    return sum(parts(n - j, k - 1, j) for j in range(1, min(n, top) + 1))


@lru_cache(None)
def arrangements(counts):
    """distinct orderings of a multiset, by the kind of the first element"""
    if not counts:
        return 1
    tot = 0
    for i, c in enumerate(counts):
        rest = tuple(sorted(counts[:i] + ((c - 1,) if c > 1 else ()) + counts[i + 1:]))
        tot += arrangements(rest)
    return tot


def inexact(W):
    def hook(exact):
        if abs(exact) < 2 ** 44:
            return S.c(exact)
        d = W.real(f"delta{len(W.atoms)}", Fraction(-1, 2 ** 50), Fraction(1, 2 ** 50))
        return S.c(exact) * (S.c(1) + d)
    W.float_error = hook


def number(v):
    """whole number, or None if the value may be anything else within the float contract"""
    if isinstance(v, np.ndarray) and v.shape == ():
        v = v[()]
    if isinstance(v, S):
        if not v.is_const() or Fraction(v.const()).denominator != 1 or abs(v.const()) >= 2 ** 53:
            return None
        return int(v.const())
    return int(v)


def compare(ctx, got, want, what, payload):
    ctx.claims += 1
    if got is not None:
        s = z3.Solver()
        s.add(z3.IntVal(got) != z3.IntVal(want))
        if run_solver(s, "count") == z3.unsat:
            return
    raise Violation(f"{what}: {got}, expected {want}", payload)


def sized(ctx, fn, lo, hi, mlo, mhi, losses):
    W = ctx.world(hi * 50 + mhi)
    n, m = fresh("n", lo, hi), fresh("m", mlo, mhi)

    def run():
        inexact(sym.W)
        U = ctx.program()[UTIL]
        if fn == "dimension":
            v = U.bosonic_space_dimension(n, m, losses)
        elif fn == "types":
            v = U.compute_number_of_state_types(m, n, losses)
        elif fn == "partitions":
            v = U.compute_number_of_k_element_integer_partitions_of_n(m, n)
        else:
            v = 0
            for t in U.generate_state_types(m, n, losses):
                v = v + U.compute_number_of_states_of_given_type(t)
        return int(n), int(m), number(v)

    def payload(N, M):
        return {"kind": "counting", "fn": fn, "n": N, "m": M, "losses": losses}
    seen = set()
    ctx.validate(payload(hi, mhi))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            ev = lambda x: md.eval(x.t, model_completion=True).as_long()
            raise Violation(f"{md}: {lf.value!r}", payload(ev(n), ev(m)))
        N, M, v = lf.value
        seen.add((N, M))
        ns = range(N + 1) if losses else [N]
        if fn in ("dimension", "sum"):
            want = sum(dim(k, M) for k in ns)
        elif fn == "types":
            want = sum(parts(k, j, k) for k in ns for j in range(0, M + 1))
        else:
            want = parts(N, M, N) if M > 0 else 0
        compare(ctx, v, want, f"{fn} n={N} m={M} losses={losses}", payload(N, M))
    miss = symint.prove(ctx, z3.Or([z3.And(n.t == a, m.t == b) for a, b in seen]))
    if miss is not None:
        raise Undecided(f"size not explored: {miss}")
    ctx.sample(f"{fn}: sizes {sorted(seen)[:4]}...")


def of_type(ctx, m, top, how):
    W = ctx.world(m * 10 + top)
    s = [fresh(f"s{i}", 0, top) for i in range(m)]

    def run():
        inexact(sym.W)
        U = ctx.program()[UTIL]
        v = U.compute_number_of_states_of_given_type(state(list(s), how))
        return [int(x) for x in s], number(v)

    def payload(v):
        return {"kind": "counting", "fn": "of_type", "state": v, "form": how}
    k = 0
    ctx.validate(payload([1] + [0] * (m - 1)))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            raise Violation(f"{md}: {lf.value!r}", payload([md.eval(x.t, model_completion=True).as_long() for x in s]))
        v, got = lf.value
        want = arrangements(tuple(sorted(v.count(x) for x in set(v))))
        compare(ctx, got, want, f"states of type {v}", payload(v))
        k += 1
    ctx.sample(f"{k} types with {m} modes")


def large(ctx, fn, arg, losses=False):
    """one large size; any rounding allowed by the float contract shows up"""
    W = ctx.world(3)

    def run():
        inexact(sym.W)
        U = ctx.program()[UTIL]
        if fn == "dimension":
            return number(U.bosonic_space_dimension(arg[0], arg[1], losses))
        return number(U.compute_number_of_states_of_given_type(list(arg)))
    if fn == "dimension":
        n, m = arg
        want = sum(dim(k, m) for k in range(n + 1)) if losses else dim(n, m)
        pl = {"kind": "counting", "fn": "dimension", "n": n, "m": m, "losses": losses, "scan": [20, 70]}
    else:
        want = arrangements(tuple(sorted(arg.count(x) for x in set(arg))))
        pl = {"kind": "counting", "fn": "of_type", "state": list(arg), "form": "list", "scan": [18, 40]}
    ctx.validate(dict(pl, scan=None))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(f"{fn} {arg}: {lf.value!r}", pl)
        compare(ctx, lf.value, want, f"{fn} {arg} losses={losses}", pl)
    ctx.sample(f"{fn} {arg}: {want}")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for fn, losses, b in [("dimension", False, (0, 12, 1, 12)), ("dimension", True, (0, 12, 1, 12)),
                          ("types", False, (0, 9, 1, 9)), ("types", True, (0, 9, 1, 9)),
                          ("partitions", False, (1, 13, 0, 15)),
                          ("sum", False, (0, 6, 1, 6)), ("sum", True, (0, 6, 1, 6)),
                          ("types", False, (10, 12, 1, 16)), ("types", True, (0, 3, 10, 20)),
                          ("sum", False, (7, 9, 1, 4)), ("sum", True, (0, 3, 7, 12))] + ([] if q else [
                              ("dimension", False, (0, 30, 1, 30)), ("dimension", True, (0, 25, 1, 25)),
                              ("types", True, (0, 16, 1, 16)), ("partitions", False, (1, 24, 0, 26)), ("sum", True, (0, 9, 1, 9))]):
        out.append(Scenario(f"{fn} losses={losses} {b}", sized, (fn,) + b + (losses,), cap=600,
                            bounds=f"{fn}: {b[0]}<=n<={b[1]}, {b[2]}<=m (k)<={b[3]}"))
    for m, top in ([(1, 3), (2, 3), (3, 3), (4, 2)] if q else [(1, 3), (2, 5), (3, 4), (4, 3), (5, 2)]):
        for how in ("list", "tuple"):
            out.append(Scenario(f"of type {m} modes {how}", of_type, (m, top, how), cap=600, bounds=f"{m} modes, occupations <= {top}"))
    for arg in [(25, 30), (30, 25), (40, 40), (60, 20), (20, 60), (30, 200), (200, 10), (100, 100)]:
        for losses in (False, True):
            out.append(Scenario(f"dimension {arg} losses={losses}", large, ("dimension", arg, losses), bounds=f"n, m = {arg}"))
    for arg in [(1,) * 12 + (0,) * 12, (1,) * 10 + (0,) * 14, (2,) * 5 + (1,) * 10 + (0,) * 11, (3,) + (2,) * 9 + (1,) * 9 + (0,) * 21,
                tuple(range(25, 0, -1)), (1,) + (0,) * 59, (5, 4, 3, 2, 1) + (0,) * 20]:
        out.append(Scenario(f"of type {arg[:3]}.. {len(arg)} modes", large, ("of_type", arg), bounds=f"a type with {len(arg)} modes"))
    return out
