"""C34: get_prime_factors returns the primes whose product is the number."""
from .ints import *

ASSUMPTIONS = ["the number is a symbolic integer of the stated range; divisibility and the whole part of the square root are z3 integer "
               "arithmetic, and every path leaves the last factor symbolic"]


def number_of(v):
    """a whole number: int, or a symbolic integer"""
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    return v.t if hasattr(v, "__symint__") else None


FORMS = {"square": lambda d: d * d, "neighbours": lambda d: d * (d + 2), "twice a square": lambda d: 2 * d * d, "cube": lambda d: d ** 3,
         "around a square": lambda d: d * d + 1}


def check(ctx, lo, hi, again=False, form=None):
    W = ctx.world(7)
    if form:
        vals = sorted({FORMS[form](d) for d in range(lo, hi + 1)})
        lo, hi = vals[0], vals[-1]
        n = fresh("n", lo, hi)
        W.int_facts.append(z3.Or([n.t == v for v in vals]))
    else:
        n = fresh("n", lo, hi)
    W.int_exact = hi

    def run():
        f = ctx.program()[QCU].get_prime_factors
        if again:
            scramble(f(n))
            scramble(f(n + 1) if again == "next" else f(n))
        return list(f(n))
    ctx.validate(payload([lo, hi], again))
    leaves = 0
    roots = range(2, math.isqrt(hi) + 1)
    for r, lf in leaves_of(ctx.explore(run)):
        leaves += 1

        def bad(md, why):
            return Violation(f"n = {md.eval(n.t, model_completion=True)}: {why}: {lf.value!r}",
                             payload([md.eval(n.t, model_completion=True).as_long()], again))
        if isinstance(lf.value, Raised) or any(number_of(v) is None for v in lf.value):
            md = prove(ctx, z3.BoolVal(False), lf.int_pc)
            if md is None:
                continue
            raise bad(md, "not a list of whole numbers")
        fs = [number_of(v) for v in lf.value]
        prod = z3.IntVal(1)
        for t in fs:
            prod = z3.simplify(prod * t)
        md = prove(ctx, prod == n.t, lf.int_pc)
        if md is not None:
            raise bad(md, "product")
        for t in fs:
            md = prove(ctx, z3.And([t >= 2] + [z3.Or(t < d * d, t % d != 0) for d in roots]), lf.int_pc)
            if md is not None:
                raise bad(md, "not a prime")
        ctx.sample(f"factors {lf.value!r} under {len(lf.int_pc)} conditions")
    ctx.sample(f"{leaves} factorisation patterns")


def payload(ns, again):
    return {"kind": "primes", "numbers": list(ns), "again": again}


def scenarios(tier):
    out = []
    top = [(1, 60), (61, 200), (201, 330), (331, 450), (451, 540), (725, 735)]
    if tier == "thorough":
        top += [(541 + 100 * i, 640 + 100 * i) for i in range(14)] + [(9990, 10020), (99990, 100010)]
    else:
        top += [(2401, 2412), (9997, 10010)]
    for lo, hi in top:
        out.append(Scenario(f"{lo} to {hi}", check, (lo, hi), bounds=f"{lo} <= number <= {hi}"))
    for form, lo, hi in (("square", 2, 47), ("neighbours", 2, 33), ("twice a square", 2, 23), ("cube", 2, 11)):
        out.append(Scenario(f"{form} of {lo} to {hi}", check, (lo, hi, False, form), bounds=f"{form} of {lo} <= d <= {hi}"))
    out.append(Scenario("again 1 to 60", check, (1, 60, "same"), bounds="1 <= number <= 60, after a call whose result was changed"))
    out.append(Scenario("after another 1 to 40", check, (1, 40, "next"), bounds="1 <= number <= 40, after a call with the next number"))
    return out
