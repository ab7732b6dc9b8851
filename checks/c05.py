"""C05: exact distributions are normalised and non-negative for every interferometer."""
from .common import *

ASSUMPTIONS = ["the interferometer is a symbolic matrix constrained only by U^+U = UU^+ = 1; eta is symbolic in [0,1]"]


def check(ctx, which, calc, s):
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    U = W.unitary("U", m)
    eta = W.real("eta", 0, 1)
    for left in (range(n + 1) if which == "fixed" else [n]):
        def run():
            prog = ctx.program()
            cfg = config(prog, copy_matrix(U), s, left, eta)
            d = klass(prog, FIXED if which == "fixed" else UNIFORM)(cfg, new_calc(prog, calc, copy_matrix(U)))
            return [plain(o) for o in d.get_outcomes_in_proper_order()], list(d.calculate_distribution())

        def payload(pt):
            return {"kind": "distribution", "which": which, "calc": calc, "matrix": C.numeric(U, pt), "input": s,
                    "left": left, "eta": C.value(eta, pt).real, "only": "normalised"}
        if left:
            ctx.validate(payload)
        for r, lf in leaves_of(ctx.explore(run)):
            v = lf.value
            if isinstance(v, Raised):
                raise Violation(f"{calc} {s} left={left}: {v!r}", payload(witness(r)))
            listed, ps = v
            tot = S.c(0)
            for p in ps:
                tot = tot + p
            if len(ps) != len(listed) or not C.claim_equal(ctx, tot, S.c(1)):
                raise Violation(f"{calc} {s} left={left}: sum {tot!r}"[:300], payload(witness(r)))
            for t, p in zip(listed, ps):
                if not C.claim_nonneg(ctx, p):
                    raise Violation(f"{calc} {s} left={left}: P{t} = {p!r}"[:300], payload(witness(r)))
        ctx.sample(f"{which} {calc} {s} left={left}: {len(ps)} outcomes, P{listed[0]}={ps[0]!r}"[:400])


def scenarios(tier):
    big = tier == "thorough"
    out = []
    sizes = [(1, 0), (1, 2), (2, 0), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 4), (3, 3)] + ([(2, 5), (2, 6), (3, 4), (4, 1), (4, 2)] if big else [])
    for which in ("fixed", "uniform"):
        for calc in CALCS:
            for m, n in sizes:
                for s in occupations(m, n):
                    out.append(Scenario(f"{which} {calc} {s}", check, (which, calc, s), cap=400,
                                        bounds=f"input {s}, generic {m}-mode unitary, symbolic transmissivity"))
        if not big:
            for s in [(1, 0, 1, 0), (0, 2, 0, 0), (3, 2)]:
                out.append(Scenario(f"{which} ryser {s}", check, (which, "ryser", s), cap=400, bounds=f"input {s}, generic unitary"))
    return out
