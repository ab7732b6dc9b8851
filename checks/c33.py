"""C33: the approximate lossy distribution calculator returns one law over its outcomes."""
from .common import *

ASSUMPTIONS = ["the interferometer is the identity times a symbolic uniform amplitude transmission; one to two modes"]
APPROX = (DC + "bs_appriximated_distribution_from_separable_states_calculator", "BSApproximatedLossyDistributionCalculator")


def check(ctx, s, level):
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    eta = W.real("eta", 0, 1, strict=True)
    M = arr([[eta.sqrt() if i == j else 0 for j in range(m)] for i in range(m)])

    def run():
        prog = ctx.program()
        cfg = config(prog, copy_matrix(M), s, n, eta, hierarchy_level=level)
        d = klass(prog, APPROX)(cfg, new_calc(prog, "ryser", copy_matrix(M)))
        outs = [plain(o) for o in d.get_outcomes_in_proper_order()]
        return outs, list(d.calculate_distribution())

    def payload(r):
        pt = witness(r)
        return {"kind": "approximated", "matrix": C.numeric(M, pt), "eta": C.value(eta, pt).real, "input": s, "level": level}
    ctx.claims += 1
    for r, lf in leaves_of(ctx.explore(run)):
        v = lf.value
        if isinstance(v, Raised):
            raise Violation(f"input {s}: {v!r}", payload(r))
        outs, ps = v
        if len(outs) != len(ps) or len(set(outs)) != len(outs):
            raise Violation(f"input {s}: {len(ps)} values for {len(outs)} outcomes", payload(r))
        for p in ps:
            if not C.claim_nonneg(ctx, S.of(p)):
                raise Violation(f"input {s}: {p!r}"[:300], payload(r))
    ctx.sample(f"{s} level {level}")


def scenarios(tier):
    out = []
    for s in ((1, 0), (1, 1)):
        for level in range(len(s) + 1):
            out.append(Scenario(f"{s} level {level}", check, (s, level), bounds=f"uniformly lossy identity, input {s}, hierarchy level {level}"))
    return out
