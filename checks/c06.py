"""C06: the uniform-loss exact distribution is the binomial mixture of fixed-loss laws."""
from .common import *

ASSUMPTIONS = ["matrix entries are independent symbolic complex numbers; eta is symbolic in [0,1]"]
HISTORIES = [(), (True,), (True, False), (False,), (True, True, False), (False, True)]


def check(ctx, calc, s, hist, pre=False, zeros=()):
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    M = generic_matrix(W, m, zeros=zeros)
    eta = W.real("eta", 0, 1)
    pres = preludes(M, generic_matrix(W, m, "N"), s, n, eta, W.real("eta2", 0, 1)) if pre else []

    def run():
        prog = ctx.program()
        run_preludes(prog, UNIFORM, calc, pres)
        cfg = config(prog, copy_matrix(M), s, n, eta)
        d = klass(prog, UNIFORM)(cfg, new_calc(prog, calc, copy_matrix(M)))
        for w in hist:
            d.set_weightless(w)
        return [plain(o) for o in d.get_outcomes_in_proper_order()], list(d.calculate_distribution())

    def payload(pt):
        return {"kind": "distribution", "which": "uniform", "calc": calc, "matrix": C.numeric(M, pt), "input": s,
                "eta": C.value(eta, pt).real, "weightless": list(hist), "pre": numeric_preludes(pres, pt)}
    weightless = bool(hist) and hist[-1]
    law = {}
    for l in range(n + 1):
        w = S.c(1) if weightless else S.c(math.comb(n, l)) * eta ** l * (S.c(1) - eta) ** (n - l)
        for t, p in C.fixed_loss_law(M, s, l).items():
            law[t] = p * w
    ctx.validate(payload)
    for r, lf in leaves_of(ctx.explore(run)):
        v = lf.value
        if isinstance(v, Raised):
            raise Violation(f"{calc} {s} {hist}: {v!r}", payload(witness(r)))
        listed, ps = v
        if len(ps) != len(listed) or sorted(listed) != sorted(law):
            raise Violation(f"{calc} {s}: outcomes {listed}", payload(witness(r)))
        for t, p in zip(listed, ps):
            if not C.claim_equal(ctx, p, law[t]):
                raise Violation(f"{calc} {s} {hist} outcome {t}: {p!r}"[:300], payload(witness(r)))
        ctx.sample(f"{calc} {s} weightless history {hist}: P{listed[-1]}={ps[-1]!r}"[:400])


def scenarios(tier):
    big = tier == "thorough"
    out = []
    sizes = [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)] + [(3, 3), (2, 4), (4, 2), (1, 5)] + ([(2, 5), (3, 4), (4, 3), (5, 2), (2, 6), (3, 5)] if big else [])
    for calc in CALCS:
        for m, n in sizes:
            for s in occupations(m, n):
                out.append(Scenario(f"{calc} {s}", check, (calc, s, ()), bounds=f"input {s}, symbolic eta in [0,1]"))
        for s in ((2, 1), (1, 0, 1)):
            out.append(Scenario(f"{calc} {s} after others", check, (calc, s, (), True),
                                bounds=f"input {s}, symbolic eta in [0,1], after other calculators in the same program"))
        for s in ((1, 1), (2, 1), (1, 0, 1)):
            out.append(Scenario(f"{calc} {s} small", check, (calc, s, (), False, "small3000"), bounds=f"input {s}, weak couplings, symbolic eta in [0,1]"))
        if calc != "classic":
            for s in ((4, 2), (3, 3), (2, 2, 1), (0, 4, 1), (1, 1, 1, 1, 1)) + (((2, 2, 2), (6, 2)) if big else ()):
                out.append(Scenario(f"{calc} {s} line", check, (calc, s, (), False, "line"), bounds=f"input {s}, complex rational entries, one symbolic; symbolic eta"))
        for h in HISTORIES[1:]:
            out.append(Scenario(f"{calc} (1, 2) weightless {h}", check, (calc, (1, 2), h), bounds=f"weightless history {h}"))
    for s in ((1, 1, 1), (2, 0, 1), (2, 2)):
        out.append(Scenario(f"ryser {s} weightless", check, ("ryser", s, (True,)), bounds=f"input {s} weightless"))
    return out
