"""C04: fixed-loss exact probabilities follow the lossy boson-sampling formula."""
from .common import *

ASSUMPTIONS = ["matrix entries are independent symbolic complex numbers (no unitarity assumed); all inputs, survivor numbers and "
               "outcomes of a size are checked"]


def check(ctx, calc, s, zeros, pre=False):
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    M = generic_matrix(W, m, zeros=zeros)
    N = generic_matrix(W, m, "N") if pre else None
    for left in range(n + 1):
        pres = preludes(M, N, s, left, 1, 1)[:-2] + preludes(M, N, s, left, 1, 1)[-1:] if pre else []
        outs = C.states(left, m)

        def run():
            prog = ctx.program()
            run_preludes(prog, FIXED, calc, pres)
            cfg = config(prog, copy_matrix(M), s, left)
            d = klass(prog, FIXED)(cfg, new_calc(prog, calc, copy_matrix(M)))
            full = d.calculate_distribution()
            return [plain(o) for o in d.get_outcomes_in_proper_order()], full, \
                d.calculate_probabilities_of_outcomes([list(o) for o in outs])

        def payload(pt, ask=None):
            return {"kind": "distribution", "which": "fixed", "calc": calc, "matrix": C.numeric(M, pt), "input": s,
                    "left": left, "ask": ask, "pre": numeric_preludes(pres, pt)}
        law = C.fixed_loss_law(M, s, left)
        if left:
            ctx.validate(payload)
        for r, lf in leaves_of(ctx.explore(run)):
            v = lf.value
            if isinstance(v, Raised):
                raise Violation(f"{calc} {s} left={left}: {v!r}", payload(witness(r)))
            listed, full, asked = v
            if len(full) != len(listed) or set(listed) != set(outs):
                raise Violation(f"{calc} {s} left={left}: listed {listed}", payload(witness(r)))
            for t, p in zip(listed, full):
                if not C.claim_equal(ctx, p, law[t]):
                    raise Violation(f"{calc} {s} left={left} outcome {t}: {p!r}", payload(witness(r)))
            if len(asked) != len(outs):
                raise Violation("number of probabilities", payload(witness(r), outs))
            for t, p in zip(outs, asked):
                if not C.claim_equal(ctx, p, law[t]):
                    raise Violation(f"{calc} {s} left={left} asked {t}: {p!r}", payload(witness(r), outs))
        ctx.sample(f"{calc} input {s}, {left} left: P{listed[0]} = {full[0]!r}"[:500])


def scenarios(tier):
    big = tier == "thorough"
    out = []
    sizes = [(1, 1), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2)]
    if big:
        sizes += [(3, 4), (4, 4), (3, 5), (5, 3), (2, 6), (6, 2), (1, 7)]
    for calc in CALCS:
        for m, n in sizes:
            for s in occupations(m, n):
                out.append(Scenario(f"{calc} {s}", check, (calc, s, ()), bounds=f"input {s}, every survivor number"))
        for s in ((2, 2, 0), (1, 2, 1), (0, 2, 2), (1, 1, 1, 1)):
            if not big:
                out.append(Scenario(f"{calc} {s}", check, (calc, s, ()), bounds=f"input {s}, every survivor number"))
        for s in ((2, 1), (1, 0, 1)):
            out.append(Scenario(f"{calc} {s} after others", check, (calc, s, (), True),
                                bounds=f"input {s}, every survivor number, after other calculators in the same program"))
        for s in ((1, 1), (2, 1), (1, 0, 1)):
            out.append(Scenario(f"{calc} {s} small", check, (calc, s, "small3000"), bounds=f"input {s}, weak couplings"))
        if calc != "classic":
            for s in ((4, 2), (3, 3), (2, 2, 1), (0, 4, 1), (1, 1, 1, 1, 1)) + (((2, 2, 2), (6, 2), (1, 1, 1, 1, 1, 1)) if big else ()):
                out.append(Scenario(f"{calc} {s} line", check, (calc, s, "line"), bounds=f"input {s}, complex rational entries, one symbolic"))
        out.append(Scenario(f"{calc} zeros", check, (calc, (1, 2, 0), ((0, 0), (1, 1), (2, 0))), bounds="matrix with zero entries"))
        out.append(Scenario(f"{calc} vacuum", check, (calc, (0, 0), ()), bounds="vacuum input"))
    return out
