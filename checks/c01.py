"""C01: every permanent calculator returns the permanent of the scattering matrix."""
from .common import *

ASSUMPTIONS = ["matrix entries are independent symbolic complex numbers; sizes and occupations are bounded as listed"]


def check(ctx, calc, m, n, how, zeros, pre=False):
    W = ctx.world(m * 10 + n)
    M = generic_matrix(W, m, zeros=zeros)
    N = generic_matrix(W, m, "N") if pre else None
    for s in occupations(m, n):
        for t in occupations(m, n):
            def run():
                prog = ctx.program()
                if pre:     # other objects used earlier in the same program
                    cls_of(prog, calc)(N, state(s, how), state(t, how)).compute_permanent()
                    cls_of(prog, calc)(M, state(t, how), state(s, how)).compute_permanent()
                c = cls_of(prog, calc)(M, state(s, how), state(t, how))
                return c.compute_permanent()

            def payload(pt, s=s, t=t):
                steps = [{"matrix": C.numeric(M, pt), "input": s, "output": t, "how": how, "new": True}]
                if pre:
                    steps = [{**steps[0], "matrix": C.numeric(N, pt)}, {**steps[0], "input": t, "output": s}] + steps
                return {"kind": "perm_value", "calc": calc, "steps": steps}
            ctx.validate(payload)
            regs = ctx.explore(run)
            want = C.permanent(C.scattering(M, s, t))
            for r, lf in leaves_of(regs):
                    v = lf.value
                    ok = not isinstance(v, Raised) and S.of(v) is not None and C.claim_equal(ctx, v, want)
                    if not ok:
                        raise Violation(f"{calc} {s}->{t}: {v!r}", payload(witness(r)))
            ctx.sample(f"Per of {calc} for {s}->{t} on a symbolic {m}x{m} matrix: {v!r}")


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for calc in CALCS:
        bounds = [(1, 8 if calc == "classic" and not big else 9), (2, 6), (3, 5), (4, 3), (5, 3)] + ([(2, 8), (3, 6), (4, 4), (6, 3), (1, 11)] if big else [])
        done = set()
        for m, nmax in bounds:
            for n in range(0, nmax + 1):
                if (m, n) in done:
                    continue
                done.add((m, n))
                out.append(Scenario(f"{calc} m={m} n={n}", check, (calc, m, n, "list", ()),
                                    bounds=f"modes {m}, particles {n}, all occupation pairs, generic matrix"))
        for m, n in [(4, 4), (6, 2)] + ([(3, 6), (2, 8), (1, 13), (2, 9)] if calc != "classic" else []) + ([(4, 5), (3, 7), (2, 10)] if calc != "classic" and big else []):
            out.append(Scenario(f"{calc} m={m} n={n} line", check, (calc, m, n, "list", "line"), bounds=f"modes {m}, particles {n}, all occupation pairs, complex rational entries, one symbolic"))
        for m, n in [(2, 2), (3, 3)]:
            out.append(Scenario(f"{calc} m={m} n={n} small", check, (calc, m, n, "list", "small3000"), bounds=f"modes {m}, particles {n}, weak couplings"))
        out.append(Scenario(f"{calc} m=3 n=2 arrays", check, (calc, 3, 2, "array", ()), bounds="modes 3, particles 2, numpy states"))
        for m, n in ((2, 2), (3, 2), (2, 3)):
            out.append(Scenario(f"{calc} m={m} n={n} after others", check, (calc, m, n, "list", (), True),
                                bounds=f"modes {m}, particles {n}, after other calculators in the same program"))
        out.append(Scenario(f"{calc} m=3 n=2 zeros", check, (calc, 3, 2, "list", ((0, 0), (1, 2), (2, 0))),
                            bounds="modes 3, particles 2, matrix with zero entries"))
    return out
