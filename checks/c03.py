"""C03: submatrix permanents equal the permanents with one input particle removed."""
from .common import *

ASSUMPTIONS = ["matrix entries are independent symbolic complex numbers; sizes bounded as listed; every occupation pair of a "
               "size is checked"]


def check(ctx, calc, m, n, how, zeros, pre=False):
    W = ctx.world(m * 10 + n)
    M = generic_matrix(W, m, zeros=zeros)
    N = generic_matrix(W, m, "N") if pre else None
    row = [W.cplx(f"r{j}") for j in range(m)]
    for s in occupations(m, n):
        for t in occupations(m, n - 1):
            def run():
                prog = ctx.program()
                if pre:     # other objects used earlier in the same program
                    cls_of(prog, calc)(N, state(s, how), state(t, how)).compute_permanents()
                    cls_of(prog, calc)(M, state(s[::-1], how), state(t, how)).compute_permanents()
                return cls_of(prog, calc)(M, state(s, how), state(t, how)).compute_permanents()

            def payload(pt, s=s, t=t):
                steps = [{"matrix": C.numeric(M, pt), "input": s, "output": t, "how": how, "new": True}]
                if pre:
                    steps = [{**steps[0], "matrix": C.numeric(N, pt)}, {**steps[0], "input": s[::-1]}] + steps
                return {"kind": "perm_value", "calc": calc, "steps": steps}
            if sum(1 for x in s if x) > 1:
                ctx.validate(payload)
            regs = ctx.explore(run)
            want = [S.c(0) if s[q] == 0 else C.permanent(C.scattering(M, s[:q] + (s[q] - 1,) + s[q + 1:], t))
                    for q in range(m)]
            for r, lf in leaves_of(regs):
                v = lf.value
                ok = not isinstance(v, Raised) and len(v) == m
                ok = ok and all(C.claim_equal(ctx, a, b) for a, b in zip(v, want))
                if not ok:
                    raise Violation(f"{calc} {s}->{t}: {v!r}", payload(witness(r)))
                # Laplace expansion along an added output row
                big = [[row[c] for c in C.expand_state(s)]] + C.scattering(M, s, t)
                lap = S.c(0)
                for q in range(m):
                    lap = lap + S.of(v[q]) * row[q] * s[q]
                if not C.claim_equal(ctx, lap, C.permanent(big)):
                    raise Violation(f"{calc} {s}->{t}: Laplace expansion", payload(witness(r)))
            ctx.sample(f"{calc} {s}->{t}: {v!r}"[:500])
    if not ctx.traces:
        ctx.validate(payload)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for calc in SUBCALCS:
        sizes = [(1, 1), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (1, 7), (2, 5), (4, 3), (5, 2)]
        sizes += [(3, 4), (5, 3), (4, 4), (2, 6), (1, 8), (2, 7)] + ([(3, 5), (5, 4), (6, 3), (2, 8), (1, 10), (3, 6)] if big else [])
        for m, n in sizes:
            out.append(Scenario(f"{calc} m={m} n={n}", check, (calc, m, n, "list", ()),
                                bounds=f"modes {m}, input particles {n}, all occupation pairs, generic matrix"))
        for m, n in [(5, 3), (6, 2), (2, 8), (1, 12), (3, 6)] + ([(4, 5), (2, 10), (7, 3)] if big else []):
            out.append(Scenario(f"{calc} m={m} n={n} line", check, (calc, m, n, "list", "line"), bounds=f"modes {m}, particles {n}, all occupation pairs, complex rational entries, one symbolic"))
        for m, n in [(2, 2), (3, 3)]:
            out.append(Scenario(f"{calc} m={m} n={n} small", check, (calc, m, n, "list", "small3000"), bounds=f"modes {m}, particles {n}, weak couplings"))
        out.append(Scenario(f"{calc} m=3 n=3 arrays", check, (calc, 3, 3, "array", ()), bounds="modes 3, particles 3, numpy states"))
        for m, n in ((2, 2), (3, 2), (2, 3)):
            out.append(Scenario(f"{calc} m={m} n={n} after others", check, (calc, m, n, "list", (), True),
                                bounds=f"modes {m}, particles {n}, after other calculators in the same program"))
        out.append(Scenario(f"{calc} m=3 n=3 zeros", check, (calc, 3, 3, "list", ((0, 0), (1, 2), (2, 0))),
                            bounds="modes 3, particles 3, matrix with zero entries"))
    return out
