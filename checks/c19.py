"""C19: the expanded interferometer is a unitary dilation of the given matrix."""
from .laws import *

ASSUMPTIONS = ["numpy's svd is a contract stub: it returns a decomposition V diag(s) U of the given matrix with descending s, checked against the contract",
               "V, U: g = generic unitary, i = identity, c = cyclic permutation, r = rational orthogonal; singular values symbolic in (0,1), equal, "
               "exactly 1, 1/2 or 0; 'above': singular values that rounding pushed slightly above one"]


def check(ctx, fam, m, form, above):
    W = ctx.world(m)
    if above:
        e = W.real("e", 1, Fraction(2 ** 30 + 1, 2 ** 30), strict=True)
        V = family(W, fam, m)
        W.svd_candidates.append([[S.of(V[i][j]) for j in range(m)] for i in range(m)])
        sv = [e] + [S.c(1)] * (m - 1)
        M = arr([[S.of(V[i][j]) * sv[j] for j in range(m)] for i in range(m)])
    elif "-" in fam:
        M, sv = lossy_family(W, fam, m)
    else:
        M, sv = family(W, fam, m), [S.c(1)] * m
    unit = all(x.is_const() and x.const() == 1 for x in sv)

    def payload(r):
        return {"kind": "dilation", "matrix": C.numeric(M, witness(r)), "form": form, "above": above}
    ctx.validate(payload)

    def run():
        u = ctx.program()[UTIL]
        A = copy_matrix(M)
        B = [list(x) for x in A] if form == "list" else A
        E = u.prepare_interferometer_matrix_in_expanded_space(B)
        if not same_matrix(B, M):
            return "modified"
        T = list(u.get_modes_transmissivity_values_from_matrix(B))
        if not same_matrix(B, M):
            return "modified"
        return np.asarray(E, dtype=object), T
    name = f"{fam} m={m}"
    for r, lf in leaves_of(ctx.explore(run)):
        def bad(what):
            raise Violation(f"{name}: {what}"[:400], payload(r))
        if isinstance(lf.value, (Raised, str)):
            bad(repr(lf.value))
        E, T = lf.value
        ctx.claims += 1
        if E.shape != (2 * m, 2 * m) or len(T) != m:
            bad(f"shape {E.shape}, {len(T)} transmissivities")
        E = [[S.of(x) for x in row] for row in E]

        def same(a, b, what):
            if not C.claim_equal(ctx, a, b, what=f"{name} {what}"):
                bad(f"{what}: {a!r}"[:200])
        for i in range(m):
            for j in range(m):
                same(E[i][j], S.of(M[i][j]), f"entry {i},{j}")
                if unit or above:
                    same(E[i][m + j], S.c(0), f"coupling {i},{m + j}")
                    same(E[m + i][j], S.c(0), f"coupling {m + i},{j}")
        # in any order: the symmetric functions of the transmissivities decide
        for k in range(1, m + 1):
            a = b = S.c(0)
            for i in range(m):
                a, b = a + S.of(T[i]) ** k, b + (sv[i] * sv[i]) ** k
            same(a, b, f"sum of the powers {k} of the transmissivities")
        if above:
            continue
        for i in range(2 * m):
            for j in range(i + 1):
                t = S.c(0)
                for k in range(2 * m):
                    if E[i][k].n and E[j][k].n:
                        t = t + E[i][k] * E[j][k].conjugate()
                same(t, S.c(int(i == j)), f"product of the rows {i} and {j}")
    ctx.sample(name)


def scenarios(tier):
    big = tier == "thorough"
    out = []
    fams = {1: ["gg-s", "gg-0", "gg-1", "gg-h"], 2: ["gg-ss", "gg-1s", "gg-s0", "gg-s=", "gg-11", "gg-00", "gg-h0", "ri-ss", "ii-ss", "cr-ss", "gi-hh", "ww-ht", "rr-tt", "rw-nn", "wi-1n", "rr-he", "wr-ee", "small30000"],
            3: ["gi-sss", "ig-sss", "ri-1ss", "ir-1s0", "rr-sss", "cc-ss=", "gi-11s", "gi-s==", "rr-000", "rr-hss", "gg-sss", "ww-hnt", "rr-1n0", "small30000"],
            4: ["ri-ssss", "rr-1ss0", "rr-s===", "gi-ssss"]}
    if big:
        fams[3] += ["gg-1s0", "gg-11s"]
        fams[5] = ["ii-sssss", "cc-1ss=0"]
    for m, fs in fams.items():
        for f in fs + ["unitary", "identity", "cycle"] + (["rational"] if m < 5 else []):
            if m == 5 and f in ("unitary",):
                continue
            for form in ("array", "list"):
                out.append(Scenario(f"{f} m={m} {form}", check, (f, m, form, False), cap=600 if not big else 6000,
                                    bounds=f"{f} matrices of size {m}"))
    for m in (1, 2, 3):
        for f in ("unitary", "rational"):
            out.append(Scenario(f"{f} m={m} above", check, (f, m, "array", True), cap=300, bounds=f"rounded unitary of size {m}"))
    return out
