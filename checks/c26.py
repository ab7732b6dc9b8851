"""C26: QFT and random-phase matrices act only on the requested first modes."""
from .common import *

ASSUMPTIONS = ["the roots of unity are exact algebraic numbers; a random phase exp(2 pi i u) of an ideal uniform u is a unit-circle atom "
               "whose non-zero powers average to zero"]


def root(W, r):
    return W.root_of_unity(Fraction(r))


def qft(ctx, k, m, direct):
    W = ctx.world(k * 20 + m)

    def run():
        prog = ctx.program()
        return prog[QCU].compute_qft_matrix(k) if direct else prog[UTIL].generate_qft_matrix_for_first_m_modes(k, m)
    pl = {"kind": "matrices", "what": "qft", "k": k, "m": m, "direct": direct}
    ctx.validate(pl)
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(f"k={k} m={m}: {lf.value!r}", pl)
        A = np.asarray(lf.value, dtype=object)
        if direct and k == 0:
            ctx.claims += 1
            if A.size:
                raise Violation("QFT of no modes", pl)
            continue
        if A.shape != (m, m):
            raise Violation(f"shape {A.shape}", pl)
        norm = S.c(Fraction(1, k)).sqrt() if k else S.c(1)
        for a in range(m):
            for b in range(m):
                want = (root(W, Fraction(2, k)) ** (a * b)) * norm if a < k and b < k else S.c(int(a == b))
                if not C.claim_equal(ctx, A[a][b], want):
                    raise Violation(f"k={k} m={m} entry {a},{b}: {A[a][b]!r}", pl)
        for a in range(m):
            for b in range(m):
                t = S.c(0)
                for c in range(m):
                    t = t + S.of(A[a][c]) * S.of(A[b][c]).conjugate()
                if not C.claim_equal(ctx, t, S.c(int(a == b)), kind="unitarity"):
                    raise Violation(f"k={k} m={m}: rows {a},{b} are not orthonormal", pl)
    ctx.sample(f"QFT on the first {k} of {m} modes")


def phases(ctx, k, m, power):
    """all moments E[prod d_i^a_i] with |a_i| <= power, of two consecutive calls"""
    W = ctx.world(k * 20 + m)

    def run():
        U = ctx.program()[UTIL]
        return [U.generate_random_phases_matrix_for_first_m_modes(k, m) for _ in range(2)]
    pl = {"kind": "matrices", "what": "phases", "k": k, "m": m}
    ctx.validate(pl)
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(f"k={k} m={m}: {lf.value!r}", pl)
        if lf.weights:
            raise Undecided("the phases are chosen by branching")
        As = [np.asarray(x, dtype=object) for x in lf.value]
        ph = sorted(set(lf.phases.values()))
        for A in As:
            if A.shape != (m, m):
                raise Violation(f"shape {A.shape}", pl)
            for a in range(m):
                for b in range(m):
                    if a != b or a >= k:
                        if not C.claim_equal(ctx, A[a][b], S.c(int(a == b))):
                            raise Violation(f"k={k} m={m} entry {a},{b}: {A[a][b]!r}", pl)
        d = [As[0][i][i] for i in range(k)] + [As[1][i][i] for i in range(k)]
        d = [S.of(x) for x in d]
        for x in d:
            if not C.claim_equal(ctx, x * x.conjugate(), S.c(1), kind="modulus"):
                raise Violation(f"k={k} m={m}: modulus of {x!r}", pl)
        # exponents: single coordinates, and pairs (pairwise and joint products)
        exps = []
        for i in range(2 * k):
            for e in range(1, power + 1):
                exps.append({i: e})
            for j in range(i):
                for e in (1, 2):
                    for f in (-2, -1, 1, 2):
                        exps.append({i: e, j: f})
        if k:
            exps += [{i: 1 for i in range(2 * k)}, {i: (-1) ** i for i in range(2 * k)}, {i: 1 if i < k else -1 for i in range(2 * k)}]
        for ex in exps:
            t = S.c(1)
            for i, e in ex.items():
                t = t * (d[i] ** e if e > 0 else d[i].conjugate() ** (-e))
            if not C.claim_equal(ctx, C.phase_average(t, ph), S.c(0), kind="moment"):
                raise Violation(f"k={k} m={m}: moment {ex} does not vanish", pl)
        if k == 0:
            ctx.claims += 1
    ctx.sample(f"random phases on the first {k} of {m} modes")


def scenarios(tier):
    out = []
    for m in range(1, 8 if tier == "quick" else 13):
        for k in range(0, m + 1):
            out.append(Scenario(f"qft {k} of {m}", qft, (k, m, False), bounds=f"QFT on {k} of {m} modes"))
    for k in range(0, 13 if tier == "quick" else 20):
        out.append(Scenario(f"qft {k}", qft, (k, k, True), bounds=f"{k}-point QFT"))
    for m in range(1, 5 if tier == "quick" else 7):
        for k in range(0, m + 1):
            out.append(Scenario(f"phases {k} of {m}", phases, (k, m, 3), bounds=f"phases on {k} of {m} modes, moments up to order 3"))
    return out
