"""C32: the wrapper of the R sampler samples the requested input (the R sampler itself by its contract)."""
from .laws import *

ASSUMPTIONS = ["R's BosonSampling::bosonSampler and rpy2 are not there and are replaced by their documented contract: independent "
               "outcomes of the particles that enter by the given columns of a unitary matrix, as modes counted from one, sample "
               "by sample, with |permanent|^2 over the factorials of the outcome as the weight of an outcome",
               "an R matrix is filled column by column",
               "'unitary' means all entries of a unitary matrix in general position"]


def scenarios(tier):
    big = tier == "thorough"
    out = []
    ins = [s for m, n in [(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1)] for s in occupations(m, n)]
    ins += [(1, 1, 1), (2, 0, 1), (0, 1, 2), (0, 0, 3), (0, 1, 0, 1), (2, 0, 0, 0)]
    if big:
        ins += [s for s in occupations(3, 3) + occupations(4, 2) + occupations(2, 4) if s not in ins]
    for s in dict.fromkeys(ins):
        out.append(sc("ccr", "unitary", s, cap=400))
    for fam in ("identity", "cycle", "block", "rational"):
        for s in [(1, 1), (0, 2), (2, 1), (1, 0, 1), (0, 1, 1), (0, 2, 1), (1, 1, 0, 1), (0, 3, 0)]:
            if (fam, len(s)) != ("block", 2):
                out.append(sc("ccr", fam, s))
    for form in ("tuple", "array"):
        for s in [(1, 0, 1), (2, 1), (0, 1)]:
            out.append(sc("ccr", "unitary", s, form=form))
    for s, t in [((1, 1), (0, 2)), ((1, 0), (0, 1)), ((0, 1, 0), (1, 0, 1))]:
        out.append(hs("ccr", "rational", [(s, 2, None)]))
        out.append(hs("ccr", "rational", [(s, 1, None), (t, 1, None)]))
        out.append(hs("ccr", "identity", [(s, 1, None), (t, 1, "rational")]))
        out.append(hs("ccr", "rational", [(s, 1, None), (t, 1, None)], form="reused list"))
        out.append(hs("ccr", "identity", [(s, 1, None), (s, 1, "new:rational")]))
    out.append(hs("ccr", "rational", [((1, 1), 3, None)]))
    for s, ts in [((1, 0), [(0, 1)]), ((0, 1), [(1, 0)]), ((1, 1), [(1, 1)]), ((1, 1), [(2, 0)]), ((0, 2), [(1, 1)]),
                  ((2, 0), [(0, 2)]), ((0, 1, 1), [(1, 1, 0)]), ((0, 1), [(0, 1), (1, 0)])]:
        out.append(Scenario(f"find_probabilities {s} {ts}", probabilities, (s, ts), cap=240,
                            bounds=f"find_probabilities of {ts} for input {s}, unitary interferometer, outcomes that appear "
                                   "within the first three samplings"))
    for fam in ("rational", "identity", "unitary"):
        for s, k in [((0, 1), 1), ((0, 1), 2), ((1, 1), 1), ((1, 1), 2), ((0, 2), 1), ((0, 2), 2), ((1, 0, 1), 1), ((2, 0, 0), 1), ((3,), 1), ((3,), 4)]:
            if fam == "unitary" and k > 1:
                continue
            out.append(Scenario(f"random states {fam} {s} {k}", random_states, (fam, s, k), cap=240,
                                bounds=f"find_probabilities_of_n_random_states: {k} states for input {s}, {fam} interferometer, "
                                       "runs of at most four samplings"))
    return out


def random_states(ctx, fam, s, k):
    """as many distinct outcomes as asked for (or all there are), each with its probability"""
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    M = matrix_of(W, fam, m)
    W.control.cut_draws = 4

    def run():
        prog = ctx.program()
        out = build(prog, "ccr", copy_matrix(M)).find_probabilities_of_n_random_states(tuple(s), k)
        return {plain(t): S.of(p) for t, p in out.items()}

    def payload(r):
        return {"kind": "r_random_states", "which": "ccr", "matrix": C.numeric(M, witness(r)), "input": s, "number": k}
    ctx.validate(payload)
    ref = C.lossless_law(M, s)
    possible = sum(1 for p in ref.values() if not sym.is_zero(p))
    for r in ctx.explore(run):
        with C.within(r):
            for lf in r.leaves:
                if not isinstance(lf.value, dict) or len(lf.value) != min(k, possible) or not set(lf.value) <= set(ref):
                    raise Violation(f"random states {fam} {s} {k}: {lf.value!r}"[:300], payload(r))
                for t, p in lf.value.items():
                    if not C.claim_equal(ctx, p, ref[t]):
                        raise Violation(f"random states {fam} {s}: P{t}={p!r}"[:300], payload(r))


def probabilities(ctx, s, ts):
    """every probability returned is the one of that outcome for the requested input"""
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    M = matrix_of(W, "unitary", m)
    W.control.cut_draws = 3

    def run():
        prog = ctx.program()
        st = build(prog, "ccr", copy_matrix(M))
        out = st.find_probabilities(state(s, "list"), [tuple(t) for t in ts])
        return {plain(t): S.of(p) for t, p in out.items()}

    def payload(r):
        return {"kind": "r_probabilities", "which": "ccr", "matrix": C.numeric(M, witness(r)), "input": s, "outcomes": ts}
    ctx.validate(payload)
    ref = C.lossless_law(M, s)
    for r in ctx.explore(run):
        with C.within(r):
            for lf in r.leaves:
                if not isinstance(lf.value, dict) or sorted(lf.value) != sorted(ts):
                    raise Violation(f"find_probabilities {s} {ts}: {lf.value!r}"[:300], payload(r))
                for t, p in lf.value.items():
                    if not C.claim_equal(ctx, p, ref[t]):
                        raise Violation(f"find_probabilities {s}: P{t}={p!r}"[:300], payload(r))
