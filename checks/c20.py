"""C20: network strategies act as the given matrix on single-particle amplitudes."""
from .laws import *

ASSUMPTIONS = ["numpy's svd is a contract stub (see C19)", "amplitude vectors have free complex entries; the lossless strategy gets a free complex matrix"]
LOSSLESS = ("network_simulation_strategy.lossless_network_simulation_strategy", "LosslessNetworkSimulationStrategy")
LOSSY = ("network_simulation_strategy.lossy_network_simulation_strategy", "LossyNetworkSimulationStrategy")


def check(ctx, which, fam, m, form, calls):
    W = ctx.world(m)
    M = generic_matrix(W, m) if fam == "generic" else matrix_of(W, fam, m)
    M2 = matrix_of(W, "rational" if fam != "rational" else "cycle", m) if isinstance(calls, str) and m < 5 else None
    if form == "occupation":
        vecs = [[S.c((i + q) % 3) for i in range(m)] for q in range(calls)]
    elif isinstance(calls, str):
        x = [W.cplx(f"x{i}") for i in range(m)]
        vecs = [x, [-c for c in x], [c * S.I() for c in x], x[::-1], [c.conjugate() for c in x], [c * 2 for c in x], x]
    else:
        vecs = [[W.cplx(f"x{q}_{i}") for i in range(m)] for q in range(calls)]

    def payload(r):
        pt = witness(r)
        return {"kind": "network", "which": which, "matrix": C.numeric(M, pt), "vectors": C.numeric(vecs, pt), "form": form,
                "reused": calls == "reused", "other": C.numeric(M2, pt) if M2 is not None else None}
    ctx.validate(payload)

    def run():
        prog = ctx.program()
        A = copy_matrix(M)
        if M2 is not None:      # another network of the same program
            klass(prog, LOSSLESS if which == "lossless" else LOSSY)(copy_matrix(M2)).simulate(state(vecs[0], "array"))
        st = klass(prog, LOSSLESS if which == "lossless" else LOSSY)(A)
        out, x = [], None
        for v in vecs:
            if form == "occupation":
                x = [int(c.const()) for c in v]
            else:
                y = state(v, form)
                if calls == "reused" and x is not None:
                    x[:] = y        # the caller keeps one vector and overwrites it
                else:
                    x = y
            before = [S.of(c).key() for c in x]
            y = st.simulate(x)
            if [S.of(c).key() for c in x] != before or len(x) != m:
                return "the input was modified"
            if not same_matrix(A, M):
                return "the matrix was modified"
            out.append(np.array(y, dtype=object))
            if isinstance(calls, str) and isinstance(y, np.ndarray):
                y[...] = 7      # results belong to the caller
        return out
    name = f"{which} {fam} m={m} {form}"
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, (Raised, str)):
            raise Violation(f"{name}: {lf.value!r}", payload(r))
        for v, y in zip(vecs, lf.value):
            ctx.claims += 1
            if y.shape != (m,):
                raise Violation(f"{name}: result of shape {y.shape}", payload(r))
            for i in range(m):
                t = S.c(0)
                for j in range(m):
                    t = t + S.of(M[i][j]) * v[j]
                if not C.claim_equal(ctx, S.of(y[i]), t, what=f"{name} entry {i}"):
                    raise Violation(f"{name}: entry {i} is {S.of(y[i])!r}"[:300], payload(r))
    ctx.sample(name)


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(which, fam, m, form, calls=1):
        out.append(Scenario(f"{which} {fam} m={m} {form} calls={calls}", check, (which, fam, m, form, calls), cap=600,
                            bounds=f"{which}: {fam} matrices of size {m}, {calls} vectors"))
    for m in (1, 2, 3, 4, 5) + ((6, 8) if big else ()):
        for form in ("array", "list", "tuple", "occupation"):
            add("lossless", "generic", m, form)
        add("lossless", "generic", m, "array", 2)
    fams = {1: ["gg-s", "gg-0", "gg-1"], 2: ["gg-ss", "gg-1s", "gg-s0", "gg-s=", "gg-11", "gg-00", "ri-ss", "cr-ss", "ww-ht", "rr-tt", "rw-nn", "wi-1n", "rr-he", "wr-ee", "small30000"],
            3: ["gi-sss", "ig-sss", "ri-1ss", "ir-1s0", "rr-sss", "gi-11s", "rr-000", "gg-sss", "ww-hnt", "rr-1n0", "small30000"], 4: ["ri-ssss", "rr-1ss0", "gi-ssss"]}
    for m, fs in fams.items():
        for f in fs + ["unitary", "identity", "cycle", "rational"]:
            for form in ("array", "list", "tuple", "occupation") if m < 3 or f in ("unitary", "rr-sss") else ("array", "list"):
                add("lossy", f, m, form)
        add("lossy", "rational", m, "array", 2)
        if m < 4:
            for f in ("rational", fs[0], "identity"):
                add("lossy", f, m, "array", "related")
                add("lossy", f, m, "array", "reused")
            add("lossy", fs[0], m, "list", "reused")
            add("lossless", "generic", m, "array", "related")
            add("lossless", "generic", m, "list", "reused")
        add("lossy", fs[0], m, "array", 2)
    return out
