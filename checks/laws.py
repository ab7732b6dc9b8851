"""Laws of the sampling strategies: executed symbolically over all random draws, compared with the reference law."""
from .common import *

SS = "simulation_strategies."
GCC = (SS + "generalized_cliffords_simulation_strategy", "GeneralizedCliffordsSimulationStrategy")
GCCB = (SS + "generalized_cliffords_b_simulation_strategy", "GeneralizedCliffordsBSimulationStrategy")
MAGCC = (SS + "mode_assignment_generalized_cliffords_simulation_strategy",
         "ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface")
UGCC = (SS + "generalized_cliffords_uniform_losses_simulation_strategy", "GeneralizedCliffordsUniformLossesSimulationStrategy")
UGCCB = (SS + "generalized_cliffords_b_uniform_losses_simulation_strategy",
         "GeneralizedCliffordsBUniformLossesSimulationStrategy")
LNGCC = (SS + "lossy_networks_generalized_cliffords_simulation_strategy", "LossyNetworksGeneralizedCliffordsSimulationStrategy")
BOBS = (SS + "nonuniform_losses_approximation_strategy", "NonuniformLossesApproximationStrategy")
UBOBS = (SS + "lossy_state_approximated_simulation_strategy", "LossyStateApproximationSimulationStrategy")
FLOSS = (SS + "fixed_loss_simulation_strategy", "FixedLossSimulationStrategy")
ULOSS = (SS + "uniform_loss_simulation_strategy", "UniformLossSimulationStrategy")
CCR = (SS + "cliffords_r_simulation_strategy", "CliffordsRSimulationStrategy")


def build(prog, which, M, calc="ryser", given=None, **k):
    """a strategy over the interferometer M; k: eta, left, k (approximated modes / level), threads"""
    pc = given if given is not None else new_calc(prog, calc, M)
    if which == "gcc":
        return klass(prog, GCC)(pc)
    if which == "gccb":
        return klass(prog, GCCB)(pc)
    if which == "magcc":
        return klass(prog, MAGCC)(pc)
    if which == "ugcc":
        return klass(prog, UGCC)(pc, k["eta"])
    if which == "ugccb":
        return klass(prog, UGCCB)(pc, k["eta"])
    if which == "lngcc":
        return klass(prog, LNGCC)(pc)
    if which == "bobs":
        return klass(prog, BOBS)(pc, k["k"], k.get("threads", 1))
    if which == "ubobs":
        return klass(prog, UBOBS)(pc, k["eta"], k["k"], k.get("threads", 1))
    if which == "ccr":
        return klass(prog, CCR)(M)
    if which == "floss":
        net = k.get("net")
        if net:
            net = net(prog, M)
        return klass(prog, FLOSS)(M, k["left"], len(M), net)
    if which == "uloss":
        return klass(prog, ULOSS)(M, len(M), k["eta"])
    raise KeyError(which)


# ------------------------------------------------------------------ interferometers
def family(W, fam, m):
    """symbolic interferometers: generic unitary, or structured ones with exact zeros"""
    if fam == "unitary":
        return W.unitary("U", m)
    if fam == "identity":
        return arr([[int(i == j) for j in range(m)] for i in range(m)])
    if fam == "cycle":
        return arr([[int(i == (j + 1) % m) for j in range(m)] for i in range(m)])
    if fam == "block":
        # a generic unitary on the first m-1 modes, the last one decoupled
        U = W.unitary("U", m - 1)
        return arr([[U[i][j] if i < m - 1 and j < m - 1 else int(i == j) for j in range(m)] for i in range(m)])
    if fam == "block-last":
        U = W.unitary("U", m - 1)
        return arr([[U[i - 1][j - 1] if i and j else int(i == j) for j in range(m)] for i in range(m)])
    if fam == "rational":
        # a fixed dense orthogonal matrix with rational entries
        f = Fraction
        if m == 1:
            return arr([[f(-1)]])
        if m == 2:
            return arr([[f(3, 5), f(-4, 5)], [f(4, 5), f(3, 5)]])
        if m == 3:
            return arr([[f(2, 3), f(-1, 3), f(2, 3)], [f(2, 3), f(2, 3), f(-1, 3)], [f(-1, 3), f(2, 3), f(2, 3)]])
        if m == 4:
            return arr([[f(1, 2) * x for x in r] for r in ((1, 1, 1, 1), (1, -1, 1, -1), (1, 1, -1, -1), (1, -1, -1, 1))])
    if fam == "fourier" and m == 4:
        # entries of the same moduli as those of the rational one
        ws = [S.c(1), S.I(), S.c(-1), -S.I()]
        return arr([[ws[i * j % 4] * Fraction(1, 2) for j in range(4)] for i in range(4)])
    if fam == "turned":
        return arr([list(c) for c in zip(*family(W, "rational", m))])
    if fam in ("plus", "minus"):
        # lossy, entries of the same moduli
        r = S.c(Fraction(1, 2)).sqrt()
        W.svd_candidates.append([[r, r], [r, -r]])
        f = Fraction(9, 20)
        return arr([[f, f], [f, f if fam == "plus" else -f]])
    if fam.startswith("small"):
        return weak(m, int(fam[5:]))
    raise KeyError(fam)


def occ(v):
    """key of a sample: occupation, or a marker for something that is not one"""
    try:
        return plain(v)
    except (ValueError, TypeError):
        return ("not an occupation", repr(v)[:80])


def compare_laws(ctx, law, ref, payload, r, what):
    """law of the code against the reference in one parameter region"""
    for t, p in sorted(law.items(), key=str):
        if t not in ref:
            if not C.claim_equal(ctx, p, S.c(0)):
                raise Violation(f"{what}: outcome {t} with probability {p!r}"[:400], payload(r))
    for t, p in ref.items():
        if not C.claim_equal(ctx, law.get(t, S.c(0)), p, what=f"{what} {t}"):
            raise Violation(f"{what}: P{t}={law.get(t, 0)!r}"[:400], payload(r))


def obligations(ctx, r, payload, what):
    """weights handed to numpy's choice have to be probabilities"""
    seen = set()
    for lf in r.leaves:
        for kind, data in lf.obligations:
            if kind != "choice-weights":
                continue
            key = tuple(x.key() for x in data)
            if key in seen:
                continue
            seen.add(key)
            tot = S.c(0)
            for x in data:
                tot = tot + x
            if not C.claim_equal(ctx, tot, S.c(1), kind="weights"):
                raise Violation(f"{what}: weights of a random choice sum to {tot!r}"[:300], payload(r))


# ------------------------------------------------------------------ lossy interferometers
def lossy_family(W, fam, m):
    """matrix V diag(s) U with ordered symbolic singular values; returns (matrix, singular values)
    fam: <left><right>-<values>; left/right: g generic unitary, i identity, r rational rotation;
    values: per singular value '1' (no loss), 's' symbolic in (0,1], '0' blocked, '=' equal to the one before"""
    sides, vals = fam.split("-")

    def side(c, name):
        if c == "g":
            return W.unitary(name, m)
        if c == "i":
            return family(W, "identity", m)
        if c == "c":
            return family(W, "cycle", m)
        if c == "w":
            return family(W, "small500", m)
        return family(W, "rational", m)
    V, U = side(sides[0], "V"), side(sides[1], "U")
    s, cur = [], S.c(1)
    for i, c in enumerate(vals):
        if c == "s":
            cur = cur * W.real(f"b{i}", 0, 1, strict=True)
        elif c == "0":
            cur = S.c(0)
        elif c == "h":
            cur = cur * Fraction(1, 2)
        elif c == "t":
            cur = cur * Fraction(1, 1000)
        elif c == "e":
            cur = cur * Fraction(2999999, 3000000)
        elif c == "n":
            cur = cur * Fraction(99999, 100000)
        s.append(cur)
    W.svd_candidates.append([[S.of(V[i][j]) for j in range(m)] for i in range(m)])
    M = [[sum((S.of(V[i][k]) * s[k] * S.of(U[k][j]) for k in range(m)), S.c(0)) for j in range(m)] for i in range(m)]
    W.contraction = [[S.of(U[i][j]) for j in range(m)] for i in range(m)], s
    return arr(M), s


# ------------------------------------------------------------------ reference laws
def averaged(law, phases):
    idx = [sym.W.by_name[p].idx for p in phases]
    return {t: C.phase_average(p, idx) for t, p in law.items()}


def superposition_reference(M, s, approx, eta=None):
    """particles of the modes `approx` in one uniform superposition with random phases, the rest exact, then the channel"""
    W = sym.W
    m, k = len(s), len(approx)
    scale = S.c(1) if eta is None else S.of(eta).sqrt()
    if k == 0:
        return C.channel_law([[S.of(M[i][j]) * scale for j in range(m)] for i in range(m)], s)
    names = []
    ph = []
    for i in range(k):
        if i == 0:
            ph.append(S.c(1))       # a common phase does not matter
            continue
        W.phase(f"ref{i}")
        names.append(f"ref{i}")
        ph.append(S.from_atom(W.by_name[f"ref{i}"]))
    norm = S.c(Fraction(1, k)).sqrt() * scale
    rest = [j for j in range(m) if j not in approx]
    B = []
    for i in range(m):
        c = S.c(0)
        for e, j in zip(ph, approx):
            c = c + e * S.of(M[i][j])
        B.append([c * norm] + [S.of(M[i][j]) * scale for j in rest])
    st = (sum(s[j] for j in approx),) + tuple(s[j] for j in rest)
    return averaged(C.channel_law(B, st), names)


def mean_field_reference(M, n, left, eta=None):
    W = sym.W
    m = len(M)
    names, ph = [], []
    for i in range(n):
        if i == 0:
            ph.append(S.c(1))
            continue
        W.phase(f"ref{i}")
        names.append(f"ref{i}")
        ph.append(S.from_atom(W.by_name[f"ref{i}"]))
    q = []
    for i in range(m):
        a = S.c(0)
        for j in range(n):
            a = a + ph[j] * S.of(M[i][j])
        q.append(a * a.conjugate() / max(n, 1))
    miss = S.c(1)
    for x in q:
        miss = miss - x
    out = {}
    for l in ([left] if eta is None else range(n + 1)):
        w = S.c(1) if eta is None else S.of(eta) ** l * (S.c(1) - eta) ** (n - l) * math.comb(n, l)
        for t in C.states(l, m + 1):
            p = w * Fraction(C.fact(l), C.fact(*t))
            for x, k in zip(q + [miss], t):
                if k:
                    p = p * x ** k
            out[t[:m]] = out[t[:m]] + p if t[:m] in out else p
    return averaged(out, names)


def reference(which, M, s, p):
    m, n = len(s), sum(s)
    if which in ("gcc", "gccb", "magcc", "ccr"):
        return C.lossless_law(M, s)
    if which in ("ugcc", "ugccb"):
        return C.uniform_law(M, s, p["eta"])
    if which == "lngcc":
        return C.channel_law(M, s)
    if which == "bobs":
        return superposition_reference(M, s, list(range(min(max(p["k"], 0), m))))
    if which == "ubobs":
        k = p["k"] if 0 <= p["k"] < m else m
        return superposition_reference(M, s, list(range(k, m)), p["eta"])
    if which == "floss":
        return mean_field_reference(M, n, p["left"])
    if which == "uloss":
        return mean_field_reference(M, n, None, p["eta"])
    raise KeyError(which)


def matrix_of(W, fam, m):
    if "-" in fam and fam not in ("block-last",):
        return lossy_family(W, fam, m)[0]
    return family(W, fam, m)


def eta_of(W, e):
    return W.real("eta", 0, 1, strict=True) if e == "sym" else S.c(Fraction(e))


def law_check(ctx, which, fam, s, calc="ryser", form="list", **p):
    """one sample of a fresh strategy: the whole law, over all draws and phases"""
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    M = matrix_of(W, fam, m)
    if "eta" in p:
        p["eta"] = eta_of(W, p["eta"])
    nets = {"lossless": lambda prog, M: prog["network_simulation_strategy.lossless_network_simulation_strategy"]
            .LosslessNetworkSimulationStrategy(M)}
    q = dict(p)
    if p.get("net"):
        q["net"] = nets[p["net"]]

    def run():
        prog = ctx.program()
        st = build(prog, which, copy_matrix(M), calc, **q)
        out = list(st.simulate(state(s, form), 1))
        if len(out) != 1:
            return ("number of samples", len(out))
        return occ(out[0])

    def payload(r):
        pt = witness(r)
        d = {"kind": "law", "which": which, "calc": calc, "matrix": C.numeric(M, pt), "input": s, "form": form}
        d.update({k: (C.value(v, pt).real if isinstance(v, S) else v) for k, v in p.items()})
        return d
    name = f"{which} {calc} {fam} {s} {p}"
    ctx.validate(payload)
    regs = ctx.explore(run)
    ref = reference(which, M, s, p)
    for r in regs:
        with C.within(r):
            obligations(ctx, r, payload, name)
            compare_laws(ctx, C.region_law(r), ref, payload, r, name)
    ctx.sample(f"{name}: {len(ref)} outcomes, {sum(len(r.leaves) for r in regs)} paths"[:300])


def sc(which, fam, s, cap=240, **p):
    tag = " ".join(f"{k}={v}" for k, v in p.items())
    return Scenario(f"{which} {fam} {s} {tag}".strip(), _run, (which, fam, s, p), cap=cap,
                    bounds=f"{which}: {fam} interferometer of {len(s)} modes, input {s} {tag}".strip())


def _run(ctx, which, fam, s, p):
    law_check(ctx, which, fam, s, **dict(p))


# ------------------------------------------------------------------ histories
def product_law(laws):
    out = {(): S.c(1)}
    for law in laws:
        out = {a + (t,): p * q for a, p in out.items() for t, q in law.items()}
    return out


def overwrite(x):
    """what a caller may do to a sample it was given"""
    if isinstance(x, (list, np.ndarray)) and len(x):
        try:
            x[:] = [5] * len(x)
        except ValueError:
            pass


def history_check(ctx, which, fam, calls, calc="ryser", form="list", cpus=4, sim=False, keep_calc=True, **p):
    """joint law of all samples of a sequence of calls on one object.
    calls: (input, number of samples, family of a newly set matrix or None); "new:family" stands for another object of the
    same program over that interferometer"""
    m = len(calls[0][0])
    W = ctx.world(m * 10 + sum(calls[0][0]))
    W.control.cpu_count = cpus
    M = matrix_of(W, fam, m)
    if "eta" in p:
        p["eta"] = eta_of(W, p["eta"])
    news = {f: matrix_of(W, f.split(":")[-1], m) for _, _, f in calls if f}

    def run():
        prog = ctx.program()
        mat = copy_matrix(M)
        pc = new_calc(prog, calc, mat)
        st = build(prog, which, mat, calc, given=pc, **p)
        ask = prog["boson_sampling_simulator"].BosonSamplingSimulator(st).get_classical_simulation_results if sim else st.simulate
        out, inp = [], None
        for s, k, f in calls:
            if f and f.startswith("new:"):
                st = build(prog, which, copy_matrix(news[f]), calc, **p)
                ask = prog["boson_sampling_simulator"].BosonSamplingSimulator(st).get_classical_simulation_results if sim else st.simulate
            elif f and f.startswith("inplace:"):
                # the caller overwrites the array it gave before and hands it in again
                for i in range(m):
                    for j in range(m):
                        mat[i][j] = news[f][i][j]
                (st.set_matrix if which == "ccr" else st.set_new_matrix)(mat)
            elif f:
                (st.set_matrix if which == "ccr" else st.set_new_matrix)(copy_matrix(news[f]))
            if inp is None or not form.startswith("reused"):
                inp = state(s, form.replace("reused", "").strip() or "list")
            else:       # the caller keeps one input object and overwrites it
                inp[:] = state(s, "list")
            res = list(ask(inp, k))
            if len(res) != k:
                return ("number of samples", len(res), k)
            out.extend(occ(x) for x in res)
            if plain(inp) != tuple(s):
                return ("input modified", plain(inp))
            if form.startswith("reused"):
                for x in res:
                    overwrite(x)
        if not news and not same_matrix(mat, M):
            return ("matrix modified",)
        if which == "lngcc" and not any(f.startswith("inplace:") for f in news) and not same_matrix(pc.matrix, M):
            return ("matrix of the given calculator modified",)
        return tuple(out)

    def payload(r):
        pt = witness(r)
        d = {"kind": "law", "which": which, "calc": calc, "matrix": C.numeric(M, pt), "form": form, "sim": sim, "history": True,
             "calls": [{"input": s, "samples": k, "matrix": C.numeric(news[f], pt) if f else None,
                        "new": bool(f) and f.startswith("new:"), "inplace": bool(f) and f.startswith("inplace:")} for s, k, f in calls], "cpus": cpus}
        d.update({k: (C.value(v, pt).real if isinstance(v, S) else v) for k, v in p.items()})
        return d
    name = f"{which} {fam} {calls} {p}"
    ctx.validate(payload)
    regs = ctx.explore(run)
    laws, cur = [], M
    for s, k, f in calls:
        if f:
            cur = news[f]
        one = reference(which, cur, s, p)
        laws += [one] * k
    ref = product_law(laws)
    for r in regs:
        with C.within(r):
            obligations(ctx, r, payload, name)
            compare_laws(ctx, C.region_law(r), ref, payload, r, name)
    ctx.sample(f"{name}: joint law of {len(laws)} samples, {sum(len(r.leaves) for r in regs)} paths"[:300])


def hs(which, fam, calls, cap=240, **p):
    tag = " ".join(f"{k}={v}" for k, v in p.items())
    txt = "; ".join(f"{k} x {s}" + ("" if not f else f" by a new object over {f[4:]}" if f.startswith("new:") else f" after set_new_matrix({f})") for s, k, f in calls)
    return Scenario(f"{which} {fam} [{txt}] {tag}".strip(), _hrun, (which, fam, calls, p), cap=cap,
                    bounds=f"{which}: {fam} interferometer, calls {txt} {tag}".strip())


def _hrun(ctx, which, fam, calls, p):
    history_check(ctx, which, fam, calls, **dict(p))
