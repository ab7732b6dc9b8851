"""C12: the distribution accumulated by the uniform-loss sampler is the exact one."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1)",
               "the accumulation loop is random: paths with more random decisions than stated are outside the bound (prefixes of them are inside)",
               "numpy.isclose with its default tolerances is modelled as equality (exact arithmetic)",
               "eta is symbolic in (0,1), or the stated number; the unweighted variant is claimed for at least one input particle and outcomes with at "
               "least one particle (its vacuum entry stays at its initial value)"]


def check(ctx, mode, fam, s, eta, p):
    p = dict(p)
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    W.control.cut_draws = p.get("draws", 10)
    M = matrix_of(W, fam, m)
    e = eta_of(W, eta)
    flag, acc = p.get("flag", False), p.get("acc")
    acc = Fraction(acc) if acc is not None else None
    before = p.get("before", [])
    calc = p.get("calc", "ryser")
    form = p.get("form", "list")

    def payload(r):
        pt = witness(r)
        return {"kind": "accumulated", "mode_": mode, "matrix": C.numeric(M, pt), "input": s, "eta": C.value(e, pt).real, "flag": flag,
                "acc": None if acc is None else float(acc), "before": before, "calc": calc, "form": form, "samples": p.get("samples", 1)}
    ctx.validate(payload)
    plainw = mode in ("unweighted", "during-unweighted")
    ref = []
    for l in range(n + 1):
        law = C.fixed_loss_law(M, s, l)
        w = S.c(1) if plainw else S.of(e) ** l * (S.c(1) - e) ** (n - l) * math.comb(n, l)
        ref += [(t, law[t] * w) for t in C.states(l, m)]
    # the missing entries are probabilities
    W.nonneg_hints += [q.n for _, q in ref if q.n and not q.d]

    def run():
        prog = ctx.program()
        st = build(prog, "ugcc", copy_matrix(M), calc, eta=e)
        st.missing_values_in_distribution = flag
        for b in before:
            st.simulate(state(b, form), 1)
        inp = state(s, form)
        a = () if acc is None else (acc,)
        if mode == "weighted":
            out = st.compute_distribution_up_to_accuracy(inp, *a)
        elif mode == "unweighted":
            out = st.compute_unweighted_distribution_up_to_accuracy(inp, *a)
        else:
            st.simulate(inp, p.get("samples", 1))
            out = st.distribution if mode == "during" else st.unweighted_distribution
        if plain(inp) != tuple(s):
            return "the input was modified"
        return [S.of(x) for x in list(out)]
    name = f"{mode} {fam} {s} eta={eta} {p}"
    init = -1 if flag else 0
    known = {}
    paths = 0
    for r, lf in leaves_of(ctx.explore(run)):
        paths += 1

        def bad(what):
            raise Violation(f"{name}: {what}"[:400], payload(r))
        if isinstance(lf.value, (Raised, str)):
            bad(repr(lf.value))
        got = lf.value
        ctx.claims += 1
        if len(got) != len(ref):
            bad(f"{len(got)} entries for {len(ref)} outcomes")
        tot, exact = S.c(0), True
        for i, (x, (t, q)) in enumerate(zip(got, ref)):
            if plainw and i == 0:
                continue
            k = (id(r), i, x.key())
            if k not in known:
                if x.is_const() and x.const() == init and not (q.is_const() and q.const() == init):
                    known[k] = None        # not reached
                else:
                    known[k] = C.claim_equal(ctx, x, q, what=f"{name} {t}")
            if known[k] is False:
                bad(f"entry of {t} is {x!r}")
            if known[k] is None:
                exact = False
            else:
                tot = tot + q
        if mode in ("weighted", "unweighted"):
            # what is missing may not exceed the accuracy asked for
            need = (1 if acc is None else acc) * (n if plainw else 1)
            k = (id(r), "total", tot.key())
            if k not in known:
                known[k] = exact or enough(ctx, tot - need)
            if not known[k]:
                bad(f"entries add up to {tot!r}, asked for {need}")
    if not paths:
        raise Undecided("no path within the bound on random decisions")
    ctx.sample(f"{name}: {len(ref)} outcomes, {paths} paths within {W.control.cut_draws} random decisions")


def enough(ctx, v):
    """v >= 0 up to the default tolerance of isclose"""
    v = S.of(v) + Fraction(1, 10 ** 7)
    try:
        return C.claim_nonneg(ctx, v)
    except Undecided:
        e = sym.expand(v)
        return C.claim_nonneg(ctx, e)


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(mode, fam, s, eta="sym", **p):
        tag = " ".join(f"{k}={v}" for k, v in p.items())
        out.append(Scenario(f"{mode} {fam} {s} eta={eta} {tag}".strip(), check, (mode, fam, s, eta, p), cap=400 if not big else 4000,
                            bounds=f"{mode}: {fam} interferometer, input {s}, eta {eta}, at most {p.get('draws', 10)} random decisions {tag}".strip()))
    for mode in ("weighted", "unweighted"):
        for s in [(1,), (2,), (3,), (1, 0), (0, 1), (1, 0, 0), (0, 0, 1)]:
            add(mode, "unitary", s)
        for s in [(1, 1), (2, 0), (0, 2)]:
            add(mode, "unitary", s, eta="1", draws=8 if not big else 12)
            add(mode, "unitary", s, draws=10 if not big else 14)
        for fam in ("identity", "cycle", "rational"):
            for s in [(1, 1), (0, 2), (1, 0, 1), (2, 1)]:
                if fam == "rational" and sum(s) + len(s) > 4:
                    continue
                add(mode, fam, s, eta="1/2" if fam == "rational" else "sym", draws=9 if not big else 13)
        add(mode, "rational", (2, 1), eta="1", draws=10 if not big else 14)
        add(mode, "rational", (1, 0, 1), eta="1", draws=10 if not big else 13)
        add(mode, "rational", (1, 1), eta="1", acc="1/2", draws=8)
        add(mode, "rational", (2, 0), eta="1/3", acc="9/10", draws=9)
        add(mode, "rational", (2, 0), eta="1/3", acc="1/10", draws=9)
        add(mode, "unitary", (4,))
        add(mode, "unitary", (5,))
        add(mode, "small300", (1, 0), eta="1/2", draws=9)
        add(mode, "small300", (1, 1), eta="1", draws=8)
        for calc in ("classic", "glynn", "chinhuh"):
            add(mode, "unitary", (1, 0), calc=calc)
            add(mode, "rational", (1, 1), eta="1/2", calc=calc, draws=8)
        for form in ("tuple", "array"):
            add(mode, "unitary", (0, 1), form=form)
        add(mode, "unitary", (0, 1), before=[(1, 0)])
        add(mode, "unitary", (1, 0), before=[(1, 1)], draws=8)
        add(mode, "rational", (1, 1), eta="1/2", before=[(2, 0)], draws=12)
    for eta in ("0", "1"):
        for s in [(1,), (1, 0), (1, 1)]:
            add("weighted", "unitary", s, eta=eta, draws=8)
    add("weighted", "unitary", (0, 0))
    for s in [(1,), (1, 0), (1, 1)]:
        add("weighted", "unitary", s, flag=True, draws=9)
    for mode in ("during", "during-unweighted"):
        for s in [(1,), (2,), (1, 0), (1, 1), (2, 0), (0, 2), (1, 0, 1)] + ([(2, 1), (1, 1, 1)] if big else []):
            add(mode, "unitary", s)
            add(mode, "unitary", s, flag=True)
        for s in [(1, 1), (2, 1), (1, 1, 1), (0, 2, 1), (2, 2), (4, 0), (1, 3), (2, 1, 1), (2, 2, 0), (0, 0, 4), (1, 1, 1, 1)]:
            if sum(s) > 3:
                add(mode, "rational", s, eta="1", draws=14)
                continue
            add(mode, "rational", s, eta="1/2", draws=12)
            add(mode, "rational", s, eta="sym", draws=12)
        add(mode, "rational", (1, 1), eta="1/2", samples=2, draws=12)
        add(mode, "rational", (0, 1), eta="1/2", before=[(1, 1)], draws=12)
        add(mode, "unitary", (0, 1), before=[(1, 1)], draws=12)
    return out
