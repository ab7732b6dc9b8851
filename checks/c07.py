"""C07: the i-th probability belongs to the i-th outcome; configurations stay isolated."""
from .common import *

ASSUMPTIONS = ["matrix entries are independent symbolic complex numbers; the lists asked for are the listed ones"]


def lists_for(m, l, kind):
    base = C.states(l, m)
    if kind == "reversed":
        return base[::-1]
    if kind == "partial":
        return base[1::2] or base
    if kind == "repeated":
        return [base[-1], base[0], base[-1], base[-1], base[0]]
    if kind == "empty":
        return []
    return base


def check(ctx, which, calc, s, ask, form):
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    M, N = generic_matrix(W, m), generic_matrix(W, m, "N")
    eta, eta2 = W.real("eta", 0, 1), W.real("eta2", 0, 1)
    left = n - 1 if which == "fixed" and n > 1 else n
    if which == "fixed":
        asked = lists_for(m, left, ask)
    else:
        asked = [t for l in ((n, 0, n - 1) if ask == "reversed" else (n - 1, n)) for t in lists_for(m, l, ask)]
    conv = {"list": lambda o: list(o), "tuple": tuple, "array": lambda o: shims._build(list(o))}[form]

    def run():
        prog = ctx.program()
        mat, st = copy_matrix(M), list(s)
        cfg = config(prog, mat, s, left, eta, initial_state=st)
        before = snapshot(cfg)
        d = klass(prog, FIXED if which == "fixed" else UNIFORM)(cfg, new_calc(prog, calc, copy_matrix(M)))
        given = [conv(o) for o in asked]
        p1 = list(d.calculate_probabilities_of_outcomes(given))
        dist1, o1 = list(d.calculate_distribution()), [plain(o) for o in d.get_outcomes_in_proper_order()]
        same = snapshot(cfg) == before and [plain(o) for o in given] == [tuple(o) for o in asked]
        # later changes of the caller's configuration, in place and by assignment
        mat[...] = np.asarray(N)
        st[0] += 1
        cfg.interferometer_matrix = copy_matrix(N)
        cfg.initial_state = [0] * m
        cfg.number_of_particles_left = 0
        cfg.initial_number_of_particles = 0
        cfg.uniform_transmissivity = eta2
        dist2, o2 = list(d.calculate_distribution()), [plain(o) for o in d.get_outcomes_in_proper_order()]
        p2 = list(d.calculate_probabilities_of_outcomes([conv(o) for o in asked]))
        return p1, dist1, o1, p2, dist2, o2, same

    def payload(pt):
        return {"kind": "distribution", "which": which, "calc": calc, "matrix": C.numeric(M, pt), "input": s, "left": left,
                "eta": C.value(eta, pt).real, "ask": asked, "form": form, "mutate": C.numeric(N, pt)}
    law = C.fixed_loss_law(M, s, left) if which == "fixed" else C.uniform_law(M, s, eta)
    ctx.validate(payload)
    for r, lf in leaves_of(ctx.explore(run)):
        v = lf.value
        if isinstance(v, Raised):
            raise Violation(f"{which} {calc} {s}: {v!r}", payload(witness(r)))
        p1, dist1, o1, p2, dist2, o2, same = v
        ctx.claims += 1
        ok = same and len(p1) == len(p2) == len(asked) and len(o1) == len(o2) == len(dist1) == len(dist2)
        ok = ok and sorted(o1) == sorted(law) and o1 == o2
        for got, keys in ((p1, asked), (dist1, o1), (p2, asked), (dist2, o2)):
            ok = ok and all(C.claim_equal(ctx, p, law[tuple(t)]) for t, p in zip(keys, got))
        if not ok:
            raise Violation(f"{which} {calc} {s} ask {ask}", payload(witness(r)))
    ctx.sample(f"{which} {calc} {s}: asked {asked}")


def scenarios(tier):
    out = []
    ins = [(1, 1, 1), (2, 1), (1, 0, 2), (3,), (0, 2, 1), (2, 2), (1, 0, 1, 0), (1, 3), (5,), (0, 1, 0), (2, 1, 1)]
    if tier == "thorough":
        ins += [(0, 4), (0, 2, 2), (1, 1, 1, 1), (0, 1, 2, 0), (2, 3), (1, 0, 1, 0, 1), (6,)]
    for which in ("fixed", "uniform"):
        for calc in CALCS:
            for s in ins:
                for ask in ("reversed", "partial", "repeated", "empty"):
                    form = {"reversed": "list", "partial": "tuple", "repeated": "array", "empty": "list"}[ask]
                    out.append(Scenario(f"{which} {calc} {s} {ask}", check, (which, calc, s, ask, form),
                                        bounds=f"input {s}, outcomes asked {ask} as {form}"))
    return out
