"""C17: every sampler returns the requested number of physically possible samples."""
from .laws import *
from .ints import *

ASSUMPTIONS = ["the number of samples and the number of workers are symbolic integers of the stated ranges",
               "all values of the random draws (branching); random phases and matrix entries are symbolic",
               "worker processes are run one after another on copies of the object"]
LOSSLESS = ("gcc", "gccb", "magcc")


def check(ctx, which, fam, s, top, p):
    p = dict(p)
    m, n = len(s), sum(s)
    W = ctx.world(m * 10 + n)
    cpus = W.control.cpu_count = p.pop("cpus", 4)
    form, sim = p.pop("form", "list"), p.pop("sim", False)
    M = matrix_of(W, fam, m)
    if "eta" in p:
        p["eta"] = eta_of(W, p["eta"])
    lo = p.pop("least", 0)
    N = fresh("N", lo, top)
    th = p.pop("threads", 1)
    T = fresh("T", *th) if isinstance(th, tuple) else th

    def payload(r, pc=None):
        pt = witness(r)
        md = symint.prove(ctx, z3.BoolVal(False), pc) if pc is not None else None
        ev = lambda x, d: x if isinstance(x, int) else (md.eval(x.t, model_completion=True).as_long() if md is not None else d)
        d = {"kind": "counts", "which": which, "matrix": C.numeric(M, pt), "form": form, "sim": sim, "cpus": cpus,
             "calls": [{"input": s, "samples": ev(N, top)}], "threads": ev(T, 2)}
        d.update({k: (C.value(v, pt).real if isinstance(v, S) else v) for k, v in p.items()})
        return d
    ctx.validate(payload)

    def run():
        prog = ctx.program()
        q = dict(p)
        if which in ("bobs", "ubobs"):
            q["threads"] = T
        st = build(prog, which, copy_matrix(M), **q)
        ask = prog["boson_sampling_simulator"].BosonSamplingSimulator(st).get_classical_simulation_results if sim else st.simulate
        return [occ(x) for x in list(ask(state(s, form), N))]
    name = f"{which} {fam} {s} {p}"
    seen, paths = set(), 0
    for r, lf in leaves_of(ctx.explore(run)):
        paths += 1
        if isinstance(lf.value, Raised):
            raise Violation(f"{name}: {lf.value!r}", payload(r, lf.int_pc))
        got = lf.value
        if symint.prove(ctx, N.t == len(got), lf.int_pc) is not None:
            raise Violation(f"{name}: {len(got)} samples", payload(r, lf.int_pc))
        for t in got:
            if t in seen:
                continue
            if not possible(t, m, n, which in LOSSLESS):
                raise Violation(f"{name}: sample {t}", payload(r, lf.int_pc))
            seen.add(t)
    ctx.sample(f"{name}: {lo}..{top} samples, {paths} paths, {len(seen)} different samples")


def possible(t, m, n, exact):
    """one whole non-negative number per mode, no particle created"""
    if len(t) != m or any(not isinstance(x, int) for x in t):
        return False
    s = z3.Solver()
    v = [z3.IntVal(x) for x in t]
    s.add(z3.Or([x < 0 for x in v] + [z3.Sum(v) > n] + ([z3.Sum(v) != n] if exact else [])))
    return run_solver(s, "sample") == z3.unsat


def cs(which, fam, s, top, cap=300, **p):
    tag = " ".join(f"{k}={v}" for k, v in p.items())
    return Scenario(f"{which} {fam} {s} N<={top} {tag}".strip(), check, (which, fam, s, top, p), cap=cap,
                    bounds=f"{which}: {fam} interferometer of {len(s)} modes, input {s}, {p.get('least', 0)}..{top} samples {tag}".strip())


PAR = {"ugcc": {"eta": "sym"}, "ugccb": {"eta": "sym"}, "uloss": {"eta": "sym"}, "floss": {"left": 1}, "bobs": {"k": 1},
       "ubobs": {"k": 1, "eta": "sym"}}
ALL = ("gcc", "gccb", "magcc", "ugcc", "ugccb", "lngcc", "bobs", "ubobs", "floss", "uloss")


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for w in ALL:
        p = PAR.get(w, {})
        lossy = w in ("lngcc", "bobs", "floss", "uloss")
        for fam, s, top in [("unitary", (1, 1), 2), ("unitary", (0, 2, 0), 1), ("identity", (1, 2), 3 if w not in ("ugcc", "ubobs", "uloss") else 2),
                            ("cycle", (1, 0, 2), 1), ("unitary", (2, 1), 1), ("unitary", (0, 0), 3 if w not in ("floss", "uloss") else 0)]:
            if w in ("floss", "uloss") and (sum(s) > len(s) or not sum(s)):
                continue
            out.append(cs(w, fam, s, top + (1 if big else 0), **p))
        if lossy:
            for fam, s in (("gi-ss", (1, 1)), ("gi-s0", (2, 0)), ("gg-00", (1, 1)), ("gi-1s", (0, 2))):
                out.append(cs(w, fam, s, 1 if not big else 2, **p))
        for form in ("tuple", "array"):
            out.append(cs(w, "unitary", (1, 0), 2, form=form, **p))
        out.append(cs(w, "unitary", (1, 0), 2, sim=True, **p))
        # deterministic runs: many samples
        det = {**p, **({"eta": "1"} if "eta" in p else {}), **({"k": 0} if "k" in p else {})}
        out.append(cs(w, "identity", (1,), 12 if not big else 40, **det))
        if w in ("floss",):
            for left in range(4):
                out.append(cs(w, "unitary", (1, 1, 1), 1, left=left))
                out.append(cs(w, "gi-ss0", (1, 1, 1), 1, left=left))
    for cpus in (1, 2, 3, 8):
        for th in ((-1, 4), (1, 9)):
            if th[1] > 4 and cpus < 8:
                continue
            out.append(cs("bobs", "identity", (1,), 11 if not big else 40, k=0, cpus=cpus, threads=th, cap=600))
            out.append(cs("ubobs", "identity", (1,), 11 if not big else 40, k=0, eta="1", cpus=cpus, threads=th, cap=600))
    for k in range(-1, 4):
        out.append(cs("bobs", "unitary", (1, 1), 2, k=k, threads=(1, 2)))
        out.append(cs("ubobs", "unitary", (1, 1), 2, k=k, eta="sym", threads=(1, 2)))
    return out
