"""C25: state types are the distinct occupation patterns up to reordering of modes."""
from .ints import *

ASSUMPTIONS = ["numbers of particles and modes are symbolic integers within the stated bounds; on each path the solver is asked for a "
               "non-increasing occupation that is not listed (every occupation sorts to exactly one such vector)"]


def check(ctx, nlo, nhi, mlo, mhi, losses, again=False):
    W = ctx.world(nhi * 10 + mhi)
    n, m = fresh("n", nlo, nhi), fresh("m", mlo, mhi)

    def run():
        prog = ctx.program()
        if again:       # earlier calls, whose results the caller went on to change
            f = prog[UTIL].generate_state_types
            f(m, n, not losses)
            f(n + 1, m, bool(losses))
            scramble(f(m, n, bool(losses)))
        out = list(prog[UTIL].generate_state_types(m, n, losses) if losses is not None else prog[UTIL].generate_state_types(m, n))
        return int(n), int(m), whole(out)

    def payload(N, M):
        return {"kind": "enumeration", "what": "types", "n": N, "m": M, "losses": losses, "again": again}
    seen = set()
    ctx.validate(payload(nhi, mhi))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            ev = lambda x: md.eval(x.t, model_completion=True).as_long()
            raise Violation(f"{md}: {lf.value!r}", payload(ev(n), ev(m)))
        N, M, out = lf.value
        seen.add((N, M))
        st = out
        bad = st is None or any(len(v) != M for v in st)
        if not bad:
            def space(t):
                tot = z3.Sum(t)
                return [x >= 0 for x in t] + [a >= b for a, b in zip(t, t[1:])] + ([tot <= N] if losses else [tot == N])
            ctx.claims += 1
            bad = missing(ctx, M, space, st) or extra(ctx, M, space, st) or len(set(st)) != len(st)
        if bad:
            raise Violation(f"types of {N} particles in {M} modes, losses={losses}: {(out or [])[:20]}", payload(N, M))
    miss = symint.prove(ctx, z3.Or([z3.And(n.t == a, m.t == b) for a, b in seen]))
    if miss is not None:
        raise Undecided(f"size not explored: {miss}")
    ctx.sample(f"sizes {sorted(seen)[:6]}... losses={losses}")


def scenarios(tier):
    out = []
    top = ([(0, 5, 1, 5), (6, 9, 1, 4), (0, 3, 6, 9), (10, 12, 2, 3), (6, 8, 5, 8)] if tier == "quick" else
           [(0, 6, 1, 6), (7, 12, 1, 4), (0, 4, 7, 12), (10, 20, 2, 3), (7, 11, 5, 9)])
    for b in top:
        for losses in (False, True, None):
            out.append(Scenario(f"n {b[0]}..{b[1]} m {b[2]}..{b[3]} losses={losses}", check, b + (losses,),
                                bounds=f"{b[0]}<=n<={b[1]}, {b[2]}<=m<={b[3]}, losses={losses}"))
    for b, losses in [((0, 4, 1, 4), False), ((0, 4, 1, 3), True), ((2, 5, 2, 3), None)]:
        out.append(Scenario(f"again {b} losses={losses}", check, b + (losses, True), bounds=f"{b[0]}<=n<={b[1]}, {b[2]}<=m<={b[3]}, after other calls"))
    return out
