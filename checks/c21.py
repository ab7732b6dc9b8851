"""C21: generate_possible_states lists every Fock state exactly once, in the documented order."""
from .ints import *

ASSUMPTIONS = ["numbers of particles and modes are symbolic integers within the stated bounds; on each path the solver is asked for an "
               "occupation of the space that is not listed"]


def check(ctx, nlo, nhi, mlo, mhi, losses, again=False):
    W = ctx.world(nhi * 10 + mhi)
    n, m = fresh("n", nlo, nhi), fresh("m", mlo, mhi)

    def run():
        prog = ctx.program()
        if again:       # earlier calls, whose results the caller went on to change
            f = prog[UTIL].generate_possible_states
            f(n, m, not losses)
            f(m, n + 1, bool(losses))
            scramble(f(n, m, bool(losses)))
        out = list(prog[UTIL].generate_possible_states(n, m, losses) if losses is not None
                   else prog[UTIL].generate_possible_states(n, m))
        return int(n), int(m), whole(out)
    seen = set()
    ctx.validate(payload(nhi, mhi, losses, again))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            raise Violation(f"n, m = {md}: {lf.value!r}", payload(md.eval(n.t).as_long(), md.eval(m.t).as_long(), losses, again))
        N, M, out = lf.value
        seen.add((N, M))
        st = out
        bad = st is None or any(len(v) != M for v in st)
        if not bad:
            def space(t):
                tot = z3.Sum(t)
                return [x >= 0 for x in t] + ([tot <= N] if losses else [tot == N])
            miss, ext = missing(ctx, M, space, st), extra(ctx, M, space, st)
            order = sorted(st, key=lambda v: (sum(v), tuple(-x for x in v)))
            ctx.claims += 1
            bad = miss or ext or order != st or len(set(st)) != len(st)
        if bad:
            raise Violation(f"{N} particles in {M} modes, losses={losses}: {(out or [])[:20]}", payload(N, M, losses, again))
    # every size in the bounds was reached
    size = symint.prove(ctx, z3.Or([z3.And(n.t == a, m.t == b) for a, b in seen]))
    if size is not None:
        raise Undecided(f"size not explored: {size}")
    ctx.sample(f"sizes {sorted(seen)[:6]}... losses={losses}")


def payload(n, m, losses, again):
    return {"again": again, "kind": "enumeration", "what": "states", "n": n, "m": m, "losses": losses}


def scenarios(tier):
    out = []
    top = ([(0, 3, 1, 4), (4, 6, 1, 3), (0, 2, 5, 7), (7, 12, 1, 2), (4, 5, 4, 5), (0, 1, 8, 12), (10, 12, 3, 3), (10, 10, 4, 4), (2, 2, 13, 13)] if tier == "quick" else
           [(0, 3, 1, 4), (4, 6, 1, 3), (0, 2, 5, 7), (7, 30, 1, 2), (4, 6, 4, 6), (0, 1, 8, 40), (7, 9, 3, 4), (2, 3, 8, 10), (10, 20, 3, 3)])
    for b in top:
        for losses in (False, True, None):
            out.append(Scenario(f"n {b[0]}..{b[1]} m {b[2]}..{b[3]} losses={losses}", check, b + (losses,),
                                bounds=f"{b[0]}<=n<={b[1]}, {b[2]}<=m<={b[3]}, losses={losses}"))
    for b, losses in [((0, 3, 1, 3), False), ((0, 3, 1, 3), True), ((2, 4, 2, 3), None)]:
        out.append(Scenario(f"again {b} losses={losses}", check, b + (losses, True), bounds=f"{b[0]}<=n<={b[1]}, {b[2]}<=m<={b[3]}, after other calls"))
    return out
