"""C22: generate_lossy_n_particle_input_states lists every reachable sub-state exactly once."""
from .ints import *

ASSUMPTIONS = ["the occupations and the number of remaining particles are symbolic integers within the stated bounds"]


def check(ctx, lo, top, cap, how, lost=None, again=False):
    m = len(top)
    W = ctx.world(m * 10 + max(top))
    s = [fresh(f"s{i}", a, b) for i, (a, b) in enumerate(zip(lo, top))]
    left = fresh("left", 0, sum(top))
    tot = z3.Sum([x.t for x in s]) if m else z3.IntVal(0)
    W.int_facts += [left.t <= tot, tot <= cap]
    if lost is not None:
        W.int_facts.append(tot - left.t <= lost)

    def run():
        prog = ctx.program()
        occ = [int(x) for x in s] if how == "array" else list(s)
        given = state(occ, how)
        if again:       # earlier calls, whose results the caller went on to change
            f = prog[UTIL].generate_lossy_n_particle_input_states
            f(state(occ[::-1], how), left)
            if left > 0:
                f(state(occ, how), left - 1)
            scramble(f(state(occ, how), left))
        out = list(prog[UTIL].generate_lossy_n_particle_input_states(given, left))
        return [int(x) for x in s], int(left), whole(out), [int(x) for x in given]

    def payload(v, l):
        return {"kind": "enumeration", "what": "lossy", "state": v, "left": l, "form": how, "again": again}
    seen = set()
    ctx.validate(payload(list(top), max(0, sum(top) - (lost or 4))))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            ev = lambda x: md.eval(x.t, model_completion=True).as_long()
            raise Violation(f"{md}: {lf.value!r}", payload([ev(x) for x in s], ev(left)))
        occ, L, out, given = lf.value
        seen.add(tuple(occ) + (L,))
        st = out
        bad = st is None or any(len(v) != m for v in st) or given != occ
        if not bad:
            def space(t):
                return [x >= 0 for x in t] + [x <= o for x, o in zip(t, occ)] + [z3.Sum(t) == L]
            ctx.claims += 1
            bad = missing(ctx, m, space, st) or extra(ctx, m, space, st) or len(set(st)) != len(st)
        if bad:
            raise Violation(f"lossy inputs of {occ} with {L} left: {(out or [])[:20]}", payload(occ, L))
    miss = symint.prove(ctx, z3.Or([z3.And([left.t == v[-1]] + [x.t == a for x, a in zip(s, v)]) for v in seen]))
    if miss is not None:
        raise Undecided(f"case not explored: {miss}")
    occ = sorted(seen)[len(seen) // 2]
    ctx.sample(f"{len(seen)} cases, e.g. {occ[:-1]} with {occ[-1]} left")


def scenarios(tier):
    q = tier == "quick"
    out = []
    sizes = [(1, 4, 4), (2, 3, 6), (3, 2, 5), (4, 1, 4)] if q else [(1, 8, 8), (2, 4, 8), (3, 3, 7), (4, 2, 6), (5, 1, 5), (6, 1, 6)]
    for m, top, cap in sizes:
        for how in ("list", "tuple", "array"):
            out.append(Scenario(f"{m} modes up to {top} {how}", check, ((0,) * m, (top,) * m, cap, how), cap=800,
                                bounds=f"{m} modes, occupations <= {top}, at most {cap} particles, any number left"))
    for how in ("list", "tuple", "array"):
        out.append(Scenario(f"again 2 modes {how}", check, ((0, 0), (2, 2), 4, how, None, True), bounds="2 modes, after other calls"))
        out.append(Scenario(f"again 3 modes {how}", check, ((0, 0, 0), (1, 2, 1), 4, how, None, True), bounds="3 modes, after other calls"))
    # large occupations, few particles lost
    wins = [((9,), (13,), 6), ((4, 5), (6, 6), 6), ((9, 0), (11, 2), 4), ((1, 9), (2, 12), 4), ((4, 5, 1), (5, 6, 1), 5), ((0, 6, 3), (1, 7, 4), 4), ((3, 0, 8), (4, 0, 9), 5),
            ((1, 0, 1, 1), (2, 1, 2, 3), 4), ((0, 2, 0, 4), (0, 3, 1, 5), 5), ((1, 1, 1, 1, 1), (1, 2, 1, 1, 2), 4), ((1, 0, 1, 1, 0, 1), (1, 1, 1, 1, 1, 1), 4),
            ((2, 0, 0, 1, 0, 0, 2, 1), (2, 0, 0, 1, 1, 0, 2, 1), 3)]
    if not q:
        wins += [((6, 6, 3), (7, 7, 3), 8), ((12, 0, 12), (13, 1, 12), 6), ((1,) * 8, (1,) * 8, 5), ((2,) * 5, (3, 2, 2, 2, 2), 6)]
    for lo, hi, lost in wins:
        for how in ("list",) if q else ("list", "tuple", "array"):
            out.append(Scenario(f"from {lo} to {hi}, at most {lost} lost, {how}", check, (lo, hi, sum(hi), how, lost), cap=800,
                                bounds=f"occupations between {lo} and {hi}, at most {lost} particles lost"))
    return out
