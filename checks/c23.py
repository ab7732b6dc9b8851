"""C23: mode-assignment and mode-occupation descriptions are mutually inverse."""
from .ints import *

ASSUMPTIONS = ["occupations, assignments and the number of modes are symbolic integers within the stated bounds"]


def occ_check(ctx, m, top, cap, how, lo=None):
    W = ctx.world(m * 10 + top)
    s = [fresh(f"s{i}", lo[i] if lo else 0, top if not lo else lo[i] + top) for i in range(m)]
    W.int_facts.append(z3.Sum([x.t for x in s]) <= cap)

    def run():
        U = ctx.program()[UTIL]
        occ = [int(x) for x in s] if how == "array" else list(s)
        given = state(occ, how)
        a = U.mode_occupation_to_mode_assignment(given)
        back = U.mode_assignment_to_mode_occupation(a, m)
        return [int(x) for x in s], whole([a]), whole([back]), [int(x) for x in given]

    def payload(v):
        return {"kind": "enumeration", "what": "occupation", "state": v, "form": how}
    n = 0
    ctx.validate(payload(list(lo) if lo else [top] + [0] * (m - 2) + [1] if m > 1 else [min(top, cap)]))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            raise Violation(f"{md}: {lf.value!r}", payload([md.eval(x.t, model_completion=True).as_long() for x in s]))
        occ, a, back, given = lf.value
        n += 1
        w, b = a, back
        ok = w and b and given == occ
        if ok:
            w, b = w[0], b[0]
            # position p holds mode i  <=>  p lies in the i-th block of the occupation
            p, i = z3.Int("p"), z3.Int("i")
            cum = [sum(occ[:k]) for k in range(m + 1)]
            inblock = z3.Or([z3.And(i == k, p >= cum[k], p < cum[k + 1]) for k in range(m)])
            held = z3.Or([z3.And(p == k, i == v) for k, v in enumerate(w)]) if w else z3.BoolVal(False)
            ok = symint.prove(ctx, inblock == held) is None and list(b) == occ
        if not ok:
            raise Violation(f"occupation {occ} -> {a} -> {back}", payload(occ))
    ctx.sample(f"{n} occupations of {m} modes")


def asg_check(ctx, k, mmax, how, omit):
    W = ctx.world(k * 10 + mmax)
    a = [fresh(f"a{i}", 0, mmax - 1) for i in range(k)]
    m = fresh("m", 1, mmax)
    for x in a:
        W.int_facts.append(x.t < m.t)

    def run():
        U = ctx.program()[UTIL]
        v = [int(x) for x in a] if how == "array" else list(a)
        given = state(v, how)
        occ = U.mode_assignment_to_mode_occupation(given) if omit else U.mode_assignment_to_mode_occupation(given, m)
        return [int(x) for x in a], int(m), whole([occ]), [int(x) for x in given]

    def payload(v, M):
        return {"kind": "enumeration", "what": "assignment", "assignment": v, "m": None if omit else M, "form": how}
    n = 0
    ctx.validate(payload([mmax - 1] + [0] * (k - 1) if k else [], mmax))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            ev = lambda x: md.eval(x.t, model_completion=True).as_long()
            raise Violation(f"{md}: {lf.value!r}", payload([ev(x) for x in a], ev(m)))
        v, M, occ, given = lf.value
        n += 1
        o = occ
        ok = o and given == v
        if ok:
            o = o[0]
            ok = len(o) == (max(v) + 1 if omit else M)
            if ok:
                i = z3.Int("i")
                cnt = z3.Sum([z3.If(i == x, 1, 0) for x in v]) if v else z3.IntVal(0)
                got = z3.IntVal(0)
                for k2, x in enumerate(o):
                    got = z3.If(i == k2, z3.IntVal(x), got)
                ok = symint.prove(ctx, z3.Implies(z3.And(i >= 0, i < len(o)), got == cnt)) is None
        if not ok:
            raise Violation(f"assignment {v}, modes {None if omit else M}: {occ}", payload(v, M))
    ctx.sample(f"{n} assignments of {k} particles")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for m, top, cap in ([(1, 6, 6), (2, 4, 8), (3, 3, 6), (4, 2, 6), (5, 1, 5)] if q else
                        [(1, 20, 20), (2, 8, 16), (3, 5, 12), (4, 3, 10), (5, 2, 10), (6, 1, 6)]):
        for how in ("list", "tuple", "array"):
            out.append(Scenario(f"occupation {m} modes {how}", occ_check, (m, top, cap, how), cap=600,
                                bounds=f"{m} modes, occupations <= {top}, at most {cap} particles"))
    for lo, wide in [((7,), 14), ((7, 8), 3), ((10, 0, 2), 2), ((0, 11, 1), 1), ((0, 0, 0, 9), 1), ((1, 0, 0, 0, 0, 0, 2), 1), ((100, 3), 1)]:
        for how in ("list", "array"):
            if how == "array" and len(lo) > 4:
                continue
            out.append(Scenario(f"occupation from {lo} {how}", occ_check, (len(lo), wide, 1000, how, lo), cap=600,
                                bounds=f"occupations from {lo}, at most {wide} more in each mode"))
    for k, mm in ([(0, 3), (1, 14), (2, 6), (3, 4), (4, 3), (5, 2), (12, 1)] if q else [(0, 5), (1, 12), (2, 7), (3, 5), (4, 4)]):
        for how in ("list", "tuple", "array"):
            for omit in (False, True):
                if omit and k == 0:
                    continue
                out.append(Scenario(f"assignment {k} particles <{mm} modes {how} omit={omit}", asg_check, (k, mm, how, omit), cap=600,
                                    bounds=f"{k} particles in any order, up to {mm} modes"))
    return out
