"""C27: the effective scattering matrix repeats rows and columns by occupation."""
from .ints import *

ASSUMPTIONS = ["matrix entries are independent symbolic complex numbers, occupations symbolic integers within the stated bounds"]
CLS = "EffectiveScatteringMatrixCalculator"


def expected(M, s, t):
    if sum(s) == 0 or sum(t) == 0:
        return []
    return C.scattering(M, s, t)


def rows_of(v):
    if isinstance(v, np.ndarray) and v.size == 0:
        return []
    return [list(np.asarray(r, dtype=object).reshape(-1)) for r in v]


def agree(ctx, got, want):
    if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
        return False
    if not want:
        ctx.claims += 1
    return all(C.claim_equal(ctx, x, y) for a, b in zip(got, want) for x, y in zip(a, b))


def check(ctx, m, top, cap, how, rect, lo=0):
    W = ctx.world(m * 10 + top)
    M = generic_matrix(W, m)
    s = [fresh(f"s{i}", lo, top) for i in range(m)]
    t = [fresh(f"t{i}", lo, top) for i in range(m)]
    ts, tt = z3.Sum([x.t for x in s]), z3.Sum([x.t for x in t])
    W.int_facts += [ts <= cap, tt <= cap]
    if not rect:
        W.int_facts.append(ts == tt)

    def run():
        prog = ctx.program()
        cls = getattr(prog[UTIL], CLS)
        occ = ([int(x) for x in s], [int(x) for x in t]) if how == "array" else (list(s), list(t))
        A = copy_matrix(M)
        a, b = state(occ[0], how), state(occ[1], how)
        c = cls(A, a, b)
        v = rows_of(c.calculate())
        w = rows_of(c.calculate())
        same = same_matrix(A, M) and [int(x) for x in a] == [int(x) for x in s] and [int(x) for x in b] == [int(x) for x in t]
        return [int(x) for x in s], [int(x) for x in t], v, w, same

    def payload(S_, T_):
        return {"kind": "scattering", "steps": [{"matrix": C.numeric(M, C.point(3)), "input": S_, "output": T_}], "form": how}
    k = 0
    ctx.validate(payload([1] + [0] * (m - 1), [0] * (m - 1) + [1]))
    ctx.validate(payload([top] + [1] * (m - 1), [1] * (m - 1) + [top]))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            md = symint.prove(ctx, z3.BoolVal(False), lf.int_pc)
            ev = lambda x: md.eval(x.t, model_completion=True).as_long()
            raise Violation(f"{md}: {lf.value!r}", payload([ev(x) for x in s], [ev(x) for x in t]))
        S_, T_, v, w, same = lf.value
        k += 1
        if not (same and agree(ctx, v, expected(M, S_, T_)) and agree(ctx, w, expected(M, S_, T_))):
            raise Violation(f"{S_} -> {T_}", payload(S_, T_))
    ctx.sample(f"{k} pairs of occupations of {m} modes")


HIST = [
    [dict(matrix="A3", input=(1, 1, 0), output=(0, 1, 1)), dict(output=(2, 0, 0)), dict(input=(0, 0, 2)), dict(matrix="B3")],
    [dict(matrix="A3"), dict(input=(1, 0, 0), output=(0, 0, 1)), dict(input=(0, 0, 0), output=(0, 0, 0)), dict(input=(0, 1, 0), output=(1, 0, 0))],
    [dict(matrix="A2", input=(2, 1), output=(1, 2)), dict(matrix="A3", input=(1, 1, 0), output=(0, 2, 0)), dict(matrix="B2", input=(1, 1), output=(0, 2))],
    [dict(matrix="A3", input=(1, 2, 0), output=(0, 0, 3)), dict(matrix="B3"), dict(output=(1, 1, 1)), dict(input=(3, 0, 0))],
]


def history(ctx, k):
    hist = HIST[k]
    W = ctx.world(k)
    mats = {n: generic_matrix(W, int(n[1]), n) for n in sorted({s["matrix"] for s in hist if "matrix" in s})}

    def run():
        cls = getattr(ctx.program()[UTIL], CLS)
        c, out = None, []
        for st in hist:
            if c is None:
                c = cls(copy_matrix(mats[st["matrix"]]), *[list(st[x]) for x in ("input", "output") if x in st])
            else:
                if "matrix" in st:
                    c.matrix = copy_matrix(mats[st["matrix"]])
                if "input" in st:
                    c.input_state = list(st["input"])
                if "output" in st:
                    c.output_state = list(st["output"])
            out.append(rows_of(c.calculate()))
        return out
    pt = C.point(3)
    pl = {"kind": "scattering", "form": "list", "steps": [
        {**s, **({"matrix": C.numeric(mats[s["matrix"]], pt)} if "matrix" in s else {})} for s in hist]}
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(repr(lf.value), pl)
        cur = dict(input=(), output=())
        for st, got in zip(hist, lf.value):
            cur.update(st)
            if not agree(ctx, got, expected(mats[cur["matrix"]], cur["input"], cur["output"])):
                raise Violation(f"after {cur}", pl)
    ctx.sample(f"history {hist}"[:300])
    ctx.validate(pl)


def scenarios(tier):
    out = []
    sizes = [(1, 5, 5), (2, 3, 4), (3, 2, 3), (4, 1, 2)] if tier == "quick" else [(1, 6, 6), (2, 3, 5), (3, 2, 3), (4, 1, 3)]
    for m, top, cap in sizes:
        for how in ("list", "tuple", "array"):
            for rect in (False, True):
                out.append(Scenario(f"{m} modes {how} rect={rect}", check, (m, top, cap, how, rect), cap=600,
                                    bounds=f"{m} modes, occupations <= {top}, at most {cap} particles"
                                    + (", different particle numbers of input and output" if rect else "")))
    for m, lo, top in [(1, 6, 9), (2, 3, 5), (3, 1, 2)] + ([] if tier == "quick" else [(1, 10, 16), (2, 5, 8), (3, 2, 4), (4, 1, 2)]):
        for rect in (False, True):
            out.append(Scenario(f"{m} modes from {lo} to {top} rect={rect}", check, (m, top, m * top, "list", rect, lo), cap=600,
                                bounds=f"{m} modes, occupations between {lo} and {top}" + (", different particle numbers of input and output" if rect else "")))
    for k in range(len(HIST)):
        out.append(Scenario(f"history {k}", history, (k,), bounds="setter histories of up to 4 steps"))
    return out
