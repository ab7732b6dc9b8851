"""C28: total variation and matrix distances are the mathematical metrics."""
import z3

from engine.control import run_solver, Z3Bridge
from .common import *

ASSUMPTIONS = ["entries are symbolic real numbers (non-negative with sum one where the claim is about distributions), matrix entries "
               "independent symbolic complex numbers"]


def vec(W, name, n):
    return [W.real(f"{name}{i}") for i in range(n)]


def z3_holds(ctx, values, make_goal, assume, kind):
    """z3: goal over the values for all parameters; None or a dict of parameter values"""
    ctx.claims += 1
    br = Z3Bridge()
    idx = set()
    terms = []
    for v in values:
        v = S.of(v)
        if v.d:
            raise Undecided("a denominator in a distance")
        idx |= set(P.atom_indices(v.n))
        terms.append(br.poly(v.n))
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(br.axioms_for(idx))
    s.add(assume(br))
    s.add(z3.Not(make_goal(*terms)))
    r = run_solver(s, kind)
    if r == z3.unsat:
        return None
    if r == z3.sat:
        md = s.model()
        out = {}
        for a in sym.W.atoms:
            if a.kind == "real":
                x = md.eval(br.var(a.idx), model_completion=True)
                out[a.name] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
        return out
    raise Undecided("z3 unknown")


def ztv(br, x, y):
    tot = z3.RealVal(0)
    for a, b in zip(x, y):
        d = br.poly(S.of(a).n) - br.poly(S.of(b).n)
        tot = tot + z3.If(d >= 0, d, -d)
    return tot / 2


def tvd(ctx, n, how):
    W = ctx.world(n)
    x, y, z = vec(W, "x", n), vec(W, "y", n), vec(W, "z", n)
    conv = (lambda v: shims._build(list(v))) if how == "array" else ((lambda v: tuple(v)) if how == "tuple" else list)

    def run():
        f = ctx.program()[QCU].count_total_variation_distance
        a, b, c = conv(x), conv(y), conv(z)
        out = [f(a, b), f(b, a), f(a, c), f(b, c), f(a, a)]
        same = all(S.of(p).key() == S.of(q).key() for u, v in ((a, x), (b, y), (c, z)) for p, q in zip(u, v))
        return out, same

    def payload(vals=None):
        if vals is None:
            pt = C.point(3)
            vals = {a.name: pt[a.idx].real for a in W.atoms if a.kind == "real"}
        g = lambda nm: [vals.get(f"{nm}{i}", 0.0) for i in range(n)]
        return {"kind": "distances", "what": "tvd", "x": g("x"), "y": g("y"), "z": g("z"), "form": how}

    def dist(br):
        cs = []
        for v in (x, y, z):
            ts = [br.poly(e.n) for e in v]
            cs += [t >= 0 for t in ts] + [z3.Sum(ts) == 1]
        return cs
    ctx.validate(payload())
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(repr(lf.value), payload())
        (xy, yx, xz, yz, xx), same = lf.value
        if not same:
            raise Violation("arguments modified", payload())
        br0 = Z3Bridge()
        goals = [
            ("value", (xy,), lambda a: a == ztv(br0, x, y), lambda br: []),
            ("symmetry", (xy, yx), lambda a, b: a == b, lambda br: []),
            ("self", (xx,), lambda a: a == 0, lambda br: []),
            ("range", (xy,), lambda a: z3.And(a >= 0, a <= 1), dist),
            ("zero only for equal", (xy,), lambda a: z3.Implies(a == 0, z3.And([br0.poly(p.n) == br0.poly(q.n) for p, q in zip(x, y)])),
             lambda br: []),
            ("triangle", (xy, xz, yz), lambda a, b, c: a <= b + c, lambda br: []),
        ]
        facts = list(r.facts)
        for name, vals, goal, assume in goals:
            bad = z3_holds(ctx, vals, goal, lambda br: assume(br) + [br.fact(p, op) for p, op in facts], "tvd " + name)
            if bad is not None:
                raise Violation(f"{name} fails for {bad}", payload(bad))
    ctx.sample(f"vectors of length {n}: {lf.value[0][0]!r}")


def dicts(ctx, n, how):
    W = ctx.world(n)
    x, y = vec(W, "x", n), vec(W, "y", n)
    keys = [tuple(1 if j == i else 0 for j in range(n)) for i in range(n)]

    def run():
        from collections import defaultdict
        f = ctx.program()[QCU].count_total_variation_distance_dicts
        cont = W.control
        a, b, mask = {}, {}, []
        for i, k in enumerate(keys):
            w = cont.branch(4)
            mask.append(w)
            if w & 1:
                a[k] = x[i]
            if w & 2:
                b[k] = y[i]
        if how == "reversed":
            b = dict(reversed(list(b.items())))
        if how == "default":
            da, db = defaultdict(int), defaultdict(int)
            da.update(a)
            db.update(b)
            a, b = da, db
        before = (dict(a), dict(b))
        v, w2 = f(a, b), f(b, a)
        same = list(a.items()) == list(before[0].items()) and list(b.items()) == list(before[1].items())
        return mask, v, w2, same

    def payload(mask, vals=None):
        if vals is None:
            pt = C.point(3)
            vals = {a.name: pt[a.idx].real for a in W.atoms if a.kind == "real"}
        g = lambda nm, bit: [[list(k), vals.get(f"{nm}{i}", 0.0)] for i, k in enumerate(keys) if mask[i] & bit]
        return {"kind": "distances", "what": "dict", "x": g("x", 1), "y": g("y", 2), "form": how}
    ctx.validate(payload([3, 1, 2, 3, 0][:n] + [3] * max(0, n - 5)))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            mask = list(lf.prefix[:n]) + [0] * (n - len(lf.prefix[:n]))
            raise Violation(repr(lf.value), payload(mask))
        mask, v, w2, same = lf.value
        if not same:
            raise Violation("arguments modified", payload(mask))
        br0 = Z3Bridge()
        X = [x[i] if mask[i] & 1 else S.c(0) for i in range(n)]
        Y = [y[i] if mask[i] & 2 else S.c(0) for i in range(n)]
        for name, val in (("value", v), ("swapped", w2)):
            bad = z3_holds(ctx, (val,), lambda a: a == ztv(br0, X, Y), lambda br: [br.fact(p, op) for p, op in r.facts], "dict " + name)
            if bad is not None:
                raise Violation(f"dictionaries with keys {mask}: {bad}", payload(mask, bad))
    ctx.sample(f"all ways of distributing {n} outcomes over two dictionaries")


def matrices(ctx, a, b):
    W = ctx.world(a * 10 + b)
    A = arr([[W.cplx(f"A{i}{j}") for j in range(b)] for i in range(a)])
    B = arr([[W.cplx(f"B{i}{j}") for j in range(b)] for i in range(a)])

    def run():
        f = ctx.program()[QCU].count_distance_between_matrices
        p, q = copy_matrix(A), copy_matrix(B)
        v, w, z = f(p, q), f(q, p), f(p, p)
        return v, w, z, same_matrix(p, A) and same_matrix(q, B)
    pt = C.point(3)
    pl = {"kind": "distances", "what": "matrix", "x": C.numeric(A, pt), "y": C.numeric(B, pt)}
    want = S.c(0)
    for i in range(a):
        for j in range(b):
            d = A[i][j] - B[i][j]
            want = want + d * d.conjugate()
    ctx.validate(pl)
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(repr(lf.value), pl)
        v, w, z, same = lf.value
        ok = same and C.claim_equal(ctx, S.of(v) * v, want) and C.claim_equal(ctx, S.of(w) * w, want) and C.claim_equal(ctx, z, S.c(0)) \
            and C.claim_nonneg(ctx, v)
        if not ok:
            raise Violation(f"distance {v!r}", pl)
    ctx.sample(f"{a}x{b} matrices: {lf.value[0]!r}"[:300])


def scenarios(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 6 if q else 7):
        for how in ("list", "tuple", "array"):
            out.append(Scenario(f"tvd {n} {how}", tvd, (n, how), bounds=f"distributions over {n} outcomes"))
    for n in range(1, 5):
        for how in ("dict", "reversed", "default"):
            out.append(Scenario(f"dict {n} {how}", dicts, (n, how), bounds=f"{n} outcomes, any subset of keys in either dictionary"))
    for a, b in ([(1, 1), (2, 2), (1, 3), (3, 2), (3, 3), (4, 4), (1, 6), (5, 5)] if q else [(1, 1), (2, 2), (1, 4), (4, 3), (4, 4), (5, 5), (1, 6), (6, 6)]):
        out.append(Scenario(f"matrices {a}x{b}", matrices, (a, b), bounds=f"{a}x{b} complex matrices"))
    return out
