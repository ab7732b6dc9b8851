"""Assertions over symbolic values: z3 queries, witness points, law bookkeeping."""
import cmath
import math
import random as _pyrandom
from fractions import Fraction
from itertools import permutations

import numpy as np
import z3

from . import poly as P
from . import sym
from .poly import BITS, MASK
from .sym import S, Unsupported, is_zero
from .control import run_solver, Z3Bridge, Raised
from .check import Violation, Undecided


import contextlib


@contextlib.contextmanager
def within(region):
    """claims made inside refer to the parameters of this region"""
    W = sym.W
    saved = W.eq_subst, W.control.path_facts, getattr(W, "region", None)
    W.eq_subst, W.control.path_facts, W.region = list(region.substs), list(region.facts), region
    try:
        yield region
    finally:
        W.eq_subst, W.control.path_facts, W.region = saved


# ------------------------------------------------------------------ equality
def _common(a, b):
    """numerators of a and b over a common denominator"""
    da, db = dict(a.d), dict(b.d)
    lcm = dict(da)
    for f, e in db.items():
        if lcm.get(f, 0) < e:
            lcm[f] = e
    na, nb = a.n, b.n
    for f, e in lcm.items():
        ea, eb = e - da.get(f, 0), e - db.get(f, 0)
        if ea and na:
            na = P.mul(na, P.power(sym.W.factors[f], ea))
        if eb and nb:
            nb = P.mul(nb, P.power(sym.W.factors[f], eb))
    return na, nb


def _align(x, y):
    """normal forms of two polynomials over the same det / phase denominators"""
    W = sym.W
    x, y = W.expand_abs(x), W.expand_abs(y)
    if not W.eq_subst:
        dif = P.sub(x, y)
        if not dif:
            return x, y
        # common terms need no normal form
        if len(dif) < len(x) + len(y):
            x = {m: c for m, c in dif.items() if m in x}
            y = {m: -c for m, c in dif.items() if m not in x}
        # integer coefficients
        den = 1
        for c in dif.values():
            if type(c) is Fraction:
                den = den * c.denominator // math.gcd(den, c.denominator)
        if den != 1:
            x, y = P.scale(x, den), P.scale(y, den)
    (p, dp, php), (q, dq, phq) = W.nf_poly(x), W.nf_poly(y)
    for ui in set(dp) | set(dq):
        k = dp.get(ui, 0) - dq.get(ui, 0)
        det = W.unitaries[ui]["det"]
        if k > 0:
            q = P.mul(q, P.power(det, k))
        elif k < 0:
            p = P.mul(p, P.power(det, -k))
    for ai in set(php) | set(phq):
        k = php.get(ai, 0) - phq.get(ai, 0)
        if k > 0:
            q = P.mul(q, P.atom_poly(ai, k))
        elif k < 0:
            p = P.mul(p, P.atom_poly(ai, -k))
    return p, q


def solver_equal(a, b, kind="equality"):
    """z3: is there a value of the atoms with a != b?  monomials are abstracted to free reals
    (sound for 'equal').  Returns True (unsat) or False."""
    a, b = S.of(a), S.of(b)
    x, y = _common(a, b)
    p, q = _align(x, y)
    s = z3.Solver()
    names = {}

    def lin(poly):
        ts = []
        for m, c in poly.items():
            if m == 0:
                ts.append(z3.RealVal(str(Fraction(c))))
                continue
            v = names.get(m)
            if v is None:
                v = names[m] = z3.Real(f"m{len(names)}")
            ts.append(v if c == 1 else z3.RealVal(str(Fraction(c))) * v)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    if len(p) + len(q) > 60000:
        # chunked: equality monomial by monomial over blocks
        keys = sorted(set(p) | set(q))
        for i in range(0, len(keys), 20000):
            ks = keys[i:i + 20000]
            s = z3.Solver()
            s.add(lin({k: p[k] for k in ks if k in p}) != lin({k: q[k] for k in ks if k in q}))
            if run_solver(s, kind) != z3.unsat:
                return False
        return True
    s.add(lin(p) != lin(q))
    r = run_solver(s, kind)
    if r == z3.unsat:
        return True
    if r == z3.sat:
        return False
    raise Undecided("z3 unknown on an equality")


def claim_equal(ctx, a, b, what="", kind="equality"):
    """True if proved; False if the two sides differ at the sample point; Undecided otherwise"""
    ctx.claims += 1
    a, b = S.of(a), S.of(b)
    reg = getattr(sym.W, "region", None)
    pts = None
    if not (a.is_const() and b.is_const()):
        # a clear difference at a sample point: no normal form needed, the point is the counterexample
        pts = region_points(reg, 2) if reg is not None else points(2)
        if _differ(a, b, pts):
            return False
    if solver_equal(a, b, kind):
        return True
    pts = region_points(reg, 8) if reg is not None else points(8)
    if _differ(a, b, pts):
        return False
    pt = solver_point(a, b, reg)
    if pt is not None and _differ(a, b, [pt], fine=True):
        return False
    raise Undecided(f"equality not decided: {what}")


def _differ(a, b, pts, fine=False):
    for pt in pts:
        va, vb = value(a, pt), value(b, pt)
        if va != va or vb != vb:
            continue
        if abs(va - vb) > (1e-10 * (abs(va) + abs(vb)) + 1e-13 if fine else 1e-7 * (1 + abs(va) + abs(vb))):
            s = z3.Solver()
            s.add(z3.RealVal(str(Fraction(abs(va - vb)))) > z3.RealVal("1e-13" if fine else "1e-8"))
            sym.W.bad_point = pt
            return run_solver(s, "counterexample") == z3.sat
    return False


# ------------------------------------------------------------------ counterexamples from the solver
def _partial(p, vals, free):
    """polynomial in the free real unknowns: {exponents: complex}; free: atom -> list of (exponent vector, coefficient)"""
    nfree = free["n"]
    out = {}
    for m, c in p.items():
        cur = {(0,) * nfree: complex(float(c))}
        for i, e in P.exps(m):
            lin = free.get(i)
            if lin is None:
                v = vals[i] ** e
                cur = {k: x * v for k, x in cur.items()}
            else:
                for _ in range(e):
                    nxt = {}
                    for k, x in cur.items():
                        for ve, cf in lin:
                            kk = tuple(a + b for a, b in zip(k, ve))
                            nxt[kk] = nxt.get(kk, 0) + x * cf
                    cur = nxt
        for k, x in cur.items():
            out[k] = out.get(k, 0) + x
    return out


def _depends(i, free):
    """does atom i (a root, modulus, function) depend on a free one"""
    W = sym.W
    a = W.atoms[i]
    if i in free:
        return True
    if a.kind in ("sqrt", "abs"):
        return any(_depends(j, free) for j in P.atom_indices(a.data))
    if a.kind == "fn":
        d = a.data[1]
        return isinstance(d, S) and any(_depends(j, free) for j in P.atom_indices(d.n))
    if a.kind in ("conj", "phasebar"):
        return a.conj in free
    return False


TAUS = ["1e-3", "1e-5", "1e-6", "1e-3", "1e-5", "1e-7", "1e-8", "1e-8", "1e-9", "1e-9"]


def solver_point(a, b, reg, tries=10, budget_ms=12000):
    """all parameters but one or two are fixed at a sample point, z3 is asked for values of the remaining ones at
    which a and b differ noticeably (a, b None: for a point of the region)"""
    import time
    W = sym.W
    t0 = time.time()
    used = getattr(W, "point_ms", 0)
    if used > 40000:
        return None
    facts = list(W.facts) + (list(reg.facts) if reg is not None else [])
    facts = [(W.expand_abs(p), op) for p, op in facts]
    polys = []
    if a is not None:
        x, y = _common(S.of(a), S.of(b))
        x, y = W.expand_abs(x), W.expand_abs(y)
        polys = [P.sub(x, y)]
        if len(polys[0]) > 20000:
            return None
    subs = list(reg.substs) if reg is not None else []
    subd = {i for i, _ in subs}
    ix = set()
    for p in polys + [p for p, _ in (reg.facts if reg is not None else [])]:
        ix |= set(P.atom_indices(W.expand_abs(p)))
    for i in list(ix):
        if W.atoms[i].kind in ("sqrt", "abs"):
            ix |= set(P.atom_indices(W.atoms[i].data))
    reals = [i for i in ix if W.atoms[i].kind == "real" and W.atoms[i].name != "pi" and i not in subd]
    cpl = [i for i in ix if W.atoms[i].kind == "cplx" and i not in subd]
    cpl += [W.atoms[i].conj for i in ix if W.atoms[i].kind == "conj" and W.atoms[i].conj not in cpl and W.atoms[W.atoms[i].conj].kind == "cplx"]
    unit = {i for rec in W.unitaries for row in rec["idx"] for i in row} | {i for rec in W.unitaries for row in rec["cidx"] for i in row}
    cpl = [i for i in cpl if i not in unit]
    rng = _pyrandom.Random(11)
    found = None
    for k in range(tries):
        if (time.time() - t0) * 1000 > budget_ms:
            break
        vals = point(100 + k, None, subs)
        if reals and (not cpl or k % 2 == 0):
            ch = rng.sample(reals, min(len(reals), 1 + (k // 2) % 2))
            free = {"n": len(ch)}
            for q, i in enumerate(ch):
                e = tuple(1 if r == q else 0 for r in range(len(ch)))
                free[i] = [(e, 1.0)]
            names = [(W.atoms[i].name, (q,)) for q, i in enumerate(ch)]
        elif cpl:
            i = rng.choice(cpl)
            free = {"n": 2, i: [((1, 0), 1.0), ((0, 1), 1j)]}
            j = W.atoms[i].conj
            if j is not None and j != i:
                free[j] = [((1, 0), 1.0), ((0, 1), -1j)]
            names = [(W.atoms[i].name, (0, 1))]
        else:
            break
        sel = {i for i in free if i != "n"}
        base_n = free["n"]
        dep = [i for i in sorted(ix) if i not in sel and _depends(i, sel)]
        if any(W.atoms[i].kind not in ("abs", "sqrt") for i in dep) or len(dep) > 4:
            continue
        # roots and moduli that depend on the chosen parameters are unknowns of their own
        if dep:
            n2 = base_n + len(dep)
            for i in list(free):
                if i != "n":
                    free[i] = [(e + (0,) * len(dep), c) for e, c in free[i]]
            for q, i in enumerate(dep):
                free[i] = [(tuple(1 if r == base_n + q else 0 for r in range(n2)), 1.0)]
            free["n"] = n2
        zs = [z3.Real(f"y{q}") for q in range(free["n"])]

        def term(poly, part):
            ts = []
            for ex, c in poly.items():
                v = c.real if part == 0 else c.imag
                if abs(v) < (1e-13 if any(ex) else 1e-18):
                    continue
                f = [z3.RealVal(str(Fraction(v).limit_denominator(10 ** 12) if abs(v) > 1e-6 else Fraction(v)))]
                for z, e in zip(zs, ex):
                    f += [z] * e
                ts.append(f[0] if len(f) == 1 else z3.Product(*f))
            return z3.Sum(ts) if ts else z3.RealVal(0)
        s = z3.Solver()
        s.set("timeout", 2500)
        dead = False
        for p, op in facts:
            pp = _partial(p, vals, free)
            if op == "==" and set(pp) <= {(0,) * free["n"]}:
                continue
            e = term(pp, 0)
            s.add(e >= 0 if op == ">=" else e > z3.RealVal(str(Fraction(_margin(p, 1e-9)))) if op == ">" else e == 0 if op == "==" else e != 0)
        s.add([z >= -100 for z in zs[:base_n]] + [z <= 100 for z in zs[:base_n]])
        for q, i in enumerate(dep):
            d = _partial(W.atoms[i].data, vals, free)
            z = zs[base_n + q]
            if W.atoms[i].kind == "abs":
                s.add(z >= 0, z * z == term(d, 0) * term(d, 0) + term(d, 1) * term(d, 1))
            else:
                s.add(z >= 0, z * z == term(d, 0))
        if polys:
            d = _partial(polys[0], vals, free)
            tau = z3.RealVal(TAUS[k % len(TAUS)])
            re_, im_ = term(d, 0), term(d, 1)
            s.add(z3.Or(re_ > tau, re_ < -tau, im_ > tau, im_ < -tau))
        if run_solver(s, "model") != z3.sat:
            continue
        md = s.model()

        def num(z):
            x = md.eval(z, model_completion=True)
            return float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
        over = {}
        for nm, qs in names:
            over[nm] = num(zs[qs[0]]) if len(qs) == 1 else complex(num(zs[qs[0]]), num(zs[qs[1]]))
        pt = point(100 + k, over, subs)
        if not ok_facts(pt, facts):
            continue
        if a is None:
            found = pt
            break
        va, vb = value(a, pt), value(b, pt)
        if va == va and vb == vb and abs(va - vb) > 1e-10 * (abs(va) + abs(vb)) + 1e-13:
            found = pt
            break
    W.point_ms = used + (time.time() - t0) * 1000
    return found


def claim_nonneg(ctx, a):
    """True if a >= 0 is proved for all values of the atoms; False if negative at a point"""
    ctx.claims += 1
    W = sym.W
    a = S.of(a)
    if a.is_const():
        s = z3.Solver()
        s.add(z3.RealVal(str(Fraction(a.const()))) < 0)
        return run_solver(s, "nonneg") == z3.unsat
    if a.is_real() and W.control.known_sign(a) == 1:
        return True
    reg = getattr(W, "region", None)
    for pt in (region_points(reg, 8) if reg is not None else points(8)):
        v = value(a, pt)
        if v.real < -1e-9 or abs(v.imag) > 1e-9:
            W.bad_point = pt
            return False
    e = sym.expand(a)
    if e.is_real() and W.control.known_sign(e) == 1:
        return True
    raise Undecided("sign not decided")


# ------------------------------------------------------------------ points
def point(seed, overrides=None, substs=()):
    """numeric values of all atoms at a random point satisfying the declared constraints"""
    W = sym.W
    if substs:
        over = dict(overrides or {})
        for _ in range(2):
            vals = point(seed, over)
            for ai, rp in substs:
                over[W.atoms[ai].name] = vals[ai] = _eval(rp, vals)
        return point(seed, over)
    rng = _pyrandom.Random(seed)
    style = seed % 4       # 0: generic, 1: near the edges, 2: generic with parameters of any magnitude, 3: real-valued
    vals = [None] * len(W.atoms)
    uni = {}
    for rec in W.unitaries:
        m = rec["m"]
        r = np.random.RandomState(rng.randrange(10 ** 6))
        z = r.normal(size=(m, m)) + 1j * r.normal(size=(m, m)) * (style != 3)
        if style == 1:
            z = np.eye(m)[r.permutation(m)] + 0.15 * z
        q, rr = np.linalg.qr(z)
        d = np.diag(rr)
        q = q * (d / abs(d))
        for i in range(m):
            for j in range(m):
                uni[rec["idx"][i][j]] = complex(q[i, j])
                uni[rec["cidx"][i][j]] = complex(q[i, j]).conjugate()
    overrides = overrides or {}
    bounds = _real_bounds()
    for a in W.atoms:
        i = a.idx
        if a.name in overrides:
            vals[i] = complex(overrides[a.name])
        elif i in uni:
            vals[i] = uni[i]
        elif a.kind == "I":
            vals[i] = 1j
        elif a.kind == "real":
            if a.name == "pi":
                vals[i] = complex(math.pi)
                continue
            lo, hi = bounds.get(i, (None, None))
            if lo is not None and hi is not None:
                w = rng.uniform(0.1, 0.9)
                if style == 1:
                    w = rng.choice([0.01, 0.03, 0.99, 0.97])
                elif style == 2 and rng.random() < 0.5:
                    w = 10 ** rng.uniform(-4, 0)
                    w = w if rng.random() < 0.7 else 1 - w
                vals[i] = complex(lo + (hi - lo) * w)
            elif lo is not None:
                vals[i] = complex(lo + rng.uniform(0.1, 2))
            elif hi is not None:
                vals[i] = complex(hi - rng.uniform(0.1, 2))
            else:
                vals[i] = complex(rng.uniform(-1.5, 1.5))
        elif a.kind == "cplx":
            vals[i] = complex(rng.uniform(-1, 1), rng.uniform(-1, 1) * (style != 3))
            if style == 1 or style == 2:
                vals[i] *= 10 ** rng.uniform(-2, 0.5)
        elif a.kind == "conj":
            vals[i] = vals[a.conj].conjugate()
        elif a.kind == "phase":
            vals[i] = cmath.exp(2j * math.pi * rng.random())
        elif a.kind == "phasebar":
            vals[i] = vals[a.conj].conjugate()
        elif a.kind == "u":
            vals[i] = complex(rng.random())
        elif a.kind == "sqrt":
            vals[i] = cmath.sqrt(_eval(a.data, vals))
        elif a.kind == "abs":
            vals[i] = complex(abs(_eval(a.data, vals)))
        elif a.kind == "root":
            vals[i] = a.sh
        elif a.kind == "fn":
            name, data = a.data
            try:
                x = value(data, vals) if isinstance(data, S) else None
                if name == "log":
                    vals[i] = complex(math.log(x.real))
                elif name == "exp":
                    vals[i] = complex(math.exp(x.real))
                elif name == "floor":
                    vals[i] = complex(math.floor(x.real))
                else:
                    vals[i] = a.sh
            except (ValueError, AttributeError):
                vals[i] = a.sh
        else:
            vals[i] = a.sh
    return vals


def _real_bounds():
    out = {}
    for p, op in sym.W.facts:
        ix = P.atom_indices(p)
        if len(ix) != 1 or op == "==":
            continue
        i = ix[0]
        c1 = p.get(1 << (BITS * i))
        if c1 is None or any(m not in (0, 1 << (BITS * i)) for m in p):
            continue
        b = -Fraction(p.get(0, 0)) / Fraction(c1)
        lo, hi = out.get(i, (None, None))
        if c1 > 0:
            lo = float(b) if lo is None else max(lo, float(b))
        else:
            hi = float(b) if hi is None else min(hi, float(b))
        out[i] = (lo, hi)
    return out


def _eval(p, vals):
    tot = 0j
    for m, c in p.items():
        t = complex(float(c))
        for i, e in P.exps(m):
            t *= vals[i] ** e
        tot += t
    return tot


def value(v, vals):
    v = S.of(v)
    r = _eval(v.n, vals)
    for f, e in v.d:
        d = _eval(sym.W.factors[f], vals)
        if d == 0:
            return complex("nan")
        r /= d ** e
    return r


def points(n, overrides=None, base=100):
    out = []
    for k in range(4 * n):
        pt = point(base + k, overrides)
        if ok_facts(pt, sym.W.facts):
            out.append(pt)
            if len(out) == n:
                break
    return out or [point(base, overrides)]


def _margin(p, m):
    """how clearly positive a point has to make p: facts about tiny bounds (|x| < 1e-8) need a tiny margin"""
    c = p.get(0)
    return min(m, 1e-2 * abs(float(c))) if c else m


def ok_facts(vals, facts):
    for p, op in facts:
        x = _eval(p, vals).real
        if op == ">" and not x > _margin(p, 1e-12):
            return False
        if op == ">=" and not x >= -1e-12:
            return False
        if op == "==" and abs(x) > 1e-9:
            return False
        if op == "!=" and abs(x) < 1e-9:
            return False
    return True


def region_points(region, n, tries=400, base=100):
    """points inside a parameter region; first random, then from a z3 model of the facts"""
    out = []
    over = {}
    sub = list(region.substs)
    for k in range(tries):
        pt = point(base + k, over, sub)
        if ok_facts(pt, region.facts) and ok_facts(pt, sym.W.facts):
            out.append(pt)
            if len(out) >= n:
                return out
    if not out:
        pt = solver_point(None, None, region)
        if pt is not None:
            out.append(pt)
    if not out:
        m = model_overrides(region.facts)
        if m is not None:
            m.update(over)
            for k in range(n):
                pt = point(base + k, m, sub)
                if ok_facts(pt, region.facts):
                    out.append(pt)
    return out


def model_overrides(facts):
    """values of the real parameters from a z3 model of the facts"""
    W = sym.W
    br = Z3Bridge()
    idx = set()
    s = z3.Solver()
    s.set("timeout", 8000)
    for p, op in facts:
        if W.control._convertible(p):
            idx |= set(P.atom_indices(p))
            s.add(br.fact(p, op))
    saved = W.control.path_facts
    W.control.path_facts = []
    s.add(br.axioms_for(idx))
    W.control.path_facts = saved
    if run_solver(s, "model") != z3.sat:
        return None
    md = s.model()
    out = {}
    for i, v in br.vars.items():
        if W.atoms[i].kind != "real" or W.atoms[i].name == "pi":
            continue
        x = md.eval(v, model_completion=True)
        try:
            out[W.atoms[i].name] = float(x.as_fraction()) if z3.is_rational_value(x) else float(
                x.approx(20).as_fraction())
        except Exception:
            pass
    return out


def numeric(M, vals):
    """numeric nested lists [re, im] of an array of symbolic values"""
    a = np.asarray(M, dtype=object)
    return [[[value(x, vals).real, value(x, vals).imag] for x in row] for row in a]


# ------------------------------------------------------------------ sums of path probabilities
def sum_products(lists, phases=()):
    """sum over paths of the product of their weights, factored from the last weight on;
    averaged over the given phases"""
    known = {}

    def short(w):
        if not w.d:
            return w
        r = known.get(id(w))
        if r is None:
            r = known[id(w)] = plain_denominators(w)
        return r
    lists = [[short(w) for w in l] for l in lists]
    kinds = [a.kind for a in sym.W.atoms]
    # parameters that occur in loss weights only are kept apart: they do not take part in cancellations
    mixed, seen = set(), set()
    for l in lists:
        for w in l:
            if id(w) in seen:
                continue
            seen.add(id(w))
            ix = P.atom_indices(w.n)
            if w.d or any(kinds[i] != "real" for i in ix):
                mixed.update(ix)
                for f, _ in w.d:
                    mixed.update(P.atom_indices(sym.W.factors[f]))
    groups = {}
    for l in lists:
        par, con, rest = S.c(1), S.c(1), []
        for w in l:
            if w.is_const():
                con = con * w
            elif not w.d and not any(i in mixed for i in P.atom_indices(w.n)):
                par = par * w
            else:
                rest.append(w)
        groups.setdefault(par.key(), (par, []))[1].append(([con] if con.const() != 1 else []) + rest)
    tot = S.c(0)
    for par, rest in groups.values():
        if not phases:
            tot = tot + _sum_products(rest) * par
            continue
        acc, hard = S.c(0), S.c(0)
        for t in _terms(rest):
            try:
                acc = acc + phase_average(t, phases)
            except Undecided:
                hard = hard + t
        if hard.n:
            acc = acc + phase_average(hard, phases)
        tot = tot + acc * par
    return tot


def _sum_products(lists):
    tot = S.c(0)
    for t in _terms(lists):
        tot = tot + t
    return tot


def _terms(lists):
    if not lists:
        return
    if len(lists) == 1:
        t = S.c(1)
        for w in lists[0]:
            t = t * w
        yield t
        return
    groups = {}
    done = S.c(0)
    for l in lists:
        if not l:
            done = done + 1
            continue
        k = l[-1].key()
        groups.setdefault(k, (l[-1], []))[1].append(l[:-1])
    if done.n:
        yield done
    for w, rest in groups.values():
        yield cancelled(simplify(_sum_products(rest)), w)


def _ratios(c):
    out = []
    q = Fraction(c).limit_denominator(100000)
    if q and abs(c - float(q)) < 1e-9 * abs(c):
        out.append(q)
    if c:
        q = Fraction(1 / c).limit_denominator(100000)
        if q and abs(1 / c - float(q)) < 1e-9 * abs(1 / c):
            out.append(1 / q)
    return out[:1] if len(out) == 2 and out[0] == out[1] else out


def cancelled(v, w):
    """v * w, with a denominator of w that is proportional to v cancelled (decided by normal forms)"""
    if v.is_const() or not v.n:
        return v * w
    for f, e in w.d:
        F = S(sym.W.factors[f])
        if not F.sh or F.sh != F.sh or v.sh != v.sh:
            continue
        c = v.sh / F.sh
        for q in _ratios(c.real):
            if is_zero(v - F * q):
                return (w * F) * q
        # v may be a product of which F is a part (independent samples)
        if sym.nf_factor(f).is_const():
            continue
        ev = sym.expand(v)
        if len(ev.n) * len(sym.nf_factor(f).n) > 2000000:
            continue
        q = P.exact_div(ev.n, sym.nf_factor(f).n)
        if q is not None:
            return (w * F) * (S.make(q, dict(ev.d)) * S.make(dict(P.ONE), {}) / S.make(dict(P.ONE), dict(sym.nf_factor(f).d)))
    return v * w


def simplify(v):
    """rewrite with expanded moduli when that removes the denominator"""
    if not v.d or not v.n:
        return v
    e = sym.expand(v)
    if len(e.d) < len(v.d) or (not e.d):
        return e
    return v


def plain_denominators(v):
    """denominators that are constant by unitarity are divided out, the numerator is left as it is"""
    if not v.d or not v.n:
        return v
    d, k = [], S.c(1)
    for f, e in v.d:
        g = sym.nf_factor(f)
        if g.is_const():
            k = k * g ** e
        else:
            d.append((f, e))
    if len(d) == len(v.d):
        return v
    return S.make(v.n, dict(d)) / k


def phase_average(v, phase_idx):
    """average over independent uniform phases: the constant term in them"""
    W = sym.W
    v = plain_denominators(v)
    mask = 0
    for i in phase_idx:
        mask |= (MASK << (BITS * i)) | (MASK << (BITS * W.atoms[i].conj))
    if any(P.has_atoms(W.expand_abs(W.factors[f]), mask) for f, _ in v.d):
        e = sym.expand(v)
        for f, _ in e.d:
            if P.has_atoms(W.factors[f], mask):
                raise Undecided("random phase in a denominator")
    else:
        e = S.make(W.expand_abs(v.n), dict(v.d))
    # phases cancel against their formal inverses
    out = {}
    for m, c in e.n.items():
        bal = True
        mm = m
        for i in phase_idx:
            j = W.atoms[i].conj
            a = (m >> (BITS * i)) & MASK
            b = (m >> (BITS * j)) & MASK
            if a != b:
                bal = False
                break
            mm -= (a << (BITS * i)) + (b << (BITS * j))
        if bal:
            out[mm] = out.get(mm, 0) + c
    return S.make({m: c for m, c in out.items() if c}, dict(e.d))


# ------------------------------------------------------------------ reference formulas
def permanent(rows):
    """permanent by definition (list of lists): the sum over all permutations, row by row, equal columns taken together"""
    n = len(rows)
    if n == 0:
        return S.c(1)
    cols, count = [], []
    keys = {}
    for j in range(n):
        col = [S.of(rows[i][j]) for i in range(n)]
        k = tuple(x.key() for x in col)
        if k in keys:
            count[keys[k]] += 1
        else:
            keys[k] = len(cols)
            cols.append(col)
            count.append(1)
    sums = {tuple(count): S.c(1)}           # columns left -> sum over the ways to choose the columns of the rows so far
    for i in range(n):
        nxt = {}
        for left, v in sums.items():
            for q, k in enumerate(left):
                if k:
                    rest = left[:q] + (k - 1,) + left[q + 1:]
                    t = v * cols[q][i] * k
                    nxt[rest] = nxt[rest] + t if rest in nxt else t
        sums = nxt
    return sums[(0,) * len(cols)]


def expand_state(s):
    return [i for i, k in enumerate(s) for _ in range(int(k))]


def scattering(M, s, t):
    cols, rows = expand_state(s), expand_state(t)
    return [[S.of(M[r][c]) for c in cols] for r in rows]


def fact(*ns):
    p = 1
    for n in ns:
        p *= math.factorial(int(n))
    return p


def states(n, m):
    """all occupations of m modes with n particles (reference enumeration)"""
    if m == 1:
        return [(n,)]
    return [(k,) + r for k in range(n, -1, -1) for r in states(n - k, m - 1)]


def lossless_law(M, s):
    n, m = sum(s), len(s)
    out = {}
    for t in states(n, m):
        p = permanent(scattering(M, s, t))
        out[t] = abs(p) ** 2 / fact(*s) / fact(*t)
    return out


def substates(s, k):
    out = []

    def rec(i, left, acc):
        if i == len(s):
            if left == 0:
                out.append(tuple(acc))
            return
        for v in range(min(s[i], left) + 1):
            rec(i + 1, left - v, acc + [v])
    rec(0, k, [])
    return out


def fixed_loss_law(M, s, l):
    """uniformly random loss of sum(s)-l particles, then lossless evolution"""
    n, m = sum(s), len(s)
    out = {t: S.c(0) for t in states(l, m)}
    for r in substates(s, l):
        w = Fraction(1)
        for a, b in zip(s, r):
            w *= math.comb(a, b)
        w /= math.comb(n, l)
        for t, p in lossless_law(M, r).items():
            out[t] = out[t] + p * w
    return out


def uniform_law(M, s, eta):
    n = sum(s)
    out = {}
    for l in range(n + 1):
        c = S.of(eta) ** l * (S.c(1) - eta) ** (n - l) * math.comb(n, l)
        for t, p in fixed_loss_law(M, s, l).items():
            out[t] = p * c
    return out


def channel_law(M, s, loss=None):
    """law of a lossy linear channel: coefficients of Per((M^+ X M + L)[s,s])/prod s!"""
    m = len(s)
    M = [[S.of(M[i][j]) for j in range(len(M[0]))] for i in range(len(M))]
    rows = len(M)
    idx = expand_state(s)
    n = len(idx)
    need = sorted(set(idx))
    if loss is None:
        loss = {}
        for i in need:
            for j in need:
                t = S.c(1 if i == j else 0)
                for k in range(rows):
                    t = t - M[k][i].conjugate() * M[k][j]
                loss[i, j] = t
    # entry = dict {None: loss, k: coefficient of x_k}
    zero = (0,) * rows
    unit = [tuple(1 if q == k else 0 for q in range(rows)) for k in range(rows)]
    ent = {}
    for i in need:
        for j in need:
            e = {}
            L = loss[i, j]
            if L.n:
                e[zero] = L
            for k in range(rows):
                c = M[k][i].conjugate() * M[k][j]
                if c.n:
                    e[unit[k]] = c
            ent[i, j] = e

    from functools import lru_cache

    @lru_cache(None)
    def per(r, cols):
        if r == n:
            return {zero: S.c(1)}
        out = {}
        for q, c in enumerate(cols):
            sub = per(r + 1, cols[:q] + cols[q + 1:])
            for t, v in ent[idx[r], idx[c]].items():
                for t2, v2 in sub.items():
                    key = tuple(x + y for x, y in zip(t, t2))
                    w = v * v2
                    out[key] = out[key] + w if key in out else w
        return out
    g = per(0, tuple(range(n)))
    f = fact(*s)
    return {t: v / f for t, v in g.items()}


# ------------------------------------------------------------------ laws of executions
def region_law(region, key=lambda v: v):
    """{outcome: symbolic probability}; exceptions become ('raised', type)"""
    groups = {}
    for lf in region.leaves:
        v = lf.value
        k = ("raised", type(v.exc).__name__, str(v.exc)[:200]) if isinstance(v, Raised) else key(v)
        groups.setdefault(k, []).append(lf)
    out = {}
    for k, lfs in groups.items():
        ph = set()
        for lf in lfs:
            ph |= set(lf.phases.values())
        out[k] = sum_products([lf.weights for lf in lfs], sorted(ph))
    return out
