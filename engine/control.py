"""Path control: deciding symbolic conditions, random draws, exploration; the z3 prover."""
import time
from fractions import Fraction

import z3

from . import poly as P
from . import sym
from .poly import BITS, MASK
from .sym import S, Unsupported, Prune, ParamFork, expand, is_zero

STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "by_kind": {}}


def count_query(kind, t, res):
    STATS["queries"] += 1
    STATS["solver_s"] += t
    STATS["by_kind"][kind] = STATS["by_kind"].get(kind, 0) + 1
    if res == z3.unknown:
        STATS["unknown"] += 1


def run_solver(solver, kind):
    t = time.time()
    r = solver.check()
    count_query(kind, time.time() - t, r)
    return r


class Inconclusive(Exception):
    pass


class Z3Bridge:
    def __init__(self):
        self.vars = {}

    def var(self, i):
        v = self.vars.get(i)
        if v is None:
            v = self.vars[i] = z3.Real(f"a{i}")
        return v

    def poly(self, p):
        terms = []
        for m, c in p.items():
            t = z3.RealVal(str(Fraction(c)))
            fs = []
            for i, e in P.exps(m):
                fs.extend([self.var(i)] * e)
            if fs:
                if c == 1:
                    t = fs[0] if len(fs) == 1 else z3.Product(*fs)
                else:
                    t = z3.Product(t, *fs)
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def fact(self, p, op):
        e = self.poly(p)
        return e >= 0 if op == ">=" else (e > 0 if op == ">" else (e == 0 if op == "==" else e != 0))

    def axioms_for(self, indices):
        """defining constraints of the atoms reachable from indices"""
        W = sym.W
        todo = list(indices)
        seen = set()
        cs = []
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            a = W.atoms[i]
            if a.nonneg:
                cs.append(self.var(i) >= 0)
            if a.kind == "sqrt":
                js = P.atom_indices(a.data)
                if all(W.atoms[j].kind not in ("cplx", "conj", "phase", "phasebar", "I", "root") for j in js):
                    cs.append(self.var(i) * self.var(i) == self.poly(a.data))
                    todo.extend(js)
            elif a.kind == "abs":
                js = P.atom_indices(a.data)
                if all(W.atoms[j].kind not in ("cplx", "conj", "phase", "phasebar", "I", "root") for j in js):
                    d = self.poly(a.data)
                    cs.append(z3.If(d >= 0, self.var(i) == d, self.var(i) == -d))
                    todo.extend(js)
                else:
                    sq = W.expand_abs(P.mul(a.data, W.conj_poly(a.data)))
                    js = P.atom_indices(sq)
                    if all(W.atoms[j].kind not in ("cplx", "conj", "phase", "phasebar", "I", "root") for j in js) \
                            and len(sq) <= 60:
                        cs.append(self.var(i) * self.var(i) == self.poly(sq))
                        todo.extend(js)
        # facts that only talk about seen atoms (closed under connection)
        facts = list(W.facts) + list(W.control.path_facts if W.control else [])
        changed = True
        used = set()
        while changed:
            changed = False
            for k, (p, op) in enumerate(facts):
                if k in used:
                    continue
                js = set(P.atom_indices(p))
                if js & seen:
                    used.add(k)
                    cs.append(self.fact(p, op))
                    new = js - seen
                    if new:
                        changed = True
                        for j in new:
                            seen.add(j)
                            a = W.atoms[j]
                            if a.nonneg:
                                cs.append(self.var(j) >= 0)
                            if a.kind == "sqrt":
                                cs.append(self.var(j) * self.var(j) == self.poly(a.data))
        return cs


class Control:
    def __init__(self, timeout_ms=8000):
        self.timeout_ms = timeout_ms
        self.sign_cache = {}
        self.pdec = {}
        self.path_facts = []
        self.obligations = []
        self.prefix = []
        self.cpu_count = 2
        self.max_draws = 400
        self.cut_draws = None      # paths with more random decisions are outside the bound of the scenario
        self.start()

    # ------------------------------------------------------------------ runs
    def start(self):
        self.pos = 0
        self.alts = []
        self.weights = []
        self.intervals = {}
        self.phases = {}
        self.ucount = 0
        self.run_obligations = []
        self.draws = 0
        self.streams = {}
        self.int_pc = []
        self.int_dec = {}
        self.int_val = {}

    # what is known on the current region; the proofs below are remembered per set of facts
    @property
    def path_facts(self):
        return self._path_facts

    @path_facts.setter
    def path_facts(self, facts):
        self._path_facts = facts
        self.region_key = tuple((P.key(p), op) for p, op in facts)

    # ------------------------------------------------------------------ proofs
    def known_sign(self, v):
        """+1 if provably >= 0, -1 if provably <= 0, else None"""
        W = sym.W
        if not v.n:
            return 1
        if v.is_const():
            return 1 if v.const() >= 0 else -1
        k = (v.key(), len(W.facts), self.region_key)
        if k in self.sign_cache:
            return self.sign_cache[k]
        sg = 1
        res = None
        ok = True
        for f, e in v.d:
            if e % 2 == 0:
                continue
            s = self._poly_sign(W.factors[f])
            if s is None:
                ok = False
                break
            sg *= s
        if ok:
            s = self._poly_sign(v.n)
            if s is not None:
                res = s * sg
        self.sign_cache[k] = res
        return res

    def known_strict(self, v):
        """v provably non-zero"""
        if v.is_const():
            return v.const() != 0
        k = ("ne", v.key(), len(sym.W.facts), self.region_key)
        if k in self.sign_cache:
            return self.sign_cache[k]
        r = False
        if self._convertible(v.n):
            br = Z3Bridge()
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(br.poly(v.n) == 0)
            s.add(br.axioms_for(P.atom_indices(v.n)))
            r = run_solver(s, "nonzero") == z3.unsat
        self.sign_cache[k] = r
        return r

    def _convertible(self, p):
        W = sym.W
        for i in P.atom_indices(p):
            if W.atoms[i].kind in ("cplx", "conj", "phase", "phasebar", "I", "root", "u"):
                return False
        return True

    def _poly_sign(self, p):
        W = sym.W
        if not p:
            return 1
        if P.is_const(p):
            return 1 if P.const_value(p) > 0 else -1
        k = ("poly", P.key(p), len(W.facts), self.region_key)
        if k in self.sign_cache:
            return self.sign_cache[k]
        r = self._poly_sign_uncached(p)
        self.sign_cache[k] = r
        return r

    def _mono_nonneg(self, m):
        W = sym.W
        ex = dict(P.exps(m))
        for i, e in list(ex.items()):
            a = W.atoms[i]
            if a.nonneg:
                continue
            if a.kind in ("cplx", "conj"):
                j = a.conj
                if ex.get(j, 0) != e:
                    return False
                continue
            if a.kind in ("I", "phase", "phasebar", "root", "u"):
                return False
            if e & 1:
                return False
        return True

    def _poly_sign_uncached(self, p):
        W = sym.W
        signs = set()
        ok = True
        for m, c in p.items():
            if not self._mono_nonneg(m):
                ok = False
                break
            signs.add(c > 0)
        if ok and len(signs) == 1:
            # monomials are products of non-negative atoms and squares
            return 1 if signs.pop() else -1
        v = W.eval_poly(p)
        if abs(v.imag) > 1e-6 * (1 + abs(v.real)):
            return None
        sg = 1 if v.real >= 0 else -1
        q = p if sg > 0 else P.neg(p)
        if self._convertible(q):
            br = Z3Bridge()
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            s.add(br.poly(q) < 0)
            s.add(br.axioms_for(P.atom_indices(q)))
            if run_solver(s, "sign") == z3.unsat:
                return sg
            if self.path_facts:
                # the shadow point may lie outside this region: try the other sign too
                s = z3.Solver()
                s.set("timeout", self.timeout_ms)
                s.add(br.poly(q) > 0)
                s.add(br.axioms_for(P.atom_indices(q)))
                if run_solver(s, "sign") == z3.unsat:
                    return -sg
            if not any(W.atoms[i].kind == "abs" for i in P.atom_indices(q)):
                return None
        # cone check: q as a non-negative combination of known non-negative forms
        if self._cone(q) or self._moduli(W.expand_abs(q)):
            self.lemma(q, ">=")
            return sg
        return None

    def lemma(self, p, op):
        """a fact about moduli that holds for every value of the parameters"""
        W = sym.W
        if W.eq_subst or len(W.facts) > 40 or not self._convertible(p) or P.is_const(p) or not \
                any(W.atoms[i].kind == "abs" for i in P.atom_indices(p)):
            return
        if not any(op == o and P.key(p) == P.key(x) for x, o in W.facts):
            W.facts.append((p, op))

    def _moduli(self, q):
        """z3: q >= 0 for all entries of the unitaries, when these occur as squared moduli only"""
        W = sym.W
        if len(q) > 60:
            return False
        br = Z3Bridge()
        mods = {}
        terms, reals = [], set()
        for m, c in q.items():
            ex = dict(P.exps(m))
            fs = [z3.RealVal(str(Fraction(c)))]
            for i, e in ex.items():
                a = W.atoms[i]
                if a.kind in ("cplx", "conj"):
                    if ex.get(a.conj, 0) != e:
                        return False
                    if a.kind == "cplx":
                        v = mods.get(i)
                        if v is None:
                            v = mods[i] = z3.Real(f"y{i}")
                        fs += [v] * e
                elif a.kind in ("phase", "phasebar", "I", "root", "u", "abs"):
                    return False
                else:
                    reals.add(i)
                    fs += [br.var(i)] * e
            terms.append(z3.Product(*fs))
        if not mods:
            return False
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(z3.Sum(terms) < 0)
        s.add(br.axioms_for(sorted(reals)))
        for rec in W.unitaries:
            idx = rec["idx"]
            if not any(i in mods for r in idx for i in r):
                continue
            y = [[mods[i] if i in mods else z3.Real(f"y{i}") for i in r] for r in idx]
            for k in range(rec["m"]):
                s.add(z3.Sum(y[k]) == 1, z3.Sum([r[k] for r in y]) == 1)
                s.add([x >= 0 for x in y[k]])
        for i, v in mods.items():
            s.add(v >= 0)
        return run_solver(s, "moduli") == z3.unsat

    def _cone(self, q):
        """z3 (LRA): is q = sum c_i * F_i with c_i >= 0 over registered non-negative forms?"""
        W = sym.W
        forms = []
        for k, ai in W.abs_cache.items():
            forms.append(P.atom_poly(ai, 2))
        forms += W.nonneg_hints
        if W.contraction is not None:
            forms += self._lost(q)
        if not forms:
            return False
        Q, dq, pq = W.nf_poly(q)
        rows = {}
        cs = []
        used = []
        for F in forms:
            n, d, ph = W.nf_poly(F)
            if d != dq or ph != pq:
                # bring to the same denominators
                for ui in set(d) | set(dq):
                    k = dq.get(ui, 0) - d.get(ui, 0)
                    if k < 0:
                        n = None
                        break
                    n = P.mul(n, P.power(W.unitaries[ui]["det"], k))
                if n is None:
                    continue
                bad = False
                for ai in set(ph) | set(pq):
                    k = pq.get(ai, 0) - ph.get(ai, 0)
                    if k < 0:
                        bad = True
                        break
                    n = P.mul(n, P.atom_poly(ai, k)) if k else n
                if bad:
                    continue
            used.append(n)
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        cv = [z3.Real(f"c{i}") for i in range(len(used))]
        for c in cv:
            s.add(c >= 0)
        monos = set(Q)
        for n in used:
            monos |= set(n)
        if len(monos) * len(used) > 400000:
            return False
        for m in monos:
            ts = [z3.RealVal(str(Fraction(n[m]))) * c for n, c in zip(used, cv) if m in n]
            s.add((z3.Sum(ts) if ts else z3.RealVal(0)) == z3.RealVal(str(Fraction(Q.get(m, 0)))))
        return run_solver(s, "cone") == z3.sat

    def _lost(self, q):
        """what a superposition of the first modes with equal weights and the phases of q loses in V diag(s) U"""
        W = sym.W
        U, s = W.contraction
        ph = sorted(i for i in P.atom_indices(W.expand_abs(q)) if W.atoms[i].kind == "phase")
        if not ph:
            ph = [None]
        if len(ph) > len(U):
            return []
        out = []
        for k, x in enumerate(s):
            d = S.c(1) - x * x
            if is_zero(d):
                continue
            z = S.c(0)
            for j, i in enumerate(ph):
                z = z + (U[k][j] if i is None else U[k][j] * S(P.atom_poly(i)))
            f = z * z.conjugate() * d
            if not f.d:
                out.append(f.n)
        return out

    # ------------------------------------------------------------------ comparisons
    def compare(self, a, b, op):
        W = sym.W
        diff = a - b
        if diff.is_const():
            c = diff.const()
            return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0}[op]
        if W.umask and P.has_atoms(diff.n, W.umask):
            return self._compare_u(diff, op)
        if op == "==":
            return self._equal(diff)
        if not diff.is_real():
            diff = diff.real
            if not diff.n:
                raise Unsupported("ordering of complex values with equal real parts")
            if diff.is_const():
                return self.compare(diff, S.c(0), op)
        if is_zero(diff):
            return op in ("<=", ">=")
        s = self.known_sign(diff)
        if s is not None:
            if s > 0 and op == ">=":
                return True
            if s > 0 and op == "<":
                return False
            if s < 0 and op == "<=":
                return True
            if s < 0 and op == ">":
                return False
            if self.known_strict(diff):
                return (s > 0) == (op in (">", ">="))
        # canonical form: p > 0 or p >= 0
        p = self._num_den_sign(diff)
        if op in ("<", "<="):
            p = P.neg(p)
        return self._param((P.key(P.primitive(p)[1]) if P.primitive(p)[0] > 0 else P.key(P.neg(P.primitive(p)[1])),
                            ">" if op in ("<", ">") else ">="), p, ">" if op in ("<", ">") else ">=")

    def _num_den_sign(self, v):
        p = v.n
        for f, e in v.d:
            if e & 1:
                p = P.mul(p, sym.W.factors[f])
        return p

    def _param(self, key, p, op):
        if key in self.pdec:
            return self.pdec[key]
        raise ParamFork(key, (p, op))

    def _equal(self, diff):
        W = sym.W
        if not diff.n:
            return True
        if is_zero(diff):
            return True
        if self.known_strict(diff):
            return False
        p = diff.n
        ix = P.atom_indices(p)
        kinds = {W.atoms[i].kind for i in ix}
        if kinds == {"cplx"} and len(p) <= 2 and linear_solution(p) is not None:
            c, prim = P.primitive(p)
            return self._param((P.key(prim), "=="), p, "==")
        if kinds & {"cplx", "conj", "phase", "phasebar", "I", "root", "abs"}:
            W.log["generic_neq"].add(sym.show_poly(p, 4))
            return False
        c, prim = P.primitive(p)
        return self._param((P.key(prim), "=="), p, "==")

    def _compare_u(self, diff, op):
        W = sym.W
        us = [i for i in P.atom_indices(diff.n) if W.atoms[i].kind == "u"]
        if op == "==":
            return False            # probability zero
        for f, _ in diff.d:
            if P.has_atoms(W.factors[f], W.umask):
                raise Unsupported("random draw in a denominator")
        if len(us) != 1:
            raise Unsupported("comparison of two random draws")
        ui = us[0]
        sh = BITS * ui
        n1, n0 = {}, {}
        for m, c in diff.n.items():
            e = (m >> sh) & MASK
            if e == 0:
                n0[m] = c
            elif e == 1:
                n1[m - (1 << sh)] = c
            else:
                raise Unsupported("nonlinear comparison of a random draw")
        alpha = S.make(n1, dict(diff.d))
        beta = S.make(n0, dict(diff.d))
        if not alpha.is_real() or not beta.is_real():
            raise Unsupported("complex comparison of a random draw")
        s = self.known_sign(alpha)
        if s is None:
            s = 1 if self.compare(alpha, S.c(0), ">=") else -1
        c = -(beta / alpha)
        # diff op 0  <=>  u op' c
        less = (op in ("<", "<=")) == (s > 0)
        r = self.u_less(ui, c)
        return r if less else not r

    def u_less(self, ui, c):
        """decide (randomly, both ways explored) whether draw ui is below the threshold c"""
        lo, hi = self.intervals[ui]
        a, b = c - lo, hi - c
        if is_zero(a):
            self.lemma(a.n, "==")
            return False
        if is_zero(b):
            self.lemma(b.n, "==")
            return True
        if self._geq0(a) is False:
            return False
        if self._geq0(b) is False:
            return True
        k = self.branch(2)
        if k == 0:
            self.intervals[ui] = (lo, c)
            return True
        self.intervals[ui] = (c, hi)
        return False

    def _geq0(self, v):
        s = self.known_sign(v)
        if s is not None:
            return s > 0
        return self.compare(v, S.c(0), ">=")

    # ------------------------------------------------------------------ random choices
    def branch(self, n):
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = 0
            self.prefix.append(0)
        self.alts.append(n)
        self.pos += 1
        self.draws += 1
        if self.cut_draws is not None and self.draws > self.cut_draws:
            raise Prune()
        if self.draws > self.max_draws:
            raise Unsupported("bound on random decisions per path exceeded")
        return k

    def choose(self, weights, check=True):
        """draw an index with the given weights (S, int or Fraction)"""
        ws = [S.of(w) for w in weights]
        if any(w is None for w in ws):
            raise Unsupported("non-numeric weights")
        if check:
            self.obligation("choice-weights", ws)
        live = [i for i, w in enumerate(ws) if not is_zero(w)]
        if not live:
            raise Prune()
        if len(live) == 1:
            self.weights.append(ws[live[0]])
            return live[0]
        k = self.branch(len(live))
        self.weights.append(ws[live[k]])
        return live[k]

    def uniform_index(self, n):
        if n <= 0:
            raise ValueError("empty range for random draw")
        if n == 1:
            return 0
        k = self.branch(n)
        self.weights.append(S.c(Fraction(1, n)))
        return k

    def obligation(self, kind, data):
        self.run_obligations.append((kind, data))

    def draw_u(self):
        """a fresh uniform draw on [0,1)"""
        W = sym.W
        name = f"u{self.ucount}"
        self.ucount += 1
        a = W.by_name.get(name)
        if a is None:
            a = W.atom(name, "u", complex(W.rng.random()))
            W.umask |= MASK << (BITS * a.idx)
        self.intervals[a.idx] = (S.c(0), S.c(1))
        return S.from_atom(a)

    def phase_of(self, ui, k):
        """exp(2 pi i k u) for the draw u and rational k"""
        W = sym.W
        k = Fraction(k)
        if k.denominator != 1:
            raise Unsupported("fractional phase of a random draw")
        lo, hi = self.intervals[ui]
        if not (lo.is_const() and hi.is_const() and lo.const() == 0 and hi.const() == 1):
            raise Unsupported("phase of a draw already used in a comparison")
        name = f"e{ui}"
        a = W.by_name.get(name)
        if a is None:
            W.phase(name)
            a = W.by_name[name]
        self.phases[ui] = a.idx
        v = S.from_atom(a)
        k = int(k)
        if k < 0:
            v = v.conjugate()
            k = -k
        return v ** k

    # ------------------------------------------------------------------ rounding
    def floor(self, v):
        W = sym.W
        if v.is_const():
            return int(Fraction(v.const()).__floor__())
        if W.umask and P.has_atoms(v.n, W.umask):
            return self._floor_u(v)
        k = v.key()
        a, new = W.fn_atom("floor", k, float(int(v.sh.real // 1)), data=v)
        if new:
            f = S.from_atom(a)
            self._add_fact(v - f, ">=")
            self._add_fact(f + 1 - v, ">")
            if self.known_sign(v) == 1:
                a.nonneg = True
        return S.from_atom(a)

    def _add_fact(self, v, op):
        sg = 1
        for f, e in v.d:
            if e & 1:
                s = self._poly_sign(sym.W.factors[f])
                if s is None:
                    return
                sg *= s
        sym.W.facts.append((v.n if sg > 0 else P.neg(v.n), op))

    def _floor_u(self, v):
        W = sym.W
        us = [i for i in P.atom_indices(v.n) if W.atoms[i].kind == "u"]
        if len(us) != 1:
            raise Unsupported("rounding of several random draws")
        # value range by shadow-free constant bounds: alpha*u+beta with constants
        sh = BITS * us[0]
        n1 = {m - (1 << sh): c for m, c in v.n.items() if (m >> sh) & MASK == 1}
        n0 = {m: c for m, c in v.n.items() if (m >> sh) & MASK == 0}
        al, be = S.make(n1, dict(v.d)), S.make(n0, dict(v.d))
        if not (al.is_const() and be.is_const()):
            raise Unsupported("rounding of a scaled random draw with symbolic scale")
        lo, hi = self.intervals[us[0]]
        if not (lo.is_const() and hi.is_const()):
            raise Unsupported("rounding of a conditioned random draw")
        A, B = Fraction(al.const()), Fraction(be.const())
        l, h = Fraction(lo.const()), Fraction(hi.const())
        vals = sorted((A * l + B, A * h + B))
        k = int(vals[0].__floor__())
        while k + 1 < vals[1]:
            if self.compare(v, S.c(k + 1), "<"):
                return k
            k += 1
        return k

    def round(self, v):
        if v.is_const():
            return round(Fraction(v.const()))
        return self.floor(v + Fraction(1, 2))

    # ------------------------------------------------------------------ leaf weight
    def leaf_weights(self):
        out = list(self.weights)
        for ui, (lo, hi) in self.intervals.items():
            w = hi - lo
            if w.is_const() and w.const() == 1:
                continue
            out.append(w)
        return out


class Raised:
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raised({type(self.exc).__name__}: {self.exc})"


class Leaf:
    __slots__ = ("weights", "value", "prefix", "obligations", "phases", "int_pc")

    def __init__(self, weights, value, prefix, obligations, phases, int_pc=()):
        self.int_pc = int_pc
        self.weights = weights
        self.value = value
        self.prefix = prefix
        self.obligations = obligations
        self.phases = phases


class Region:
    """a parameter region (list of facts) with all its random leaves"""

    def __init__(self, facts, leaves, pdec, substs):
        self.facts = facts
        self.leaves = leaves
        self.pdec = pdec
        self.substs = substs


def feasible(facts):
    W = sym.W
    br = Z3Bridge()
    idx = set()
    for p, op in facts:
        if not W.control._convertible(p):
            continue
        idx |= set(P.atom_indices(p))
    s = z3.Solver()
    s.set("timeout", 8000)
    saved = W.control.path_facts
    W.control.path_facts = []
    s.add(br.axioms_for(idx))
    W.control.path_facts = saved
    for p, op in facts:
        if W.control._convertible(p):
            s.add(br.fact(p, op))
    r = run_solver(s, "feasible")
    return r != z3.unsat


def neg_fact(p, op):
    if op == ">":
        return (P.neg(p), ">=")
    if op == ">=":
        return (P.neg(p), ">")
    return (p, "!=")


def linear_solution(p):
    """atom index and polynomial value if p == 0 can be solved for a real parameter"""
    W = sym.W
    best = None
    for i in P.atom_indices(p):
        a = W.atoms[i]
        if a.kind == "cplx":
            if any(i in row for rec in W.unitaries for row in rec["idx"]):
                continue
        elif a.kind not in ("real", "fn"):
            continue
        sh = BITS * i
        hi = {m: c for m, c in p.items() if (m >> sh) & MASK}
        if len(hi) == 1:
            (m, c), = hi.items()
            if m == 1 << sh:
                rest = {mm: cc for mm, cc in p.items() if mm != m}
                return i, P.scale(rest, Fraction(-1) / Fraction(c))
    # eta*(1-eta)-like or pure powers: x**k = 0
    if len(p) == 1:
        (m, c), = p.items()
        ex = P.exps(m)
        if len(ex) == 1:
            return ex[0][0], {}
    return None


def explore(fn, max_leaves=20000, max_regions=64, catch=Exception, on_region=None):
    """run fn() over all decisions; returns a list of Regions"""
    W = sym.W
    C = W.control
    todo = [({}, [], [], len(W.facts))]
    regions = []
    nleaves = 0
    while todo:
        pdec, facts, substs, known = todo.pop()
        if len(W.facts) > known and not feasible(facts):
            continue
        known = len(W.facts)
        C.pdec = pdec
        C.path_facts = facts
        W.eq_subst = list(substs)
        prefix = []
        leaves = []
        fork = None
        while True:
            C.prefix = prefix
            C.start()
            try:
                try:
                    val = fn()
                except catch as e:
                    val = Raised(e)
                leaves.append(Leaf(C.leaf_weights(), val, list(prefix), C.run_obligations, dict(C.phases),
                                   list(C.int_pc)))
                nleaves += 1
                if nleaves > max_leaves:
                    raise Unsupported("too many paths")
            except Prune:
                pass
            except ParamFork as f:
                fork = f
                break
            # next prefix
            k = C.pos - 1
            del prefix[C.pos:]
            while k >= 0 and prefix[k] + 1 >= C.alts[k]:
                k -= 1
            if k < 0:
                break
            del prefix[k + 1:]
            prefix[k] += 1
        if facts and len(W.facts) > known and not feasible(facts):
            continue                # a lemma found on the way excludes this region
        if fork is None:
            regions.append(Region(facts, leaves, pdec, substs))
            if len(regions) > max_regions:
                raise Unsupported("too many parameter regions")
            continue
        p, op = fork.payload
        for val in (False, True):
            nf = (p, op) if val else neg_fact(p, op)
            fs = facts + [nf]
            ns = substs
            if op == "==" and val:
                sol = linear_solution(p)
                if sol is None:
                    # a measure-zero set that cannot be parametrised: left out, recorded
                    W.log["generic_neq"].add(sym.show_poly(p, 4))
                    continue
                ns = substs + [sol]
                if W.atoms[sol[0]].kind == "cplx":
                    ns = ns + [(W.atoms[sol[0]].conj, W.conj_poly(sol[1]))]
            if not feasible(fs):
                continue
            d = dict(pdec)
            d[fork.key] = val
            todo.append((d, fs, ns, len(W.facts)))
    W.control.pdec = {}
    W.control.path_facts = []
    W.eq_subst = []
    return regions
