"""Exact symbolic numbers (rational functions over atoms) used in place of floats.

Every value carries a numeric shadow (its value at one fixed sample point of the symbolic
inputs).  The shadow is only a filter and a source of witnesses; no verdict rests on it.
"""
import cmath
import math
import random as _pyrandom
from fractions import Fraction
from numbers import Number

import numpy as np

from . import poly as P
from .poly import BITS, MASK


class EngineStop(BaseException):
    """base of engine control flow: never caught by `except Exception` in the code"""


class Unsupported(EngineStop):
    pass


class Prune(EngineStop):
    pass


class ParamFork(EngineStop):
    def __init__(self, key, payload):
        self.key = key
        self.payload = payload


class Atom:
    __slots__ = ("idx", "name", "kind", "conj", "nonneg", "sh", "data")

    def __init__(self, idx, name, kind, sh, nonneg=False, data=None):
        self.idx = idx
        self.name = name
        self.kind = kind
        self.conj = idx
        self.sh = sh
        self.nonneg = nonneg
        self.data = data


def _squarefree(n):
    """n = s**2 * prod(primes): return s, [primes]"""
    s, primes, d = 1, [], 2
    while d * d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        if e & 1:
            primes.append(d)
        d += 1
    if n > 1:
        primes.append(n)
    return s, primes


class World:
    """all global tables of one scenario: atoms, factors, facts, decisions"""

    def __init__(self, seed=1):
        self.reset(seed)

    def reset(self, seed=1):
        P.RULES.reset()
        self.rng = _pyrandom.Random(seed)
        self.atoms = []
        self.by_name = {}
        self.fact_ids = {}
        self.factors = []
        self.factor_sh = []
        self.facts = []            # (poly, op) with op in '>=', '>', '=='
        self.nonneg_hints = []     # polys (formal conj) known to be >= 0
        self.unitaries = []
        self.conj_cache = {}
        self.sub_cache = {}
        self.has_complex = False
        self.complex_mask = 0      # atoms that change under conjugation (not I)
        self.conjmask = 0          # formal conjugates that nf eliminates
        self.absmask = 0
        self.umask = 0             # uniform draws
        self.log = {"generic_neq": set(), "assumed": set()}
        self.prover = None
        self.control = None
        self.sqrt_cache = {}
        self.abs_cache = {}
        self.fn_cache = {}
        self.root_cache = {}
        self.eq_subst = []         # list of (atom idx, poly) substitutions valid on the path
        self.svd_candidates = []
        self.contraction = None    # (U, s) of a lossy interferometer V diag(s) U
        self.region = None
        self.int_facts = []
        self.float_error = None
        a = self.atom("I", "I", 1j)
        assert a.idx == P.I_IDX
        P.RULES.add(a.idx, {0: -1})

    # ---- atoms
    def atom(self, name, kind, sh, nonneg=False, data=None):
        idx = len(self.atoms)
        a = Atom(idx, name, kind, sh, nonneg, data)
        self.atoms.append(a)
        self.by_name[name] = a
        self.conj_cache = {}
        return a

    def real(self, name, lo=None, hi=None, strict=False, sh=None):
        if sh is None:
            if lo is not None and hi is not None:
                sh = float(lo) + (float(hi) - float(lo)) * self.rng.uniform(0.15, 0.85)
            elif lo is not None:
                sh = float(lo) + self.rng.uniform(0.2, 2)
            else:
                sh = self.rng.uniform(-1.5, 1.5)
        a = self.atom(name, "real", complex(sh), nonneg=(lo is not None and lo >= 0))
        v = S.from_atom(a)
        if lo is not None:
            self.facts.append((P.add(v.n, P.const(-Fraction(lo))), ">" if strict else ">="))
        if hi is not None:
            self.facts.append((P.add(P.neg(v.n), P.const(Fraction(hi))), ">" if strict else ">="))
        return v

    def cplx(self, name, sh=None):
        if sh is None:
            sh = complex(self.rng.uniform(-1, 1), self.rng.uniform(-1, 1))
        a = self.atom(name, "cplx", sh)
        b = self.atom(name + "~", "conj", sh.conjugate())
        a.conj, b.conj = b.idx, a.idx
        self.complex_mask |= (MASK << (BITS * a.idx)) | (MASK << (BITS * b.idx))
        self.has_complex = True
        return S.from_atom(a)

    def phase(self, name, sh=None):
        """unimodular atom e with formal inverse = conjugate"""
        if sh is None:
            sh = cmath.exp(2j * math.pi * self.rng.random())
        a = self.atom(name, "phase", sh)
        b = self.atom(name + "~", "phasebar", sh.conjugate())
        a.conj, b.conj = b.idx, a.idx
        self.complex_mask |= (MASK << (BITS * a.idx)) | (MASK << (BITS * b.idx))
        self.conjmask |= MASK << (BITS * b.idx)
        self.has_complex = True
        P.RULES.add_pair(a.idx, b.idx)
        return S.from_atom(a)

    def unitary(self, name, m, sh=None):
        """m x m matrix of atoms constrained to be unitary"""
        if sh is None:
            r = np.random.RandomState(self.rng.randrange(10 ** 6))
            z = r.normal(size=(m, m)) + 1j * r.normal(size=(m, m))
            q, rr = np.linalg.qr(z)
            d = np.diag(rr)
            sh = q * (d / abs(d))
        U = np.empty((m, m), dtype=object)
        idx = [[0] * m for _ in range(m)]
        cidx = [[0] * m for _ in range(m)]
        for i in range(m):
            for j in range(m):
                U[i, j] = self.cplx(f"{name}{i}{j}", complex(sh[i, j]))
                a = self.by_name[f"{name}{i}{j}"]
                idx[i][j] = a.idx
                cidx[i][j] = a.conj
                self.conjmask |= MASK << (BITS * a.conj)
        rec = {"m": m, "idx": idx, "cidx": cidx, "name": name}
        # cofactors and determinant as polynomials
        rec["cof"] = [[self._cofactor(idx, m, i, j) for j in range(m)] for i in range(m)]
        rec["det"] = self._det(idx, list(range(m)), list(range(m)))
        rec["detfid"] = None
        rec["mask"] = 0
        for i in range(m):
            for j in range(m):
                rec["mask"] |= MASK << (BITS * cidx[i][j])
        rec["cache"] = {}
        rec["detpow"] = {0: dict(P.ONE)}
        self.unitaries.append(rec)
        return U

    def _det(self, idx, rows, cols):
        if not rows:
            return dict(P.ONE)
        out = {}
        r = rows[0]
        for k, c in enumerate(cols):
            sub = self._det(idx, rows[1:], cols[:k] + cols[k + 1:])
            t = P.mul(P.atom_poly(idx[r][c]), sub)
            out = P.add(out, t if k % 2 == 0 else P.neg(t))
        return out

    def _cofactor(self, idx, m, i, j):
        d = self._det(idx, [r for r in range(m) if r != i], [c for c in range(m) if c != j])
        return d if (i + j) % 2 == 0 else P.neg(d)

    # ---- factors of denominators
    def factor(self, p):
        """intern a primitive non-constant polynomial"""
        k = P.key(p)
        f = self.fact_ids.get(k)
        if f is None:
            f = len(self.factors)
            self.fact_ids[k] = f
            self.factors.append(p)
            self.factor_sh.append(self.eval_poly(p))
        return f

    # ---- numeric shadow
    def eval_poly(self, p, vals=None):
        tot = 0j
        atoms = self.atoms
        for m, c in p.items():
            t = complex(float(c))
            for i, e in P.exps(m):
                v = atoms[i].sh if vals is None else vals[i]
                t *= v ** e
            tot += t
        return tot

    # ---- conjugation
    def conj_mono(self, m):
        r = self.conj_cache.get(m)
        if r is None:
            sign = 1
            out = 0
            extra = None
            for i, e in P.exps(m):
                a = self.atoms[i]
                if a.kind == "I":
                    if e & 1:
                        sign = -sign
                    out += e << (BITS * i)
                elif a.kind == "root":
                    q = P.power(a.data["conj"], e)
                    extra = q if extra is None else P.mul(extra, q)
                else:
                    out += e << (BITS * a.conj)
            r = self.conj_cache[m] = (out, sign, extra)
        return r

    def conj_poly(self, p):
        out = {}
        slow = None
        for m, c in p.items():
            mm, s, extra = self.conj_mono(m)
            if extra is None:
                v = out.get(mm, 0) + (c if s > 0 else -c)
                if v:
                    out[mm] = v
                else:
                    out.pop(mm, None)
            else:
                t = P.mul({mm: c if s > 0 else -c}, extra)
                slow = t if slow is None else P.add(slow, t)
        return out if slow is None else P.add(out, slow)

    def is_real_poly(self, p):
        cm = self.complex_mask | MASK
        if not any(m & cm for m in p) and not self.root_cache:
            return True
        return P.key(self.conj_poly(p)) == P.key(p)

    # ---- special atoms
    def sqrt_int(self, n):
        s, primes = _squarefree(n)
        v = {0: s}
        for pr in primes:
            v = P.mul(v, P.atom_poly(self.sqrt_atom_const(pr)))
        return v

    def sqrt_atom_const(self, pr):
        k = ("int", pr)
        if k not in self.sqrt_cache:
            a = self.atom(f"sqrt({pr})", "sqrt", complex(math.sqrt(pr)), nonneg=True, data={0: pr})
            P.RULES.add(a.idx, {0: pr})
            self.sqrt_cache[k] = a.idx
        return self.sqrt_cache[k]

    def sqrt_atom_poly(self, p):
        k = P.key(p)
        if k not in self.sqrt_cache:
            v = self.eval_poly(p)
            a = self.atom(f"sqrt#{len(self.atoms)}", "sqrt", complex(math.sqrt(max(v.real, 0.0))),
                          nonneg=True, data=p)
            P.RULES.add(a.idx, p)
            self.sqrt_cache[k] = a.idx
        return self.sqrt_cache[k]

    def abs_atom(self, p):
        """|p| for a primitive polynomial p"""
        q = self.conj_poly(p)
        _, q = P.primitive(q) if q else (1, q)
        k = min(P.key(p), P.key(q))
        if k not in self.abs_cache:
            a = self.atom(f"abs#{len(self.atoms)}", "abs", complex(abs(self.eval_poly(p))),
                          nonneg=True, data=p)
            self.absmask |= MASK << (BITS * a.idx)
            self.abs_cache[k] = a.idx
        return self.abs_cache[k]

    def pi(self):
        if "pi" not in self.by_name:
            a = self.atom("pi", "real", complex(math.pi), nonneg=True)
            p = P.atom_poly(a.idx)
            self.facts.append((P.add(p, P.const(-Fraction(314159, 100000))), ">"))
            self.facts.append((P.add(P.neg(p), P.const(Fraction(314160, 100000))), ">"))
        return S.from_atom(self.by_name["pi"])

    def fn_atom(self, name, arg_key, sh, nonneg=False, data=None):
        k = (name, arg_key)
        if k not in self.fn_cache:
            a = self.atom(f"{name}#{len(self.atoms)}", "fn", complex(sh), nonneg=nonneg, data=(name, data))
            self.fn_cache[k] = a.idx
            return self.atoms[a.idx], True
        return self.atoms[self.fn_cache[k]], False

    def root_of_unity(self, r):
        """exp(i*pi*r) for rational r, exact"""
        r = r % 2
        q = r * 12
        if q.denominator == 1 and (q.numerator % 2 == 0 or q.numerator % 3 == 0):
            k = q.numerator
            return S(self._cos12(k)) + S.I() * S(self._cos12(k - 6))
        n = (r / 2).denominator
        num = (r / 2).numerator % n
        if n not in self.root_cache:
            cyc = _cyclotomic(n)
            deg = len(cyc) - 1
            a = self.atom(f"zeta{n}", "root", cmath.exp(2j * math.pi / n))
            P.RULES.add(a.idx, {(e << (BITS * a.idx)): -c for e, c in enumerate(cyc[:-1]) if c}, deg)
            self.root_cache[n] = a.idx
            self.complex_mask |= MASK << (BITS * a.idx)
            a.data = {"n": n}
            a.data["conj"] = P.power(P.atom_poly(a.idx), n - 1)
        return S(P.power(P.atom_poly(self.root_cache[n]), num))

    def _cos12(self, k):
        """cos(pi*k/12) for k multiple of 2 or 3"""
        k %= 24
        if k > 12:
            k = 24 - k
        if k > 6:
            return P.neg(self._cos12(12 - k))
        h = Fraction(1, 2)
        return {0: lambda: {0: 1}, 2: lambda: P.scale(self.sqrt_int(3), h), 3: lambda: P.scale(self.sqrt_int(2), h),
                4: lambda: {0: h}, 6: lambda: {}}[k]()

    # ---- normal forms: |x|**2 expanded, formal conjugates eliminated
    def expand_abs(self, p):
        am = self.absmask
        if not am or not P.has_atoms(p, am):
            return p
        cache = self.sub_cache

        def image(s):
            r = cache.get(s)
            if r is None:
                r = dict(P.ONE)
                for i, e in P.exps(s):
                    x = self.expand_abs(self.atoms[i].data)
                    k2 = ("sq", i)
                    sq = cache.get(k2)
                    if sq is None:
                        sq = cache[k2] = P.mul(x, self.conj_poly(x))
                    r = P.mul(r, P.power(sq, e // 2))
                    if e & 1:
                        r = P.mul(r, P.atom_poly(i))
                cache[s] = r
            return r

        # odd powers stay as one atom
        out = {}
        groups = {}
        for m, c in p.items():
            groups.setdefault(m & am, {})[m & ~am] = c
        for s, g in groups.items():
            t = g if s == 0 else P.mul(g, image(s))
            out = P.add(out, t) if out else t
        return out

    def nf_poly(self, p):
        """normal form of a polynomial as (poly, {unitary index: det power}, {phase atom: power})

        value = poly / (prod det_k**a_k * prod e**b)"""
        p = self.expand_abs(p)
        dets = {}
        for ui, rec in enumerate(self.unitaries):
            mask = rec["mask"]
            if not P.has_atoms(p, mask):
                continue
            groups = {}
            K = 0
            for m, c in p.items():
                s = m & mask
                groups.setdefault(s, {})[m ^ s] = c
            degs = {s: sum(e for _, e in P.exps(s)) for s in groups}
            K = max(degs.values())
            out = {}
            for s, g in groups.items():
                img = rec["cache"].get(s)
                if img is None:
                    img = dict(P.ONE)
                    for i, e in P.exps(s):
                        for a in range(rec["m"]):
                            if i in rec["cidx"][a]:
                                b = rec["cidx"][a].index(i)
                                img = P.mul(img, P.power(rec["cof"][a][b], e))
                    rec["cache"][s] = img
                k = K - degs[s]
                if k not in rec["detpow"]:
                    rec["detpow"][k] = P.power(rec["det"], k)
                t = P.mul(P.mul(g, img), rec["detpow"][k])
                out = P.add(out, t) if out else t
            # cancel determinants
            while K and out:
                q = P.exact_div(out, rec["det"])
                if q is None:
                    break
                out = q
                K -= 1
            p = out
            if K:
                dets[ui] = K
        phs = {}
        for a in self.atoms:
            if a.kind != "phasebar":
                continue
            sh = BITS * a.idx
            mk = MASK << sh
            she = BITS * a.conj
            if not P.has_atoms(p, mk):
                continue
            K = max((m >> sh) & MASK for m in p)
            out = {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                mm = m - (e << sh) + ((K - e) << she)
                v = out.get(mm, 0) + c
                if v:
                    out[mm] = v
                else:
                    out.pop(mm, None)
            p = out
            if not p:
                break
            low = min((m >> she) & MASK for m in p)
            low = min(low, K)
            if low:
                p = {m - (low << she): c for m, c in p.items()}
                K -= low
            if K:
                phs[a.conj] = K
        for ai, rp in self.eq_subst:
            p = P.subs(p, MASK << (BITS * ai), lambda s, ai=ai, rp=rp: P.power(rp, s >> (BITS * ai)))
        return p, dets, phs


def _cyclotomic(n):
    """coefficients (low to high) of the n-th cyclotomic polynomial"""
    def divide(a, b):
        a = a[:]
        q = [0] * (len(a) - len(b) + 1)
        for i in range(len(q) - 1, -1, -1):
            q[i] = a[i + len(b) - 1] // b[-1]
            for j, c in enumerate(b):
                a[i + j] -= q[i] * c
        return q
    p = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            p = divide(p, _cyclotomic(d))
    return p


W = None  # the current world, set by new_world()


def new_world(seed=1):
    global W
    if W is None:
        W = World(seed)
    else:
        W.reset(seed)
    return W


def to_frac(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return P.norm_coef(x)
    if isinstance(x, (float, np.floating)):
        # decimal reading of the float: 0.1 means 1/10
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite float constant {x}")
        return P.norm_coef(Fraction(repr(float(x))))
    if hasattr(x, "__symint__"):
        return x.__index__()
    return None


class S:
    """exact symbolic real or complex number: n / prod factor**e"""
    __slots__ = ("n", "d", "sh", "tag", "__weakref__")

    def __init__(self, n, d=(), sh=None):
        self.tag = None         # real or imaginary part of a number, or the square of one
        self.n = n
        self.d = d
        self.sh = sh if sh is not None else self._shadow()

    def _shadow(self):
        v = W.eval_poly(self.n)
        for f, e in self.d:
            fs = W.factor_sh[f]
            if fs == 0:
                return complex("nan")
            v /= fs ** e
        return v

    # ---- constructors
    @staticmethod
    def from_atom(a):
        return S(P.atom_poly(a.idx), (), a.sh)

    @staticmethod
    def c(x):
        return S(P.const(x), (), complex(float(x)))

    @staticmethod
    def I():
        return S(P.atom_poly(P.I_IDX), (), 1j)

    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            re, im = to_frac(x.real), to_frac(x.imag)
            n = P.const(re)
            if im:
                n = P.add(n, {1 << (BITS * P.I_IDX): im})
            return S(n, (), complex(x))
        f = to_frac(x)
        if f is None:
            return None
        return S.c(f)

    # ---- structure
    def is_const(self):
        return not self.d and P.is_const(self.n)

    def const(self):
        return P.const_value(self.n)

    def is_real(self):
        if not W.is_real_poly(self.n):
            return False
        return all(W.is_real_poly(W.factors[f]) for f, _ in self.d)

    def key(self):
        return (P.key(self.n), self.d)

    @staticmethod
    def make(n, d, sh=None):
        """d: dict factor->exp; cancels exact factors"""
        if not n:
            return S({}, (), 0j)
        out = []
        for f in sorted(d):
            e = d[f]
            if not e:
                continue
            fp = W.factors[f]
            while e:
                q = P.exact_div(n, fp)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                out.append((f, e))
        return S(n, tuple(out), sh)

    # ---- arithmetic
    def __neg__(self):
        return S(P.neg(self.n), self.d, -self.sh)

    def __pos__(self):
        return self

    def __add__(self, o):
        if not isinstance(o, S):
            o = _coerce(o)
            if o is NotImplemented:
                return o
        if self.tag and o.tag and {self.tag[0], o.tag[0]} == {"re2", "im2"} and \
                (self.tag[1] is o.tag[1] or self.tag[1].key() == o.tag[1].key()):
            return abs(self.tag[1]) ** 2
        if self.d == o.d:
            n = P.add(self.n, o.n)
            if not n:
                return S({}, (), 0j)
            if not self.d:
                return S(n, (), self.sh + o.sh)
            return S.make(n, dict(self.d), self.sh + o.sh)
        da, db = dict(self.d), dict(o.d)
        lcm = dict(da)
        for f, e in db.items():
            if lcm.get(f, 0) < e:
                lcm[f] = e
        na, nb = self.n, o.n
        for f, e in lcm.items():
            ea, eb = e - da.get(f, 0), e - db.get(f, 0)
            if ea:
                na = P.mul(na, P.power(W.factors[f], ea))
            if eb:
                nb = P.mul(nb, P.power(W.factors[f], eb))
        return S.make(P.add(na, nb), lcm, self.sh + o.sh)

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, S):
            o = _coerce(o)
            if o is NotImplemented:
                return o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if not isinstance(o, S):
            o = _coerce(o)
            if o is NotImplemented:
                return o
        if not self.n or not o.n:
            return S({}, (), 0j)
        if self.tag and o.tag and (self is o or self.tag[0] == o.tag[0] in ("re", "im") and self.tag[1] is o.tag[1]):
            return self ** 2
        sh = self.sh * o.sh
        if not self.d and not o.d:
            if len(self.n) == len(o.n) > 1 and W.has_complex and _is_conj_pair(self.n, o.n):
                return _abs_sq(self.n)
            return S(P.mul(self.n, o.n), (), sh)
        if W.has_complex and len(self.n) == len(o.n) > 1 and self.d == o.d and _is_conj_pair(self.n, o.n) \
                and all(W.is_real_poly(W.factors[f]) for f, _ in self.d):
            q = _abs_sq(self.n)
            d = {f: 2 * e for f, e in self.d}
            return S.make(q.n, d, sh)
        d = dict(self.d)
        for f, e in o.d:
            d[f] = d.get(f, 0) + e
        return S.make(P.mul(self.n, o.n), d, sh)

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("symbolic division by zero")
        n = dict(P.ONE)
        for f, e in self.d:
            n = P.mul(n, P.power(W.factors[f], e))
        num, d = _denominator(self.n)
        n = P.mul(n, num)
        return S.make(n, d, 1 / self.sh if self.sh else complex("nan"))

    def __truediv__(self, o):
        if not isinstance(o, S):
            o = _coerce(o)
            if o is NotImplemented:
                return o
        if o.is_const():
            c = o.const()
            if not c:
                raise ZeroDivisionError("division by zero")
            return S(P.scale(self.n, Fraction(1) / c), self.d, self.sh / complex(float(c)))
        return self * o.inv()

    def __rtruediv__(self, o):
        if isinstance(o, (list, tuple)):
            return np.array(list(o), dtype=object) / self
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, e, mod=None):
        if isinstance(e, np.ndarray):
            return NotImplemented
        if isinstance(e, S):
            if e.is_const():
                e = e.const()
            elif self.is_const():
                return (e * self.log()).exp()
            else:
                raise Unsupported("symbolic exponent")
        e = to_frac(e)
        if e is None:
            return NotImplemented
        if isinstance(e, Fraction):
            if e.denominator == 2:
                return self.sqrt() ** e.numerator
            raise Unsupported(f"power {e}")
        if e == 0:
            return S.c(1)
        if e < 0:
            return (self ** (-e)).inv()
        if e == 1:
            return self
        d = {f: k * e for f, k in self.d}
        out = S(P.power(self.n, e), tuple(sorted(d.items())), self.sh ** e)
        if e == 2 and self.tag and self.tag[0] in ("re", "im"):
            out.tag = (self.tag[0] + "2", self.tag[1])
        return out

    def __rpow__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o ** self

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (S.of(o) / self).floor()

    def __mod__(self, o):
        return self - (self / o).floor() * o

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - q * o

    # ---- complex structure
    def conjugate(self):
        d = {}
        n = W.conj_poly(self.n)
        for f, e in self.d:
            fp = W.conj_poly(W.factors[f])
            c, fp = P.primitive(fp)
            if c != 1:
                n = P.scale(n, Fraction(1) / Fraction(c) ** e)
            g = W.factor(fp)
            d[g] = d.get(g, 0) + e
        return S(n, tuple(sorted(d.items())), self.sh.conjugate())

    conj = conjugate

    @property
    def real(self):
        if self.is_real():
            return self
        out = (self + self.conjugate()) / 2
        out.tag = ("re", self)
        return out

    @property
    def imag(self):
        if self.is_real():
            return S.c(0)
        out = (self - self.conjugate()) / (S.I() * 2)
        out.tag = ("im", self)
        return out

    def __abs__(self):
        if not self.n:
            return S.c(0)
        out = _abs_poly(self.n)
        for f, e in self.d:
            out = out / (_abs_poly(W.factors[f]) ** e)
        return out

    absolute = __abs__
    fabs = __abs__

    # ---- functions (numpy object ufuncs call these)
    def sqrt(self):
        if not self.n:
            return self
        n = self.n
        d = {}
        for f, e in self.d:
            if e & 1:
                n = P.mul(n, W.factors[f])
                e += 1
            d[f] = e // 2
        r = _sqrt_poly(n)
        out = S.make(P.mul(P.ONE, r.n), d)
        if r.d:
            out = out * S(dict(P.ONE), r.d)
        return out

    def square(self):
        return self * self

    def exp(self):
        return _exp(self)

    def log(self):
        return _log(self)

    def log2(self):
        return _log(self) / _log(S.c(2))

    def log10(self):
        return _log(self) / _log(S.c(10))

    def cos(self):
        e = _exp(self * S.I())
        return (e + e.conjugate()) / 2

    def sin(self):
        e = _exp(self * S.I())
        return (e - e.conjugate()) / (S.I() * 2)

    def floor(self):
        return W.control.floor(self)

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        return W.control.round(self)

    __ceil__ = ceil

    def trunc(self):
        if self < 0:
            return -((-self).floor())
        return self.floor()

    def __floor__(self):
        return self.floor()

    def __trunc__(self):
        return self.trunc()

    def __round__(self, nd=None):
        if nd:
            q = 10 ** nd
            return W.control.round(self * q) / q
        return W.control.round(self)

    def __int__(self):
        v = self.trunc()
        if isinstance(v, S):
            if v.is_const():
                return int(v.const())
            raise Unsupported("int() of a symbolic value in an opaque context")
        return int(v)

    def __float__(self):
        raise Unsupported("float() of a symbolic value in an opaque context")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value in an opaque context")

    def is_integer(self):
        if self.is_const():
            return Fraction(self.const()).denominator == 1
        raise Unsupported("is_integer of symbolic value")

    def item(self):
        return self

    def copy(self):
        return self

    def conj_(self):
        return self.conjugate()

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(object)

    def astype(self, t):
        from .shims import cast_dtype_scalar
        return cast_dtype_scalar(self, t)

    def tolist(self):
        return self

    def sum(self, *a, **k):
        return self

    # ---- comparisons
    def _cmp(self, o, op):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return W.control.compare(self, o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return W.control.compare(self, o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return True
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return not W.control.compare(self, o, "==")

    def __bool__(self):
        return not W.control.compare(self, S.c(0), "==")

    def __hash__(self):
        if self.is_const():
            return hash(Fraction(self.const()))
        return hash(self.key())

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __repr__(self):
        return "S(" + show(self) + ")"

    def __format__(self, spec):
        return repr(self)


Number.register(S)


def show_poly(p, limit=12):
    if not p:
        return "0"
    out = []
    for m in sorted(p, reverse=True)[:limit]:
        c = p[m]
        t = "*".join(f"{W.atoms[i].name}" + (f"^{e}" if e > 1 else "") for i, e in P.exps(m))
        out.append(f"{c}" + (f"*{t}" if t else ""))
    s = " + ".join(out)
    if len(p) > limit:
        s += f" + ...({len(p)} terms)"
    return s


def show(v, limit=12):
    s = show_poly(v.n, limit)
    for f, e in v.d:
        s += f" / ({show_poly(W.factors[f], limit)})" + (f"^{e}" if e > 1 else "")
    return s


def _coerce(o):
    if isinstance(o, S):
        return o
    if isinstance(o, np.ndarray):
        return NotImplemented
    v = S.of(o)
    if v is None:
        return NotImplemented
    return v


def _is_conj_pair(p, q):
    mask = W.complex_mask | MASK
    if not P.has_atoms(p, mask):
        return False
    # quick look at one monomial
    m = next(iter(p))
    mm, s, extra = W.conj_mono(m)
    if extra is None and mm not in q:
        return False
    return P.key(W.conj_poly(p)) == P.key(q) and not W.is_real_poly(p)


def _abs_sq(p):
    a = _abs_poly(p)
    return a * a


def _strip_monomial(p):
    """common monomial of all terms and the rest"""
    it = iter(p)
    m0 = next(it)
    com = dict(P.exps(m0))
    for m in it:
        if not com:
            break
        for i in list(com):
            e = (m >> (BITS * i)) & MASK
            if e < com[i]:
                if e:
                    com[i] = e
                else:
                    del com[i]
    if not com:
        return {}, p
    mono = sum(e << (BITS * i) for i, e in com.items())
    return com, {m - mono: c for m, c in p.items()}


def _denominator(p):
    """1/p = num / prod d: returns (num poly, {factor: exp})"""
    num = dict(P.ONE)
    d = {}
    com, rest = _strip_monomial(p)
    for i, e in com.items():
        a = W.atoms[i]
        if a.kind == "I":
            num = P.mul(num, {1 << (BITS * i): -1} if e & 1 else P.ONE)  # 1/I = -I (e is 1)
        elif a.kind == "sqrt":
            # 1/r = r/R
            num = P.mul(num, P.power(P.atom_poly(i), e))
            n2, d2 = _denominator(P.power(a.data, e))
            num = P.mul(num, n2)
            for f, k in d2.items():
                d[f] = d.get(f, 0) + k
        elif a.kind in ("phase", "phasebar"):
            num = P.mul(num, P.power(P.atom_poly(a.conj), e))
        elif a.kind == "root":
            n = a.data["n"]
            num = P.mul(num, P.power(P.atom_poly(i), (n - 1) * e))
        else:
            f = W.factor(P.atom_poly(i))
            d[f] = d.get(f, 0) + e
    if P.is_const(rest):
        num = P.scale(num, Fraction(1) / P.const_value(rest))
        return num, d
    # rationalise with respect to algebraic constants
    for i in P.atom_indices(rest):
        a = W.atoms[i]
        if a.kind == "I" or (a.kind == "sqrt" and P.is_const(a.data)):
            others = [W.atoms[j] for j in P.atom_indices(rest)]
            only_alg = all(b.kind == "I" or (b.kind == "sqrt" and P.is_const(b.data)) for b in others)
            if not only_alg and a.kind != "I":
                continue
            if not only_alg and a.kind == "I" and len(rest) > 40:
                continue
            if W.complex_mask and P.has_atoms(rest, W.complex_mask):
                continue
            # conjugate with respect to atom i
            sh = BITS * i
            cj = {m: (-c if (m >> sh) & 1 else c) for m, c in rest.items()}
            num = P.mul(num, cj)
            n2, d2 = _denominator(P.mul(rest, cj))
            num = P.mul(num, n2)
            for f, k in d2.items():
                d[f] = d.get(f, 0) + k
            return num, d
    c, prim = P.primitive(rest)
    num = P.scale(num, Fraction(1) / c)
    f = W.factor(prim)
    d[f] = d.get(f, 0) + 1
    return num, d


def _sqrt_rational(c):
    """sqrt of a positive rational as (poly)"""
    c = Fraction(c)
    return P.scale(W.sqrt_int(c.numerator * c.denominator), Fraction(1, c.denominator))


def _sqrt_poly(p):
    if P.is_const(p):
        c = P.const_value(p)
        if c < 0:
            return S(P.mul(_sqrt_rational(-c), P.atom_poly(P.I_IDX)))
        return S(_sqrt_rational(c))
    c, prim = P.primitive(p)
    com, rest = _strip_monomial(prim)
    neg = False
    if c < 0:
        c = -c
        rest = P.neg(rest)
    out = S(_sqrt_rational(c))
    for i, e in com.items():
        a = W.atoms[i]
        half, odd = divmod(e, 2)
        if half:
            base = S.from_atom(a)
            if not (a.nonneg):
                base = abs(base)
            out = out * base ** half
        if odd:
            if a.kind in ("cplx", "conj", "phase", "phasebar", "I", "root"):
                rest = P.mul(rest, P.atom_poly(i))
            else:
                out = out * S.from_atom(W.atoms[W.sqrt_atom_poly(P.atom_poly(i))])
    if not P.is_const(rest) or P.const_value(rest) != 1:
        if P.is_const(rest):
            return out * _sqrt_poly(rest)
        # |x|**2 known under its expanded form?
        r = _perfect_square(rest)
        if r is not None:
            return out * r
        out = out * S.from_atom(W.atoms[W.sqrt_atom_poly(rest)])
    return out


def _perfect_square(p):
    """sqrt of (sum c_i a_i)**2 style polynomials, and of known |x|**2"""
    ex = W.expand_abs(p)
    for k, ai in W.abs_cache.items():
        a = W.atoms[ai]
        sq = P.mul(a.data, W.conj_poly(a.data))
        if P.key(W.expand_abs(sq)) == P.key(ex):
            return S.from_atom(a)
    # p = q**2 by leading-term square root
    lead = max(p)
    if all(e % 2 == 0 for _, e in P.exps(lead)):
        c = Fraction(p[lead])
        if c > 0:
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                q = {lead // 2: P.norm_coef(Fraction(rn, rd))}
                for _ in range(len(p) + 1):
                    r = P.sub(p, P.mul(q, q))
                    if not r:
                        return abs(S(q))
                    lm = max(r)
                    l2 = lead // 2
                    if not P._divides(l2, lm):
                        return None
                    t = lm - l2
                    if t in q:
                        return None
                    q = dict(q)
                    q[t] = P.norm_coef(Fraction(r[lm]) / (2 * Fraction(q[l2])))
    return None


def _abs_poly(p):
    if P.is_const(p):
        return S.c(abs(P.const_value(p)))
    c, prim = P.primitive(p)
    com, rest = _strip_monomial(prim)
    out = S.c(abs(c))
    for i, e in com.items():
        a = W.atoms[i]
        if a.kind in ("I", "phase", "phasebar", "root"):
            continue
        if a.nonneg:
            out = out * S.from_atom(a) ** e
        elif a.kind in ("cplx", "conj"):
            b = a if a.kind == "cplx" else W.atoms[a.conj]
            out = out * S.from_atom(W.atoms[W.abs_atom(P.atom_poly(b.idx))]) ** e
        else:
            out = out * _abs_real_or_complex(P.atom_poly(i)) ** e
    if P.is_const(rest):
        return out * S.c(abs(P.const_value(rest)))
    if not P.has_atoms(rest, ~_alg_mask()):
        # algebraic constant: exact modulus
        sq = P.mul(rest, W.conj_poly(rest))
        return out * S(sq).sqrt()
    return out * _abs_real_or_complex(rest)


def _alg_mask():
    m = MASK
    for a in W.atoms:
        if a.kind == "root" or (a.kind == "sqrt" and P.is_const(a.data)):
            m |= MASK << (BITS * a.idx)
    return m


def _abs_real_or_complex(p):
    if W.is_real_poly(p):
        if W.control is not None:
            s = W.control.known_sign(S(p))
            if s is not None:
                return S(p) if s > 0 else S(P.neg(p))
        c, prim = P.primitive(p)
        return S.c(abs(c)) * S.from_atom(W.atoms[W.abs_atom(prim)])
    c, prim = P.primitive(p)
    return S.c(abs(c)) * S.from_atom(W.atoms[W.abs_atom(prim)])


def _exp(x):
    if not x.n:
        return S.c(1)
    pi = W.by_name.get("pi")
    if x.d or (x.is_real() and not (x.is_const())):
        return _exp_opaque(x)
    out = S.c(1)
    rest = {}
    for m, c in x.n.items():
        ex = dict(P.exps(m))
        isI = ex.pop(P.I_IDX, 0)
        ispi = ex.pop(pi.idx, 0) if pi else 0
        if isI == 1 and ispi == 1 and not ex:
            out = out * W.root_of_unity(Fraction(c))
        elif isI == 1 and ispi == 1 and len(ex) == 1 and W.atoms[next(iter(ex))].kind == "u" \
                and next(iter(ex.values())) == 1:
            ui = next(iter(ex))
            k = Fraction(c) / 2
            out = out * W.control.phase_of(ui, k)
        elif isI == 1 and not ispi and len(ex) == 1 and W.atoms[next(iter(ex))].kind == "angle":
            raise Unsupported("exp of angle")
        else:
            rest[m] = c
    if rest:
        return out * _exp_opaque(S(rest))
    return out


def _exp_opaque(x):
    if not x.is_real():
        raise Unsupported("exp of a general complex argument: " + show(x))
    c, _ = (P.primitive(x.n))
    # exp(k*log(y)) = y**k
    if not x.d and len(x.n) == 1:
        (m, c), = x.n.items()
        ex = P.exps(m)
        if len(ex) == 1 and ex[0][1] == 1 and W.atoms[ex[0][0]].kind == "fn" and W.atoms[ex[0][0]].data[0] == "log":
            if Fraction(c).denominator == 1:
                return W.atoms[ex[0][0]].data[1] ** int(c)
    a, new = W.fn_atom("exp", x.key(), math.exp(min(x.sh.real, 50)), nonneg=True, data=x)
    if new:
        W.facts.append((P.atom_poly(a.idx), ">"))
    return S.from_atom(a)


def _log(x):
    if x.is_const():
        c = Fraction(x.const())
        if c <= 0:
            raise ValueError("math domain error (log of non-positive constant)")
        if c == 1:
            return S.c(0)
        out = S.c(0)
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            d = 2
            while n > 1:
                while n % d == 0:
                    out = out + S.c(sg) * _log_prime(d)
                    n //= d
                d += 1 if d * d <= n else (n - d if n > d else 1)
        return out
    # log(exp(y)) and products
    if not x.d and len(x.n) == 1:
        (m, c), = x.n.items()
        if c > 0:
            out = _log(S.c(c)) if c != 1 else S.c(0)
            for i, e in P.exps(m):
                a = W.atoms[i]
                if a.kind == "fn" and a.data[0] == "exp":
                    out = out + a.data[1] * e
                else:
                    out = out + _log_atom(S.from_atom(a)) * e
            return out
    if x.d:
        out = _log(S(x.n))
        for f, e in x.d:
            out = out - _log(S(W.factors[f])) * e
        return out
    c, prim = P.primitive(x.n)
    if c > 0 and c != 1:
        return _log(S.c(c)) + _log_atom(S(prim))
    return _log_atom(x)


def _log_prime(d):
    a, new = W.fn_atom("log", ("p", d), math.log(d), nonneg=True, data=S.c(d))
    if new:
        lo = Fraction(math.floor(math.log(d) * 10 ** 9), 10 ** 9) - Fraction(1, 10 ** 9)
        p = P.atom_poly(a.idx)
        W.facts.append((P.add(p, P.const(-lo)), ">"))
        W.facts.append((P.add(P.neg(p), P.const(lo + Fraction(3, 10 ** 9))), ">"))
    return S.from_atom(a)


def _log_atom(x):
    v = x.sh.real
    a, new = W.fn_atom("log", x.key(), math.log(v) if v > 0 else float("nan"), data=x)
    if new and W.control is not None:
        one = S.c(1)
        # log is monotone: sign facts where the argument's position relative to 1 is known
        s = W.control.known_sign(x - one)
        if s is not None:
            strict = W.control.known_strict(x - one)
            p = P.atom_poly(a.idx)
            W.facts.append((p if s > 0 else P.neg(p), ">" if strict else ">="))
    return S.from_atom(a)


def expand(v):
    """normal form of a value: moduli expanded, formal conjugates eliminated"""
    n, dets, phs = W.nf_poly(v.n)
    out = S(n)
    for ui, k in dets.items():
        out = out / (S(W.unitaries[ui]["det"]) ** k)
    for ai, k in phs.items():
        out = out * S(P.atom_poly(W.atoms[ai].conj, k))
    den = None
    for f, e in v.d:
        g = nf_factor(f)
        out = out / (g ** e)
    # phases may reappear as phasebar in the numerator: keep, they are canonical monomials
    return out


def nf_factor(f):
    k = ("nf", f)
    r = W.sub_cache.get(k)
    if r is None:
        r = expand(S(W.factors[f]))
        W.sub_cache[k] = r
    return r


def is_zero(v):
    if not v.n:
        return True
    if abs(v.sh) > 1e-7 and v.sh == v.sh and not W.eq_subst:
        return False
    n, _, _ = W.nf_poly(v.n)
    return not n
