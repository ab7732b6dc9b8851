"""Sparse multivariate polynomials over Q with packed monomials.

A polynomial is a dict {monomial: coefficient}; a monomial is a Python int holding one
12-bit exponent per atom (atom i sits at bits 12*i..12*i+11), a coefficient is an int or a
Fraction.  Integer comparison of packed monomials is a lexicographic monomial order.
Atoms with an algebraic rule (I**2 = -1, r**2 = R for square roots) are reduced eagerly.
"""
from fractions import Fraction
import heapq

BITS = 12
MASK = (1 << BITS) - 1


class PolyError(BaseException):
    pass


class Rules:
    """rule table: atom index -> (degree k, polynomial R) with atom**k = R"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.tab = {}         # index -> (degree, poly)
        self.himask = 0       # bits that signal an exponent >= 2 of a degree-2 atom
        self.algmask = 0      # all bits of ruled atoms
        self.slow = []        # (shift, degree) of atoms with degree != 2
        self.pairs = []       # (shift, shift) of a phase and its inverse: their product is one
        self.pa = self.pb = 0

    def add_pair(self, i, j):
        self.pairs.append((BITS * i, BITS * j))
        self.pa |= MASK << (BITS * i)
        self.pb |= MASK << (BITS * j)

    def add(self, idx, poly, deg=2):
        self.tab[idx] = (deg, poly)
        if deg == 2:
            self.himask |= (MASK ^ 1) << (BITS * idx)
        else:
            self.slow.append((BITS * idx, deg))
        self.algmask |= MASK << (BITS * idx)


RULES = Rules()
I_IDX = 0

ONE = {0: 1}
ZERO = {}


def norm_coef(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = norm_coef(c)
    return {0: c} if c else {}


def atom_poly(idx, e=1):
    return {e << (BITS * idx): 1}


def exps(mono):
    """list of (index, exponent)"""
    out = []
    i = 0
    while mono:
        e = mono & MASK
        if e:
            out.append((i, e))
        mono >>= BITS
        i += 1
    return out


def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    get = r.get
    for m, c in q.items():
        v = get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = norm_coef(v) if type(v) is Fraction else v
            else:
                del r[m]
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    return add(p, neg(q))


def scale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    return {m: norm_coef(v * c) for m, v in p.items()}


def _bad(r):
    hm = RULES.himask
    if RULES.slow:
        sl = RULES.slow
        return [m for m in r if m & hm or any(((m >> sh) & MASK) >= d for sh, d in sl)]
    return [m for m in r if m & hm]


def _reduce(r):
    """apply algebraic rules to a raw dict"""
    if RULES.pairs:
        pa, pb = RULES.pa, RULES.pb
        for m in [m for m in r if m & pa and m & pb]:
            mm = m
            for sa, sb in RULES.pairs:
                a, b = (m >> sa) & MASK, (m >> sb) & MASK
                if a and b:
                    k = a if a < b else b
                    mm -= (k << sa) + (k << sb)
            if mm != m:
                v = r.get(mm, 0) + r.pop(m)
                if v:
                    r[mm] = norm_coef(v)
                else:
                    r.pop(mm, None)
    bad = _bad(r)
    while bad:
        acc = {}
        for m in bad:
            c = r.pop(m)
            if not c:
                continue
            low = m
            factors = []
            for idx, (d, R) in RULES.tab.items():
                e = (m >> (BITS * idx)) & MASK
                if e >= d:
                    k = e // d
                    low -= (k * d) << (BITS * idx)
                    factors.append((R, k))
            t = {low: c}
            for R, k in factors:
                for _ in range(k):
                    t = mul_raw(t, R)
            for mm, cc in t.items():
                acc[mm] = acc.get(mm, 0) + cc
        for mm, cc in acc.items():
            v = r.get(mm, 0) + cc
            if v:
                r[mm] = norm_coef(v)
            else:
                r.pop(mm, None)
        bad = _bad(r)
    return r


def mul_raw(p, q):
    if len(p) > len(q):
        p, q = q, p
    r = {}
    get = r.get
    qi = list(q.items())
    for m1, c1 in p.items():
        for m2, c2 in qi:
            m = m1 + m2
            r[m] = get(m, 0) + c1 * c2
    return r


def mul(p, q):
    if not p or not q:
        return {}
    if len(q) == 1:
        p, q = q, p
    if len(p) == 1:
        (m1, c1), = p.items()
        if m1 == 0:
            return scale(q, c1)
    r = mul_raw(p, q)
    r = {m: (norm_coef(c) if type(c) is Fraction else c) for m, c in r.items() if c}
    return _reduce(r)


def _algebraic(p):
    """only atoms with reduction rules: powers stay small"""
    return all(i in RULES.tab for i in atom_indices(p))


def power(p, n):
    if n > 120 and not _algebraic(p) and not is_const(p):
        raise PolyError("exponent too large")
    if n == 0:
        return dict(ONE)
    if len(p) == 1:
        (m, c), = p.items()
        if m == 0:
            return {0: norm_coef(c ** n)}
    res = None
    base = p
    while n:
        if n & 1:
            res = base if res is None else mul(res, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return res


def is_const(p):
    return not p or (len(p) == 1 and 0 in p)


def const_value(p):
    return p.get(0, 0)


def content(p):
    """positive rational content"""
    from math import gcd
    g = 0
    l = 1
    for c in p.values():
        if type(c) is int:
            g = gcd(g, c)
        else:
            g = gcd(g, c.numerator)
            l = l * c.denominator // gcd(l, c.denominator)
    if type(l) is int and l != 1:
        # recompute numerators on the common denominator
        g = 0
        for c in p.values():
            g = gcd(g, int(c * l))
    return Fraction(g, l)


def primitive(p):
    """p = c * q with q having coprime integer coefficients and positive leading coef"""
    c = content(p)
    lead = p[max(p)]
    if lead < 0:
        c = -c
    if c == 1:
        return norm_coef(c), p
    return norm_coef(c), {m: norm_coef(Fraction(v) / c) for m, v in p.items()}


def _divides(a, b):
    """monomial a divides monomial b"""
    while a:
        if (a & MASK) > (b & MASK):
            return False
        a >>= BITS
        b >>= BITS
    return True


def exact_div(p, d):
    """quotient p/d if exact in the free polynomial ring, else None"""
    if not p:
        return {}
    if len(d) == 1:
        (dm, dc), = d.items()
        q = {}
        for m, c in p.items():
            if not _divides(dm, m):
                return None
            q[m - dm] = norm_coef(Fraction(c) / dc) if c % dc else c // dc
        return q
    if len(p) < len(d) and len(p) == 1:
        return None
    ld = max(d)
    td = min(d)
    if not _divides(ld, max(p)) or not _divides(td, min(p)):
        return None
    dc = d[ld]
    rest = [(m, c) for m, c in d.items() if m != ld]
    rem = dict(p)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    q = {}
    minq = min(p) - td
    while heap:
        m = -heapq.heappop(heap)
        c = rem.get(m)
        if not c:
            rem.pop(m, None)
            continue
        if not _divides(ld, m):
            return None
        qm = m - ld
        if qm < minq:
            return None
        if type(c) is int and type(dc) is int:
            qc = c // dc if c % dc == 0 else Fraction(c, dc)
        else:
            qc = norm_coef(Fraction(c) / dc)
        q[qm] = qc
        del rem[m]
        for m2, c2 in rest:
            mm = qm + m2
            v = rem.get(mm)
            if v is None:
                rem[mm] = -qc * c2
                heapq.heappush(heap, -mm)
            else:
                rem[mm] = v - qc * c2
    return q


def has_atoms(p, mask):
    for m in p:
        if m & mask:
            return True
    return False


def atoms_mask(p):
    o = 0
    for m in p:
        o |= m
    return o


def atom_indices(p):
    return [i for i, _ in exps(atoms_mask(p))]


def subs(p, mask, image):
    """replace the part of every monomial selected by mask by image(submonomial) (poly)"""
    groups = {}
    for m, c in p.items():
        s = m & mask
        g = groups.get(s)
        if g is None:
            g = groups[s] = {}
        g[m ^ s] = c
    out = {}
    for s, g in groups.items():
        t = g if s == 0 else mul(g, image(s))
        out = add(out, t) if out else t
    return out


def key(p):
    return tuple(sorted(p.items()))
