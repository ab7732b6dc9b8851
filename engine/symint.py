"""Bounded symbolic integers (z3 Int terms).  Comparisons fork the path when both outcomes are
possible; uses that need a concrete number (indexing, range) fork over the feasible values."""
import z3

from . import sym
from .control import run_solver
from .sym import Unsupported


def _pc():
    C = sym.W.control
    if not hasattr(C, "int_pc"):
        C.int_pc = []
    return C.int_pc


def term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.IntVal(int(x))


def holds(cond, kind="int-branch"):
    """can cond be true on this path?"""
    s = z3.Solver()
    s.set("timeout", 10000)
    s.add(sym.W.int_facts)
    s.add(_pc())
    s.add(cond)
    r = run_solver(s, kind)
    if r == z3.unknown:
        raise Unsupported("z3 unknown on an integer condition")
    return r == z3.sat


def decide(cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    key = cond.sexpr()
    C = sym.W.control
    dec = C.__dict__.setdefault("int_dec", {})
    if key in dec:
        return dec[key]
    t, f = holds(cond), holds(z3.Not(cond))
    if t and f:
        r = C.branch(2) == 0
    else:
        r = t
    _pc().append(cond if r else z3.Not(cond))
    dec[key] = r
    return r


class SymInt:
    __slots__ = ("t",)
    __symint__ = True

    def __init__(self, t):
        self.t = t

    # arithmetic
    def _b(self, o, f):
        if isinstance(o, (int, SymInt)) or hasattr(o, "__index__"):
            return SymInt(z3.simplify(f(self.t, term(o))))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._b(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._b(o, lambda a, b: b * a)

    def __neg__(self):
        return SymInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if getattr(sym.W, "int_exact", None) and (isinstance(o, SymInt) or type(o) is int) and o > 0:
            return SymInt(z3.simplify(self.t / term(o)))
        return self.__index__() // int(o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if getattr(sym.W, "int_exact", None) and (isinstance(o, SymInt) or type(o) is int) and o > 0:
            return SymInt(z3.simplify(self.t % term(o)))
        return self.__index__() % int(o)

    def __divmod__(self, o):
        return self // o, self % o

    def __rmod__(self, o):
        return o % self.__index__()

    def __truediv__(self, o):
        from .shims import safe_div
        return safe_div(self.__index__(), o.__index__() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        from .shims import safe_div
        return safe_div(o, self.__index__())

    def __pow__(self, o):
        from .shims import safe_pow
        return safe_pow(self.__index__(), int(o))

    def __rpow__(self, o):
        from .shims import safe_pow
        return safe_pow(o, self.__index__())

    # comparisons
    def _c(self, o, f):
        if isinstance(o, (int, SymInt)) or (hasattr(o, "__index__") and not isinstance(o, sym.S)):
            return decide(f(self.t, term(o)))
        if isinstance(o, sym.S):
            return NotImplemented
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return False
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list)):
            return True
        r = self._c(o, lambda a, b: a == b)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return decide(self.t != 0)

    def __hash__(self):
        return hash(self.__index__())

    # concretisation
    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        C = sym.W.control
        dec = C.__dict__.setdefault("int_val", {})
        key = t.sexpr()
        if key in dec:
            return dec[key]
        vals = []
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(sym.W.int_facts)
        s.add(_pc())
        while True:
            r = run_solver(s, "int-value")
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported("z3 unknown on an integer value")
            v = s.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            s.add(t != v)
            if len(vals) > 4096:
                raise Unsupported("unbounded symbolic integer")
        if not vals:
            raise sym.Prune()
        vals.sort()
        v = vals[C.branch(len(vals))] if len(vals) > 1 else vals[0]
        _pc().append(t == v)
        dec[key] = v
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")

    def __round__(self, nd=None):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return self.__index__().bit_length()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __repr__(self):
        return f"<{self.t}>"

    def __format__(self, spec):
        return repr(self)


class SymSqrt:
    """square root of a symbolic integer that is at most W.int_exact; only its whole part is ever used"""
    __symsqrt__ = True

    def __init__(self, x):
        self.x = x

    def floor(self):
        n = sym.W.int_exact
        k, parts = 1, []
        while k * k <= n:
            parts.append(z3.If(self.x.t >= k * k, 1, 0))
            k += 1
        return SymInt(z3.Sum(parts)) if parts else 0

    __int__ = __index__ = lambda self: int(self.floor())
    __floor__ = floor

    def __ceil__(self):
        r = self.floor()
        return r if r * r == self.x else r + 1

    def _cmp(self, o, f):
        if isinstance(o, (int, SymInt)):
            return o >= 0 and f(self.x, o * o)
        return NotImplemented

    def __ge__(self, o):
        return True if isinstance(o, int) and o < 0 else self._cmp(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return True if isinstance(o, int) and o < 0 else self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __add__(self, o):
        return SymSqrtPlus(self, o)

    __radd__ = __add__

    def is_integer(self):
        r = self.floor()
        return r * r == self.x


class SymSqrtPlus:
    """sqrt(x) + k"""
    __symsqrt__ = True

    def __init__(self, r, k):
        self.r, self.k = r, k

    def floor(self):
        return self.r.floor() + self.k

    __int__ = __index__ = lambda self: int(self.floor())
    __floor__ = floor


class LazyRange:
    """range whose ends are symbolic; whether it goes on is decided step by step"""

    def __init__(self, a, b=None, c=1):
        self.a, self.b, self.c = (0, a, c) if b is None else (a, b, c)

    def __iter__(self):
        i = self.a
        while (i < self.b) if self.c > 0 else (i > self.b):
            yield i
            i = i + self.c

    def __len__(self):
        return sum(1 for _ in self)


def fresh(name, lo, hi):
    v = z3.Int(name)
    sym.W.int_facts += [v >= lo, v <= hi]
    return SymInt(v)


def prove(ctx, goal, pc=(), kind="int-claim"):
    """None if goal holds for all values on the path, else a z3 model"""
    ctx.claims += 1
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(sym.W.int_facts)
    s.add(list(pc))
    s.add(z3.Not(goal))
    r = run_solver(s, kind)
    if r == z3.unsat:
        return None
    if r == z3.sat:
        return s.model()
    from .check import Undecided
    raise Undecided("z3 unknown on an integer claim")
