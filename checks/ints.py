"""Helpers for the harnesses over symbolic integers."""
import z3

from engine import symint
from engine.symint import fresh, prove
from engine.control import run_solver
from .common import *


def missing(ctx, m, constraints, listed, kind="completeness"):
    """z3: is there a vector of m integers satisfying the constraints that is not listed?  None or the vector"""
    ctx.claims += 1
    t = [z3.Int(f"t{i}") for i in range(m)]
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", 120000)
    s.add(constraints(t))
    # the listed vectors as a decision tree over the coordinates
    s.add(z3.Not(member(t, sorted(set(listed)), 0)))
    r = run_solver(s, kind)
    if r == z3.unsat:
        return None
    if r == z3.sat:
        md = s.model()
        return tuple(md.eval(x, model_completion=True).as_long() for x in t)
    raise Undecided("z3 unknown on completeness")


def member(t, vecs, i):
    if i == len(t):
        return z3.BoolVal(bool(vecs))
    groups = {}
    for v in vecs:
        groups.setdefault(v[i], []).append(v)
    return z3.Or([z3.And(t[i] == k, member(t, g, i + 1)) for k, g in groups.items()])


def extra(ctx, m, constraints, listed, kind="validity"):
    """z3: does a listed vector violate the constraints?"""
    ctx.claims += 1
    t = [z3.Int(f"t{i}") for i in range(m)]
    s = z3.SolverFor("QF_LIA")
    s.set("timeout", 120000)
    s.add(z3.Not(z3.And(constraints(t))))
    s.add(member(t, sorted(set(listed)), 0))
    r = run_solver(s, kind)
    if r == z3.unsat:
        return None
    if r == z3.sat:
        md = s.model()
        return tuple(md.eval(x, model_completion=True).as_long() for x in t)
    raise Undecided("z3 unknown on validity")


def whole(listed):
    """tuples of plain integers of equal length, or None"""
    try:
        return [plain(v) for v in listed]
    except (ValueError, TypeError):
        return None


def scramble(x):
    """what a caller may do to a result it owns"""
    if isinstance(x, list):
        for v in x:
            scramble(v)
        x.reverse()
        x += x[:1]
    elif isinstance(x, np.ndarray) and x.size:
        try:
            x[...] = 7
        except ValueError:
            pass
