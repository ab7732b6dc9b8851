"""C08: the generalized Clifford sampler follows the exact lossless law."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1)",
               "'unitary' means all entries of a unitary matrix in general position (no entry or intermediate amplitude vanishes); exact zeros "
               "are covered by the structured families (identity, cycle, block)"]
W1 = "gcc"


def scenarios(tier, which=W1):
    big = tier == "thorough"
    out = []
    ins = [s for m, n in [(1, 0), (1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (2, 4), (1, 5)] for s in occupations(m, n)]
    ins += [(1, 1, 1), (2, 0, 1), (0, 1, 2), (0, 3, 0), (1, 0, 1, 0)]
    ins += [s for s in occupations(3, 3) if s not in ins] + occupations(4, 2) + [(2, 3), (2, 0, 2), (1, 1, 2)]
    if big:
        ins += [(1, 1, 1, 0), (0, 1, 1, 1), (2, 1, 0, 0), (0, 5), (3, 2), (0, 3, 1), (1, 0, 3)] + occupations(5, 2)[::3] + [(6,), (2, 4)]
    for s in dict.fromkeys(ins):
        out.append(sc(which, "unitary", s, cap=800 if not big else 7000))
    for fam in ("identity", "cycle", "block", "block-last", "rational"):
        for s in [(1, 1), (0, 2), (2, 1), (1, 0, 1), (1, 1, 1), (0, 2, 1), (2, 0, 1)] + [(2, 2, 0), (1, 0, 3), (1, 1, 0, 1)] + ([(1, 1, 1, 1), (2, 0, 1, 1), (0, 3, 2)] if big else []):
            if fam.startswith("block") and len(s) < 3:
                continue
            out.append(sc(which, fam, s))
    if which in ("gcc",):
        for calc in ("classic", "glynn", "chinhuh"):
            for s in [(1,), (1, 1), (2, 0), (0, 2), (2, 1), (1, 0, 1), (0, 1, 1)] + ([(1, 1, 1), (2, 0, 1)] if big else []):
                out.append(sc(which, "unitary", s, calc=calc))
            for s in [(1, 1, 1), (2, 0, 1), (0, 2, 1)]:
                out.append(sc(which, "rational", s, calc=calc))
    for s in [(3, 2), (0, 5), (4, 1), (1, 1, 0, 0), (1, 0, 1, 1), (2, 0, 0, 1), (0, 2, 2), (1, 2, 1), (3, 0, 1)]:
        out.append(sc(which, "rational", s, cap=400))
    for fam in ("small300", "small30000"):
        for s in [(1, 0), (1, 1), (2, 1), (0, 3), (1, 0, 1), (0, 2, 1)]:
            out.append(sc(which, fam, s))
    for s in [(1, 1), (1, 0, 1), (2, 1)]:
        out.append(hs(which, "identity", [(s, 1, None), (s, 1, "new:rational")]))
    out.append(hs(which, "rational", [((1, 1), 1, None), ((1, 1), 1, "new:unitary")]))
    for form in ("tuple", "array"):
        out.append(sc(which, "unitary", (1, 0, 1), form=form))
        out.append(sc(which, "unitary", (2, 1), form=form))
    return out
