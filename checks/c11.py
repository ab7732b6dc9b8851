"""C11: uniform-loss Clifford samplers follow the exact uniform-loss law."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1)",
               "eta is symbolic in (0,1); the end points 0 and 1 and 1/2 are separate scenarios",
               "'unitary' means all entries of a unitary matrix in general position; exact zeros are covered by the structured families"]


def scenarios(tier):
    big = tier == "thorough"
    out = []
    ins = [s for m, n in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)] for s in occupations(m, n)]
    ins += [(1, 1, 1), (2, 0, 1), (0, 0, 3), (0,), (0, 0)]
    ins += occupations(2, 4)
    if big:
        ins += [s for s in occupations(3, 3) if s not in ins] + occupations(4, 2)
    for which in ("ugcc", "ugccb"):
        for s in ins:
            out.append(sc(which, "unitary", s, eta="sym", cap=800 if not big else 7000))
        for eta in ("0", "1", "1/2"):
            for s in [(1,), (1, 1), (0, 2), (1, 0, 1), (2, 1), (1, 1, 1)]:
                out.append(sc(which, "unitary", s, eta=eta))
        for fam in ("identity", "cycle", "block", "rational"):
            for s in [(1, 1), (2, 1), (1, 0, 1), (1, 1, 1), (0, 2, 1)]:
                if fam.startswith("block") and len(s) < 3:
                    continue
                out.append(sc(which, fam, s, eta="sym"))
        for fam, eta in (("small300", "sym"), ("small30000", "1/2"), ("rational", "1/100000"), ("rational", "99999/100000")):
            for s in [(1, 1), (2, 1), (1, 0, 1)]:
                out.append(sc(which, fam, s, eta=eta))
        for calc in ("classic", "glynn", "chinhuh"):
            for s in [(1, 1), (0, 2), (1, 0, 1)]:
                out.append(sc(which, "unitary", s, eta="sym", calc=calc))
        for s in [(2, 2), (0, 4), (3, 1), (1, 1, 0, 1), (2, 0, 1), (1, 2, 1)] + ([(4, 1)] if which == "ugcc" or big else []) + ([(0, 5)] if big else []):
            out.append(sc(which, "rational", s, eta="sym", cap=400))
        out.append(hs(which, "identity", [((1, 1), 1, None), ((1, 1), 1, "new:rational")], eta="sym"))
        out.append(hs(which, "rational", [((2, 0), 1, None), ((2, 0), 1, "new:unitary")], eta="sym"))
        out.append(sc(which, "unitary", (1, 0, 1), eta="sym", form="array"))
        out.append(sc(which, "unitary", (1, 0, 1), eta="sym", form="tuple"))
    return out
