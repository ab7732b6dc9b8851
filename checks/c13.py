"""C13: the lossy-network Clifford sampler follows the law of the lossy interferometer."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1)",
               "numpy's svd is a contract stub: it returns a decomposition V diag(s) U of the given matrix with descending s, checked against "
               "the contract; the singular values are symbolic in (0,1) (letter s), exactly 1, or exactly 0",
               "V, U: g = generic unitary, i = identity, r = rational orthogonal"]


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for fam, ins in (("gg-s", [(1,), (2,), (3,)]), ("gg-0", [(1,), (2,)]), ("gg-1", [(2,)]),
                     ("gg-ss", [(1, 0), (0, 1), (1, 1), (2, 0), (0, 2)]), ("gg-1s", [(1, 1), (0, 2)]), ("gg-s0", [(1, 1), (0, 2)]),
                     ("gg-s=", [(1, 1), (0, 2)]), ("gg-11", [(1, 1), (2, 1)]), ("gg-00", [(1, 1)]), ("ri-ss", [(2, 1), (0, 3)]),
                     ("gi-ss", [(1, 1), (2, 1)]), ("ig-ss", [(1, 1), (1, 2)]), ("ii-ss", [(1, 1), (2, 1)]),
                     ("gi-sss", [(1, 0, 0), (1, 0, 1), (0, 1, 1)]), ("ig-sss", [(1, 0, 1), (0, 2, 0)]), ("ri-1ss", [(1, 1, 0), (0, 0, 2)]),
                     ("ir-1s0", [(1, 0, 1)]), ("rr-sss", [(1, 1, 0)]), ("gg-h", [(4,)]), ("rr-hh", [(2, 2), (3, 1), (0, 4)]),
                     ("rr-1h0", [(1, 1, 1), (2, 0, 1)]), ("rr-h==", [(1, 1, 1), (0, 2, 1)]), ("rr-1hhh", [(1, 0, 1, 0)]), ("ri-sss", [(1, 1, 1)]),
                     ("gg-hh", [(2, 1), (1, 2)]), ("ww-ht", [(1, 1), (0, 2)]), ("rr-tt", [(1, 1)]), ("rw-nn", [(1, 1), (2, 0)]), ("wi-1n", [(1, 1)]), ("wr-ee", [(1, 1), (0, 2)]),
                     ("ww-1hh", [(1, 0, 1)])):
        for s in ins:
            out.append(sc("lngcc", fam, s, cap=800 if not big else 7000))
    for calc in ("classic", "glynn", "chinhuh"):
        out.append(sc("lngcc", "ir-ss", (1, 1), calc=calc))
    for form in ("tuple", "array"):
        out.append(sc("lngcc", "gi-ss", (1, 1), form=form))
    a, b = (1, 1), (0, 2)
    out.append(hs("lngcc", "ii-ss", [(a, 1, None), (a, 1, "new:ri-ss")]))
    out.append(hs("lngcc", "ri-ss", [(a, 1, None), (a, 1, "new:gi-11")]))
    out.append(hs("lngcc", "gi-ss", [(a, 1, "ri-ss")]))
    out.append(hs("lngcc", "ri-ss", [(a, 1, None), (a, 1, "gi-11")]))
    out.append(hs("lngcc", "ri-ss", [(b, 1, "ii-s0"), (a, 1, None)]))
    out.append(hs("lngcc", "ii-11", [(a, 1, None), (b, 1, "ri-ss")]))
    out.append(hs("lngcc", "gi-ss", [((1, 0), 2, None)]))
    for x, y in (("plus", "minus"), ("minus", "plus")):
        out.append(sc("lngcc", x, a))
        out.append(sc("lngcc", x, b))
        out.append(hs("lngcc", x, [(a, 1, None), (a, 1, y)]))
        out.append(hs("lngcc", "ri-hh", [(a, 1, x), (a, 1, y)]))
    out.append(hs("lngcc", "ri-hh", [(a, 1, None), (a, 1, "inplace:ii-1h")]))
    out.append(hs("lngcc", "ri-hh", [(a, 1, "ii-h0"), (a, 1, "inplace:ir-1h")]))
    out.append(hs("lngcc", "ii-1h", [(a, 1, "inplace:ri-hh"), (b, 1, "inplace:ii-11")]))
    return out
