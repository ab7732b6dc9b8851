"""C14: the non-uniform-loss approximate sampler has the documented approximate law."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1); random phases are averaged exactly (constant term of the law in them)",
               "numpy's svd is a contract stub (see C13); singular values symbolic in (0,1), exactly 1 or exactly 0",
               "worker processes are run one after another on copies of the object; their draws are independent (spawned processes)"]


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for fam, ins in (("gg-s", [(1,), (2,)]), ("gg-1", [(2,)]), ("gg-0", [(1,)]),
                     ("gg-ss", [(1, 0), (1, 1), (0, 2)]), ("gg-1s", [(1, 1)]), ("gg-11", [(1, 1), (2, 0), (0, 1)]),
                     ("gi-ss", [(1, 1), (2, 0)]), ("ri-s0", [(1, 1)]), ("gi-00", [(1, 1)]), ("gg-s=", [(1, 1), (2, 1)]),
                     ("gi-111", [(1, 0, 1), (0, 1, 1), (1, 1, 1), (0, 2, 0)]), ("gi-1ss", [(1, 0, 0), (1, 0, 1)]), ("rr-sss", [(0, 1, 1)]), ("ir-s==", [(1, 1, 0)]), ("rr-hh", [(2, 1), (2, 2)]),
                     ("rr-1h0", [(1, 1, 1), (2, 0, 1)]), ("ri-1hhh", [(1, 0, 1, 0)]),
                     ("ww-ht", [(1, 1), (0, 2)]), ("rr-tt", [(1, 1)]), ("rw-nn", [(1, 1), (2, 0)]), ("wi-1n", [(1, 1)]), ("wr-ee", [(1, 1)])):
        for s in ins:
            for k in range(len(s) + 1):
                out.append(sc("bobs", fam, s, k=k, cap=800 if not big else 7000))
    for k in (0, 1, 2):
        out.append(hs("bobs", "ii-ss", [((1, 1), 1, None), ((1, 1), 1, "new:ri-ss")], k=k))
    for k in (-1, 3):
        out.append(sc("bobs", "gi-ss", (1, 1), k=k))
    for form in ("tuple", "array"):
        out.append(sc("bobs", "gi-ss", (1, 1), k=1, form=form))
    return out
