"""C16: mean-field samplers draw particles independently from the averaged network law."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1); random phases are averaged exactly (constant term of the law in them)",
               "numpy's svd is a contract stub (see C13)", "1 <= number of particles <= number of modes"]


def scenarios(tier):
    big = tier == "thorough"
    out = []
    fams = [("gg-s", [(1,)]), ("gg-1", [(1,)]), ("gg-ss", [(1, 0), (1, 1), (0, 2)]), ("gg-11", [(1, 1), (0, 1)]), ("gg-00", [(1, 1)]),
            ("gi-s0", [(1, 1)]), ("unitary", [(1, 0), (2, 0), (1, 0, 1), (0, 3, 0)]), ("gi-sss", [(1, 1, 0), (1, 1, 1)]),
            ("ir-1s0", [(0, 2, 0)]), ("identity", [(1, 1), (0, 0, 2)]), ("rr-1h0", [(1, 1, 1)]),
            ("rational", [(1, 1, 1, 0)]), ("small300", [(1, 1), (0, 2)]), ("ww-ht", [(1, 1)]), ("rr-tt", [(1, 1)]), ("rw-nn", [(2, 0)]), ("small30000", [(1, 0, 1)])]
    for fam, ins in fams:
        for s in ins:
            n = sum(s)
            for left in range(n + 1):
                out.append(sc("floss", fam, s, left=left, cap=800))
            if fam in ("unitary", "identity"):
                out.append(sc("floss", fam, s, left=n, net="lossless"))
            out.append(sc("uloss", fam, s, eta="sym", cap=800))
    for w, p in (("floss", {"left": 1}), ("uloss", {"eta": "sym"})):
        out.append(hs(w, "ii-ss", [((1, 0), 1, None), ((1, 0), 1, "new:ri-ss")], **p))
        out.append(hs(w, "identity", [((1, 0), 1, None), ((1, 0), 1, "new:unitary")], **p))
    # more particles
    out.append(sc("uloss", "identity", (2, 2, 0, 0), eta="sym", cap=800))
    for left in (1, 2):
        out.append(sc("floss", "rational" if big else "cycle", (1, 1, 1, 1), left=left, cap=800))
        out.append(sc("floss", "identity", (2, 1, 0, 1, 1), left=left, cap=800))
    for eta in ("0", "1"):
        out.append(sc("uloss", "gi-ss", (1, 1), eta=eta))
    for form in ("tuple", "array"):
        out.append(sc("floss", "gi-ss", (1, 1), left=1, form=form))
        out.append(sc("uloss", "gi-ss", (1, 1), eta="sym", form=form))
    return out
