"""C18: simulations have no memory: repeated calls and samples are independent."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1) within a process; forked workers inherit the random state of their parent",
               "random phases are averaged exactly",
               "worker processes are run one after another on copies of the object",
                "histories of two or three calls with one to three samples in total"]
PAR = {"ugcc": {"eta": "sym"}, "ugccb": {"eta": "sym"}, "uloss": {"eta": "sym"}, "floss": {"left": 1}, "bobs": {"k": 1},
       "ubobs": {"k": 1, "eta": "sym"}}
ALL = ("gcc", "gccb", "magcc", "ugcc", "ugccb", "lngcc", "bobs", "ubobs", "floss", "uloss")


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for w in ALL:
        p = PAR.get(w, {})
        hist = [
            # samples of one call
            ("unitary", [((1, 0), 2, None)]),
            ("unitary", [((1, 1), 2, None)]),
            ("rational", [((1, 1), 3, None)]),
            ("rational", [((2, 0), 2, None)]),
            # calls after each other: same input, other input with as many, fewer, more particles, vacuum
            ("unitary", [((1, 0), 1, None), ((1, 0), 1, None)]),
            ("unitary", [((1, 0), 1, None), ((0, 1), 1, None)]),
            ("unitary", [((1, 1), 1, None), ((0, 1), 1, None)]),
            ("unitary", [((0, 1), 1, None), ((1, 1), 1, None)]),
            ("unitary", [((2, 0), 1, None), ((0, 2), 1, None)]),
            ("unitary", [((2, 0), 1, None), ((1, 1), 1, None)]),
            ("rational", [((1, 1), 1, None), ((2, 0), 1, None)]),
            ("rational", [((0, 1, 1), 1, None), ((1, 0, 0), 1, None)]),
            ("rational", [((1, 0, 0), 1, None), ((0, 1, 1), 1, None)]),
            ("rational", [((1, 0), 1, None), ((0, 1), 1, None), ((1, 0), 1, None)]),
            ("identity", [((1, 0), 1, None), ((0, 1), 1, None), ((1, 1), 1, None)]),
            ("cycle", [((1, 0, 1), 1, None), ((0, 1, 1), 1, None)]),
            ("unitary", [((1, 0), 0, None), ((0, 1), 1, None)]),
        ]
        if w not in ("floss", "uloss"):
            hist += [("unitary", [((1, 1), 1, None), ((0, 0), 1, None)]), ("unitary", [((0, 0), 1, None), ((1, 1), 1, None)]),
                     ("rational", [((1, 2), 1, None), ((2, 0), 1, None)])]
        if w == "lngcc":
            hist += [("gi-ss", [((1, 0), 1, None), ((0, 1), 1, None)]), ("gi-ss", [((1, 0), 2, None)]), ("ir-s=", [((1, 1), 1, None), ((1, 0), 1, None)])]
        if w == "bobs":
            hist += [("gi-ss", [((1, 0), 1, None), ((0, 1), 1, None)]), ("gi-ss", [((1, 0), 2, None)]), ("ir-s=", [((1, 1), 1, None), ((1, 0), 1, None)])]
        if w in ("floss", "uloss"):
            hist += [("gi-ss", [((1, 0), 2, None)])]
        if big:
            hist += [("rational", [((1, 1), 1, None), ((1, 0), 2, None)]), ("rational", [((1, 1, 0), 1, None), ((0, 0, 2), 1, None)]),
                     ("unitary", [((1, 1), 1, None), ((2, 0), 1, None), ((0, 1), 1, None)]), ("unitary", [((2, 0), 2, None)]),
                     ("unitary", [((0, 1, 1), 1, None), ((1, 0, 0), 1, None)])]
        for fam, calls in hist:
            if w == "uloss" and calls == [((1, 1), 3, None)]:
                fam = "identity"
            out.append(hs(w, fam, calls, cap=500 if not big else 6000, **p))
        for form in ("tuple", "array"):
            out.append(hs(w, "unitary", [((1, 0), 1, None), ((0, 1), 1, None)], form=form, **p))
        for form in ("reused", "reused array"):
            out.append(hs(w, "rational", [((1, 0), 1, None), ((0, 1), 1, None)], form=form, **p))
            out.append(hs(w, "identity" if w == "uloss" else "rational", [((1, 1), 1, None), ((0, 2), 1, None), ((1, 0), 1, None)], form=form, **p))
        out.append(hs(w, "rational", [((1, 0), 1, None), ((0, 1), 1, None)], sim=True, **p))
    for w in ("gcc", "gccb", "magcc", "ugcc", "ugccb"):
        p = dict(PAR.get(w, {}))
        if "eta" in p:
            p["eta"] = "1/2"
        if w.endswith("b"):
            out.append(hs(w, "rational", [((0, 1), 1, None), ((2, 1), 1, None)], cap=500, **p))
            continue
        out.append(hs(w, "rational", [((2, 2), 2, None)], cap=500, **p))
        out.append(hs(w, "rational", [((0, 3), 1, None), ((2, 2), 1, None)], cap=500, **p))
        out.append(hs(w, "rational", [((1, 1, 1), 2, None)], cap=500, **p))
    for w in ("gcc", "magcc", "ugcc", "ugccb"):
        p = PAR.get(w, {})
        out.append(hs(w, "rational", [((1, 0), 1, None), ((1, 0), 1, "unitary")], **p))
        out.append(hs(w, "unitary", [((1, 1), 1, None), ((1, 1), 1, "cycle")], **p))
        out.append(hs(w, "identity", [((0, 1), 1, None), ((2, 0), 1, "rational"), ((2, 0), 1, "identity")], **p))
        out.append(hs(w, "identity", [((1, 0), 1, None), ((1, 0), 1, "inplace:rational"), ((1, 0), 1, "inplace:cycle")], **p))
        out.append(hs(w, "identity", [((1, 1), 1, "cycle"), ((1, 1), 1, "inplace:rational")], **p))
        out.append(hs(w, "rational", [((1, 1, 0), 1, None), ((1, 1, 0), 1, "turned")], **p))
        out.append(hs(w, "rational", [((1, 0, 1, 0), 1, None), ((1, 0, 1, 0), 1, "fourier")], **p))
    for w in ALL:
        p = PAR.get(w, {})
        out.append(hs(w, "identity", [((1, 1), 1, None), ((1, 1), 1, "new:rational")], **p))
        out.append(hs(w, "rational", [((1, 0), 1, None), ((1, 0), 1, "new:unitary")], **p))
        out.append(hs(w, "cycle", [((1, 0, 1), 1, None), ((1, 0, 1), 1, "new:identity")], **p))
    for w, new in (("gccb", "rational"), ("lngcc", "ir-ss"), ("gccb", "identity")):
        out.append(hs(w, "unitary" if w == "gccb" else "gi-ss", [((1, 0), 1, None), ((1, 0), 1, new)]))
        out.append(hs(w, "unitary" if w == "gccb" else "gi-ss", [((1, 1), 1, None), ((0, 1), 1, new)]))
    out.append(hs("gccb", "identity", [((1, 1), 1, "cycle"), ((1, 1), 1, "inplace:rational")]))
    out.append(hs("gccb", "rational", [((1, 1, 0), 1, None), ((1, 1, 0), 1, "turned")]))
    out.append(hs("gccb", "rational", [((1, 0, 1, 0), 1, None), ((1, 0, 1, 0), 1, "fourier")]))
    # several workers
    for w, p in (("bobs", {"k": 1}), ("bobs", {"k": 0}), ("bobs", {"k": 2}), ("ubobs", {"k": 1, "eta": "sym"}), ("ubobs", {"k": 0, "eta": "1"}),
                 ("ubobs", {"k": 2, "eta": "sym"})):
        for cpus in (1, 2, 3):
            for s in ((1, 0), (0, 1)):
                out.append(hs(w, "rational", [(s, 2, None)], threads=2, cpus=cpus, **p))
        out.append(hs(w, "rational", [((1, 0), 3, None)], threads=2, cpus=2, **p))
        out.append(hs(w, "unitary", [((1, 1), 2, None)], threads=3, cpus=4, **p))
        out.append(hs(w, "rational", [((1, 0), 1, None), ((1, 0), 2, None)], threads=2, cpus=2, **p))
    return out
