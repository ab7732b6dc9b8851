"""C15: the uniform-loss approximate sampler has the documented approximate law."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1); random phases are averaged exactly (constant term of the law in them)",
               "eta is symbolic in (0,1); the end points 0 and 1 are separate scenarios",
               "worker processes are run one after another on copies of the object; their draws are independent (spawned processes)"]


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for s in [(1,), (2,), (1, 0), (1, 1), (0, 2), (2, 0), (2, 1), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 0, 1)]:
        for k in range(-1, len(s) + 2):
            out.append(sc("ubobs", "unitary", s, eta="sym", k=k, cap=800 if not big else 7000))
    for k in (0, 1, 2):
        out.append(hs("ubobs", "identity", [((1, 1), 1, None), ((1, 1), 1, "new:rational")], k=k, eta="sym"))
    for fam in ("identity", "rational", "block"):
        for s in [(1, 1), (2, 0), (1, 1, 1), (2, 0, 1)] + ([(2, 2), (1, 3), (1, 0, 1, 0)] if fam == "rational" else []):
            if fam == "block" and len(s) < 3:
                continue
            for k in range(len(s) + 1):
                out.append(sc("ubobs", fam, s, eta="sym", k=k))
    for fam, eta in (("small300", "sym"), ("small30000", "1/2"), ("rational", "1/100000"), ("rational", "99999/100000")):
        for s in [(1, 1), (0, 2), (1, 0, 1)]:
            for k in range(len(s)):
                out.append(sc("ubobs", fam, s, eta=eta, k=k))
    for eta in ("0", "1"):
        for s in [(1, 1), (0, 2), (1, 0, 1)]:
            for k in range(len(s)):
                out.append(sc("ubobs", "unitary", s, eta=eta, k=k))
    for form in ("tuple", "array"):
        out.append(sc("ubobs", "unitary", (1, 2), k=1, eta="sym", form=form))
    return out
