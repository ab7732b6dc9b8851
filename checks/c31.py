"""C31: factories build the requested object, isolated from the caller's objects."""
from .laws import *

ASSUMPTIONS = ["uniform draws are ideal independent real numbers of [0,1); random phases are averaged exactly",
               "the interferometer of the configuration and of the given permanent calculator are the same matrix",
               "the R sampler behind the R-based strategy is replaced by its contract (see C32)", "worker processes are run one after another on copies of the object"]
FACT = SS + "simulation_strategy_factory"
PFACT = PC + "bs_permanent_calculator_factory"
TYPES = {"FIXED_LOSS": "floss", "UNIFORM_LOSS": "uloss", "GCC": "gcc", "LOSSY_NET_GCC": "lngcc", "UNIFORM_LOSSES_GCC": "ugcc",
         "BOBS": "bobs", "UNIFORM_LOSSES_BOBS": "ubobs", "CLIFFORD_R": "ccr", None: "floss"}
LOSSY = ("lngcc", "bobs")


def par_of(typ, c):
    """parameters of the strategy the configuration stands for"""
    which, m = TYPES[typ], len(c["s"])
    if which == "floss":
        return which, {"left": c["left"]}
    if which == "bobs":
        return which, {"k": m - c["level"]}
    if which == "ubobs":
        return which, {"k": c["level"], "eta": c["eta"]}
    if which in ("uloss", "ugcc"):
        return which, {"eta": c["eta"]}
    return which, {}


def calc_states(pc):
    return [None if v is None else tuple(v) for v in (pc.input_state, pc.output_state)]


def history(ctx, ops, calc="ryser", cpus=4):
    """ops: ('new', cfg, type) | ('cfg', cfg) | ('calc',) | ('type', t) | ('threads', k) | ('build', name) | ('mutate', cfg)
    | ('sim', name, input) | ('setm', name, fam); cfg: dict fam, s, left, eta, level"""
    W = ctx.world(11)
    W.control.cpu_count = cpus
    mats, etas = {}, {}
    conc = []
    for op in ops:
        op = list(op)
        if op[0] in ("new", "cfg", "mutate"):
            c = dict(op[1])
            if c["fam"] not in mats:
                mats[c["fam"]] = matrix_of(W, c["fam"], len(c["s"]))
            if c["eta"] not in etas:
                etas[c["eta"]] = W.real(f"eta{len(etas)}", 0, 1, strict=True) if c["eta"].startswith("sym") else S.c(Fraction(c["eta"]))
            c["M"], c["eta"] = mats[c["fam"]], etas[c["eta"]]
            op[1] = c
        if op[0] == "setm":
            if op[2] not in mats:
                mats[op[2]] = matrix_of(W, op[2], len(ops[0][1]["s"]))
            op.append(mats[op[2]])
        conc.append(op)
    # what has to come out
    cur = typ = None
    built, laws = {}, []
    for op in conc:
        if op[0] == "new":
            cur, typ = op[1], op[2]
        elif op[0] in ("cfg", "mutate"):
            cur = op[1]
        elif op[0] == "type":
            typ = op[1]
        elif op[0] == "build":
            w, p = par_of(typ, cur)
            built[op[1]] = (w, cur["M"], p)
        elif op[0] == "setm":
            w, _, p = built[op[1]]
            built[op[1]] = (w, op[3], p)
        elif op[0] == "sim":
            laws.append((*built[op[1]], op[2]))

    def run():
        prog = ctx.program()
        F = prog[FACT]
        T = F.StrategyType
        out, given, fac, live = [], [], None, {}

        def cfg_of(c):
            o = config(prog, copy_matrix(c["M"]), c["s"], c["left"], c["eta"], hierarchy_level=c["level"])
            given.append([o, snapshot(o)])
            return o
        for op in conc:
            if op[0] == "new":
                pc = new_calc(prog, calc, copy_matrix(op[1]["M"]))
                given.append((pc, op[1]["M"], calc_states(pc)))
                fac = F.SimulationStrategyFactory(cfg_of(op[1]), pc, *([] if op[2] is None else [T[op[2]]]))
            elif op[0] == "cfg":
                pc = new_calc(prog, calc, copy_matrix(op[1]["M"]))
                given.append((pc, op[1]["M"], calc_states(pc)))
                fac.experiment_configuration = cfg_of(op[1])
                fac.bs_permanent_calculator = pc
            elif op[0] == "mutate":
                # the caller changes the fields of the configuration object it gave
                o = next(g for g in reversed(given) if isinstance(g, list))
                for k, v in vars(config(prog, o[0].interferometer_matrix, op[1]["s"], op[1]["left"], op[1]["eta"],
                                        hierarchy_level=op[1]["level"])).items():
                    setattr(o[0], k, v)
                o[1] = snapshot(o[0])
            elif op[0] == "type":
                fac.strategy_type = T[op[1]]
            elif op[0] == "threads":
                fac.available_threads_number = op[1]
            elif op[0] == "build":
                live[op[1]] = fac.generate_strategy()
            elif op[0] == "setm":
                live[op[1]].set_new_matrix(copy_matrix(op[3]))
            elif op[0] == "sim":
                k = op[3] if len(op) > 3 else 1
                res = list(live[op[1]].simulate(list(op[2]), k))
                if len(res) != k:
                    return ("number of samples", len(res))
                out.extend(occ(x) for x in res)
        for g in given:
            if isinstance(g, list):
                if snapshot(g[0]) != g[1]:
                    return ("configuration of the caller modified",)
            elif not same_matrix(g[0].matrix, g[1]) or calc_states(g[0]) != g[2]:
                return ("calculator of the caller modified",)
        return tuple(out)

    def payload(r):
        pt = witness(r)

        def num(op):
            op = list(op)
            if op[0] in ("new", "cfg", "mutate"):
                c = dict(op[1])
                c["M"] = C.numeric(c["M"], pt)
                c["eta"] = C.value(c["eta"], pt).real
                op[1] = c
            if op[0] == "setm":
                op[3] = C.numeric(op[3], pt)
            return op
        return {"kind": "factory", "calc": calc, "ops": [num(o) for o in conc], "cpus": cpus,
                "expect": [[w, C.numeric(M, pt), {k: (C.value(v, pt).real if isinstance(v, S) else v) for k, v in p.items()}, s]
                           for w, M, p, s in laws]}
    name = f"{calc} {ops}"
    ctx.validate(payload)
    regs = ctx.explore(run)
    ref = product_law([reference(w, M, s, p) for w, M, p, s in laws])
    for r in regs:
        with C.within(r):
            obligations(ctx, r, payload, name)
            compare_laws(ctx, C.region_law(r), ref, payload, r, name)
    ctx.sample(f"{name}: {len(laws)} samples, {sum(len(r.leaves) for r in regs)} paths"[:300])


PTYPES = {"CLASSIC": "classic", "GLYNN": "glynn", "CHIN_HUH": "chinhuh", "RYSER": "ryser", None: "ryser"}


def permanents(ctx, typ, steps, m):
    """steps: dicts with any of matrix (name), input, output: set on the factory, then a calculator is built; in the end all of them are asked"""
    W = ctx.world(m)
    mats = {}
    for st in steps:
        if "matrix" in st:
            mats[st["matrix"]] = generic_matrix(W, len(st["input"]) if "input" in st else m, st["matrix"])
    want = []
    cur = {}
    for st in steps:
        cur.update(st)
        want.append((mats[cur["matrix"]], cur["input"], cur["output"]))

    def run():
        prog = ctx.program()
        F = prog[PFACT]
        fac, made = None, []
        for i, st in enumerate(steps):
            if fac is None:
                fac = F.BSPermanentCalculatorFactory(copy_matrix(mats[st["matrix"]]), list(st["input"]), list(st["output"]),
                                                     *([] if typ is None else [F.PermanentCalculatorType[typ]]))
            else:
                if "matrix" in st:
                    fac.matrix = copy_matrix(mats[st["matrix"]])
                if "input" in st:
                    fac.input_state = list(st["input"])
                if "output" in st:
                    fac.output_state = list(st["output"])
            c = fac.generate_calculator()
            if type(c) is not cls_of(prog, PTYPES[typ]):
                return ("type", type(c).__name__)
            made.append(c)
        for c, (M, s, t) in zip(made, want):
            if not same_matrix(c.matrix, M) or tuple(c.input_state) != tuple(s) or tuple(c.output_state) != tuple(t):
                return ("matrix or states differ",)
        return [c.compute_permanent() for c in made]

    def payload(r):
        pt = witness(r)
        return {"kind": "perm_factory", "type": typ, "steps": [dict(st, **({"matrix": C.numeric(mats[st["matrix"]], pt)} if "matrix" in st else {}))
                                                               for st in steps], "class": PTYPES[typ]}
    ctx.validate(payload)
    for r, lf in leaves_of(ctx.explore(run)):
        v = lf.value
        if isinstance(v, (Raised, tuple)):
            raise Violation(f"{typ} {steps}: {v!r}"[:400], payload(r))
        for x, (M, s, t) in zip(v, want):
            if not C.claim_equal(ctx, x, C.permanent(C.scattering(M, s, t))):
                raise Violation(f"{typ} {steps}: {x!r}"[:400], payload(r))
    ctx.sample(f"{typ} {steps}"[:300])


def scenarios(tier):
    big = tier == "thorough"
    out = []

    def add(name, ops, **k):
        out.append(Scenario(name, history, (ops,) + tuple(k.get(x, d) for x, d in (("calc", "ryser"), ("cpus", 4))),
                            cap=500 if not big else 5000, bounds=name))

    def cfg(fam, s, left=None, eta="sym", level=0):
        return {"fam": fam, "s": s, "left": sum(s) if left is None else left, "eta": eta, "level": level}
    for t, w in TYPES.items():
        lossy = w in LOSSY or w in ("floss", "uloss")
        fam = "gi-ss" if lossy else "unitary"
        for s in ((1, 1), (2, 0)) + (() if lossy else ((0, 1, 1),)):
            n, m = sum(s), len(s)
            for left in (range(n + 1) if w == "floss" else [n, n - 1]):
                for level in (range(m + 1) if w in ("bobs", "ubobs") else [1]):
                    add(f"{t} {fam} {s} left={left} level={level}",
                        [("new", cfg(fam, s, left, level=level), t), ("build", "a"), ("sim", "a", s)])
        if w in ("bobs", "ubobs"):
            for s in ((1, 0), (0, 1, 0), (0, 0)):
                for level in range(len(s) + 1):
                    add(f"{t} sparse {s} level={level}", [("new", cfg("rational" if len(s) > 2 else fam, s, level=level), t), ("build", "a"), ("sim", "a", s)])
        else:
            for s in ((0, 1), (0, 0, 1)) + (((3,), (2, 1)) if w not in ("floss", "uloss") else ()):
                add(f"{t} {s}", [("new", cfg("rational" if len(s) > 2 else fam if len(s) > 1 else "identity", s, eta="sym"), t), ("build", "a"), ("sim", "a", s)])
        if w == "ubobs":
            add(f"{t} defaults of the level", [("new", cfg("unitary", (1, 1), level=0), t), ("build", "a"), ("sim", "a", (1, 1))])
        # settings changed before building
        o = "GCC" if t != "GCC" else "UNIFORM_LOSSES_GCC"
        oth = cfg("rational", (1, 1), 1, "1/3", 1)
        add(f"{t} after other settings", [("new", oth, o), ("cfg", cfg(fam, (1, 1), 2, level=1)), ("type", t or "FIXED_LOSS"), ("build", "a"), ("sim", "a", (1, 1))])
        add(f"{t} changed after building another", [("new", oth, o), ("build", "b"), ("type", t or "FIXED_LOSS"), ("cfg", cfg(fam, (1, 1), 1, level=1)),
                                                  ("build", "a"), ("sim", "a", (1, 0)), ("sim", "b", (1, 0))])
        add(f"{t} larger network afterwards", [("new", cfg("rational", (1, 0), 1, level=1), t), ("build", "b"), ("cfg", cfg("cycle", (1, 0, 1), 2, "1/3", level=2)),
                                               ("build", "a"), ("sim", "a", (1, 0, 1)), ("sim", "b", (0, 1))])
        # the earlier strategy keeps its settings
        add(f"{t} keeps its settings", [("new", cfg("rational", (1, 0), 1, level=1), t), ("build", "a"), ("cfg", cfg("cycle", (1, 1), 1, "1/4", 0)),
                                        ("build", "b"), ("sim", "a", (1, 0)), ("sim", "b", (1, 0))])
        add(f"{t} configuration object changed", [("new", cfg("rational", (1, 0), 1, "1/2", level=1), t), ("build", "a"),
                                                 ("mutate", cfg("rational", (1, 1), 0, "1/4", 0)), ("build", "b"), ("sim", "a", (1, 0)), ("sim", "b", (1, 0))])
        # several strategies of one factory
        add(f"{t} twice", [("new", cfg("rational", (1, 0), 1, level=1), t), ("build", "a"), ("build", "b"), ("sim", "a", (1, 0)), ("sim", "b", (0, 1)),
                           ("sim", "a", (1, 0))])
        add(f"{t} and GCC", [("new", cfg("rational", (1, 1), 1, level=1), t), ("build", "a"), ("type", "GCC"), ("build", "b"), ("sim", "a", (1, 1)), ("sim", "b", (1, 1))])
        add(f"GCC and {t}", [("new", cfg("rational", (1, 1), 1, level=1), "GCC"), ("build", "b"), ("type", t or "FIXED_LOSS"), ("build", "a"),
                             ("sim", "a", (1, 1)), ("sim", "b", (1, 1))])
        if w == "lngcc":
            add(f"{t} set_new_matrix on one of two", [("new", cfg("rational", (1, 0), 1), t), ("build", "a"), ("build", "b"), ("setm", "a", "ii-ss"),
                                                     ("sim", "a", (1, 0)), ("sim", "b", (1, 0)), ("build", "c"), ("sim", "c", (1, 0))])
        for calc in ("classic", "glynn", "chinhuh"):
            if w not in ("floss", "uloss"):
                add(f"{t} {calc}", [("new", cfg("rational", (1, 1), 1, level=1), t), ("build", "a"), ("sim", "a", (1, 1))], calc=calc)
    for th in (1, 2, -1):
        for cpus in (1, 2):
            add(f"UNIFORM_LOSSES_BOBS threads {th} of {cpus}", [("new", cfg("rational", (1, 0), 1, level=1), "UNIFORM_LOSSES_BOBS"), ("threads", th),
                                                               ("build", "a"), ("sim", "a", (1, 0))], cpus=cpus)
    for t in PTYPES:
        for nm, steps in (("larger", [{"matrix": "A", "input": (1, 1), "output": (0, 2)}, {"matrix": "B", "input": (0, 1, 1), "output": (1, 0, 1)},
                                      {"output": (2, 0, 0)}]),
                          ("smaller", [{"matrix": "A", "input": (0, 2, 0), "output": (1, 0, 1)}, {"matrix": "B", "input": (1, 0), "output": (0, 1)},
                                       {"input": (0, 1)}])):
            out.append(Scenario(f"permanents {t} {nm} network afterwards", permanents, (t, steps, len(steps[0]["input"])), cap=300,
                                bounds=f"permanent calculators of type {t}: matrix of another size set afterwards"))
        for m, n in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 2)) + (((3, 3),) if big else ()):
            ss = occupations(m, n)
            s, u = ss[0], ss[-1]
            v = ss[len(ss) // 2]
            for nm, steps in (("new", [{"matrix": "A", "input": s, "output": v}]),
                              ("setters", [{"matrix": "A", "input": s, "output": v}, {"matrix": "B"}, {"input": u}, {"output": s}]),
                              ("all", [{"matrix": "A", "input": s, "output": v}, {"matrix": "B", "input": v, "output": u}])):
                out.append(Scenario(f"permanents {t} {m} modes {n} particles {nm}", permanents, (t, steps, m), cap=300,
                                    bounds=f"permanent calculators of type {t}: {m}x{m} generic matrices, {n} particles, {nm}"))
    return out
