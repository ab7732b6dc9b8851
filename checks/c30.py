"""C30: the sample-based distribution is the exact frequency table of the samples."""
from .ints import *

ASSUMPTIONS = ["the sampling strategy is a stub returning samples whose entries are symbolic integers; what it is asked for is recorded"]
CLS = (DC + "bs_sample_based_distribution_calculator", "BSSampleBasedDistributionCalculator")


def picks(m, n, kind):
    """lists of outcomes somebody may ask for"""
    a, z, o, e = tuple([n] + [0] * (m - 1)), tuple([0] * m), tuple([1] * m), tuple([0] * (m - 1) + [n])
    return {"two": list(dict.fromkeys([a, z])), "other": list(dict.fromkeys([e, o]))[::-1], "repeated": [z, a, z], "none": [],
            "three": list(dict.fromkeys([e, z, o]))}[kind]


def check(ctx, m, n, left, N, top, ops, form):
    """ops: what is done with one calculator: ('new', N or None, list or None) | ('n', N) | ('out', list) | ('left', k) | ('dist',) | ('argument', N) |
    ('ask', list)"""
    W = ctx.world(m * 100 + N)
    s = (n,) + (0,) * (m - 1) if m == 1 else (n - 1,) + (0,) * (m - 2) + (1,)
    # what has to come out: per computation the number of samples and the outcomes (None: whatever is listed)
    num = given = None
    lf_, steps = left, []
    for op in ops:
        if op[0] == "new":
            num, given = op[1], op[2] and picks(m, n, op[2])
        elif op[0] == "n":
            num = op[1]
        elif op[0] == "out":
            given = picks(m, n, op[1])
        elif op[0] == "left":
            lf_ = op[1]
        elif op[0] == "dist":
            steps.append((num, given if given is not None else C.states(lf_, m), True))
        elif op[0] == "argument":
            steps.append((op[1], given if given is not None else C.states(lf_, m), True))
        elif op[0] == "ask":
            steps.append((num, picks(m, n, op[1]), False))
            given = "asked"
        if given == "asked":
            given = picks(m, n, op[1])
    smp = [[[fresh(f"x{k}_{i}_{j}", 0, top) for j in range(m)] for i in range(st[0])] for k, st in enumerate(steps)]

    def run():
        prog = ctx.program()
        calls, cur = [], [0, 0]

        class Stub:
            def simulate(self, input_state, samples_number=1):
                calls.append((cur[0], plain(input_state), int(samples_number)))
                rows = smp[cur[0]][cur[1]:cur[1] + int(samples_number)]
                cur[1] += int(samples_number)
                return [state([int(v) for v in x] if form == "array" else x, form) for x in rows]
        c, out = None, []
        for op in ops:
            if op[0] == "new":
                args = {}
                if op[1] is not None:
                    args["samples_number"] = op[1]
                if op[2] is not None:
                    args["outcomes"] = [list(o) for o in picks(m, n, op[2])]
                c = klass(prog, CLS)(config(prog, None, s, left), Stub(), **args)
            elif op[0] == "n":
                c.samples_number = op[1]
            elif op[0] == "out":
                c.outcomes = [list(o) for o in picks(m, n, op[1])]
            elif op[0] == "left":
                c.configuration = config(prog, None, s, op[1])
            else:
                if op[0] == "dist":
                    ps = c.calculate_distribution()
                elif op[0] == "argument":
                    ps = c.calculate_approximate_distribution(op[1])
                else:
                    ps = c.calculate_probabilities_of_outcomes([list(o) for o in picks(m, n, op[1])])
                out.append(([S.of(p) for p in ps], [plain(o) for o in c.get_outcomes_in_proper_order()]))
                cur[0], cur[1] = cur[0] + 1, 0
        return out, calls

    def payload(pc):
        md = symint.prove(ctx, z3.BoolVal(False), pc)
        return case(md)

    def case(md):
        ev = lambda x: md.eval(x.t, model_completion=True).as_long()
        return {"kind": "sample_based", "m": m, "input": s, "left": left, "samples": [[[ev(v) for v in x] for x in q] for q in smp],
                "ops": [[op[0]] + [picks(m, n, x) if isinstance(x, str) else x for x in op[1:]] for op in ops],
                "expect": [[k, o, strict] for k, o, strict in steps], "form": form}
    last = None
    ctx.validate(payload([]))
    for r, lf in leaves_of(ctx.explore(run)):
        if isinstance(lf.value, Raised):
            raise Violation(repr(lf.value), payload(lf.int_pc))
        res, calls = lf.value
        last = lf
        for k, ((N_, outs, strict), (ps, listed)) in enumerate(zip(steps, res)):
            ctx.claims += 1
            mine = [c for c in calls if c[0] == k]
            if (strict and listed != outs) or len(ps) != len(outs) or any(c[1] != s for c in mine) or sum(c[2] for c in mine) != N_:
                raise Violation(f"outcomes {listed}, {len(ps)} values, strategy calls {mine}", payload(lf.int_pc))
            for o, p in zip(outs, ps):
                if not p.is_const():
                    raise Undecided("symbolic frequency")
                cnt = Fraction(p.const()) * N_
                hits = z3.Sum([z3.If(z3.And([x.t == v for x, v in zip(row, o)]), 1, 0) for row in smp[k]])
                md = symint.prove(ctx, z3.ToReal(hits) == z3.RealVal(str(cnt)), lf.int_pc)
                if md is not None:
                    raise Violation(f"frequency of {o}: {p!r}", case(md))
    ctx.sample(f"{N} symbolic samples over {m} modes, {ops}")
    ctx.validate(payload(last.int_pc))


def scenarios(tier):
    q = tier == "quick"
    out = []

    def add(m, n, left, N, top, name, ops, form):
        out.append(Scenario(f"m={m} n={n} left={left} N={N} {name} {form}", check, (m, n, left, N, top, ops, form), cap=600 if q else 5000,
                            bounds=f"{name}: {N} samples over {m} modes with entries <= {top}"))
    modes = lambda N: {
        "ctor": [("new", N, None), ("dist",)], "argument": [("new", None, None), ("argument", N)], "outcomes": [("new", N, "two"), ("dist",)],
        "asked": [("new", N, None), ("ask", "two")], "setter": [("new", None, None), ("n", N), ("out", "two"), ("dist",)],
        "repeated": [("new", N, None), ("ask", "repeated")], "nothing": [("new", N, "none"), ("dist",)],
        "other": [("new", 1, "two"), ("n", N), ("ask", "other")]}
    for m, n, left, N, top in [(1, 2, 2, 3, 3), (2, 2, 2, 2, 2), (2, 2, 1, 2, 2), (3, 2, 2, 1, 2), (2, 1, 1, 3, 1), (2, 2, 0, 2, 2)] + (
            [] if q else [(2, 3, 2, 3, 2), (3, 2, 2, 2, 1), (1, 3, 2, 5, 3)]):
        for name, ops in modes(N).items():
            for form in ("tuple", "list", "array"):
                if q and form != "tuple" and (m, left, N) != (2, 2, 2):
                    continue
                add(m, n, left, N, top, name, ops, form)
    hist = {
        "two lists": [("new", 2, "two"), ("ask", "other"), ("ask", "two")],
        "the same twice": [("new", 2, None), ("dist",), ("dist",)],
        "other number": [("new", 1, None), ("dist",), ("n", 2), ("dist",)],
        "argument only once": [("new", 1, None), ("argument", 2), ("dist",)],
        "outcomes set later": [("new", 1, "two"), ("dist",), ("out", "other"), ("dist",)],
        "other configuration": [("new", 1, None), ("dist",), ("left", 1), ("dist",)],
        "ask, set, compute": [("new", 1, None), ("ask", "two"), ("out", "other"), ("dist",)],
    }
    for name, ops in hist.items():
        add(2, 2, 2, 2, 2 if not q else 1, name, ops, "tuple")
        add(1, 2, 2, 2, 2, name, ops, "tuple")
    return out
