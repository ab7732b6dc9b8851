"""C02: a permanent calculator has no memory of earlier computations."""
from .common import *
from .ints import scramble

ASSUMPTIONS = ["histories are the listed ones (up to 4 computations with changes of matrix, states and sizes in between, in "
               "both setter orders, with new objects or with the caller's own objects refilled and set again); matrix entries are independent symbolic complex numbers"]

# a history: list of steps; a step maps setter -> value, computing after each step
FULL = [
    [dict(matrix="A3", input=(1, 1, 0), output=(0, 1, 1)), {}, dict(output=(2, 0, 0)), dict(input=(0, 0, 2))],
    [dict(matrix="A3", input=(1, 1, 1), output=(0, 1, 2)), dict(matrix="B3"), dict(input=(2, 0, 1), output=(1, 1, 1)), {}],
    [dict(matrix="A3", input=(2, 1, 0), output=(1, 1, 1)), dict(input=(1, 0, 0), output=(0, 1, 0)),
     dict(input=(0, 2, 1), output=(3, 0, 0))],
    [dict(matrix="A3", input=(0, 0, 0), output=(0, 0, 0)), dict(input=(1, 0, 1), output=(0, 1, 1)),
     dict(input=(0, 0, 0), output=(0, 0, 0)), dict(input=(0, 1, 1), output=(0, 2, 0))],
    [dict(matrix="A2", input=(2, 1), output=(1, 2)), dict(matrix="A3", input=(1, 1, 0), output=(0, 2, 0)),
     dict(matrix="B2", input=(1, 1), output=(0, 2)), {}],
    [dict(matrix="A3", input=(1, 0, 1), output=(1, 1, 0)), dict(input=(0, 1, 1)), dict(matrix="B3"), dict(output=(0, 1, 1))],
    [dict(matrix="A3", input=(3, 0, 0), output=(1, 1, 1)), dict(input=(1, 1, 1)), dict(output=(3, 0, 0)), dict(matrix="B3")],
]

FULL += [
    # related matrices: one entry, sign, order of rows or phase differs
    [dict(matrix="A3", input=(1, 1, 1), output=(1, 1, 1))] + [dict(matrix=f"A3{k}") for k in ("~01", "~12", "~22", "t", "n", "r", "c", "i")]
    + [dict(matrix="A3")],
    [dict(matrix="A2", input=(2, 1), output=(2, 1))] + [dict(matrix=f"A2{k}") for k in ("~01", "~10", "~11", "t", "n", "r", "c", "i")]
    + [dict(matrix="A2")],
    # two calculators of one program
    [dict(matrix="A3", input=(1, 1, 0), output=(0, 1, 1)), dict(who="b", matrix="B3", input=(1, 1, 0), output=(0, 1, 1)), {}, dict(who="b"),
     dict(output=(2, 0, 0)), dict(who="b", input=(0, 0, 2)), {}, dict(who="b", output=(0, 2, 0)), {}],
    [dict(matrix="A2", input=(2, 1), output=(1, 2)), dict(who="b", matrix="A3", input=(0, 2, 1), output=(3, 0, 0)), {}, dict(who="b"),
     dict(matrix="B2"), dict(who="b", input=(1, 0, 1), output=(1, 1, 0)), dict(input=(0, 1), output=(1, 0)), dict(who="b")],
    # larger inputs
    [dict(matrix="A4", input=(1, 1, 1, 0), output=(0, 1, 1, 1)), dict(input=(0, 2, 0, 1)), dict(output=(0, 0, 3, 0)), dict(matrix="B4"),
     dict(input=(1, 0, 0, 1), output=(0, 1, 1, 0)), dict(input=(1, 1, 1, 1), output=(2, 0, 1, 1))],
    [dict(matrix="A2", input=(4, 1), output=(2, 3)), dict(input=(2, 3)), dict(input=(5, 0)), dict(output=(0, 5)), dict(input=(1, 4)), {},
     dict(input=(1, 0), output=(0, 1)), dict(input=(3, 3), output=(1, 5))],
]


def tour(m, tops, matrix):
    """a history in which every pair of states follows directly every other one"""
    nodes = [(s, t) for n in tops for s in occupations(m, n) for t in occupations(m, n)]
    k = len(nodes)
    seq, seen, stack = [], [0] * k, [0]
    while stack:                    # Eulerian circuit of the complete digraph
        v = stack[-1]
        if seen[v] < k:
            stack.append((v + seen[v]) % k)
            seen[v] += 1
        else:
            seq.append(stack.pop())
    seq = seq[::-1]
    h = [dict(matrix=matrix, input=nodes[seq[0]][0], output=nodes[seq[0]][1])]
    for a, b in zip(seq, seq[1:]):
        (s, t), (u, v) = nodes[a], nodes[b]
        h.append({**({"input": u} if u != s else {}), **({"output": v} if v != t else {})})
    return h


TOURS = {"tour of 2 modes": tour(2, (0, 1, 2), "A2"), "tour of 2 modes with 1 to 3 particles": tour(2, (1, 3), "A2"), "tour of 3 modes": tour(3, (1, 2), "A3")}
HIST = dict(enumerate(FULL))
HIST.update(TOURS)


def variant(W, mats, name):
    base, how = name[:2], name[2:]
    M = mats.get(base)
    if M is None:
        M = mats[base] = generic_matrix(W, int(base[1]), base)
    if not how:
        return M
    n = int(base[1])
    rows = [[M[i][j] for j in range(n)] for i in range(n)]
    if how[0] == "~":
        rows[int(how[1])][int(how[2])] = W.cplx("x" + name)
    elif how == "t":
        rows = [list(r) for r in zip(*rows)]
    elif how == "n":
        rows = [[-v for v in r] for r in rows]
    elif how == "r":
        rows = rows[::-1]
    elif how == "c":
        rows = [[v.conjugate() for v in r] for r in rows]
    elif how == "i":
        rows = [[v * S.I() for v in r] for r in rows]
    return arr(rows)


def sub_history(h):
    """the same changes with one output particle fewer"""
    out = []
    for st in h:
        st = dict(st)
        if sum(st.get("input", (1,))) == 0:
            return None
        if "output" in st:
            o = list(st["output"])
            i = max(range(len(o)), key=lambda k: o[k])
            o[i] -= 1
            st["output"] = tuple(o)
        out.append(st)
    return out


def check(ctx, calc, k, order):
    hist = HIST[k]
    same = order == "same"
    sub = calc in SUBCALCS
    if sub:
        hist = sub_history(hist)
    W = ctx.world(k if isinstance(k, int) else len(k))
    mats = {}
    for n in sorted({s["matrix"] for s in hist if "matrix" in s}):
        mats[n] = variant(W, mats, n)

    def payload(upto, pt):
        return {"kind": "perm_value", "calc": calc, "order": order, "steps": [
            {**s, **({"matrix": C.numeric(mats[s["matrix"]], pt)} if "matrix" in s else {})} for s in hist[:upto + 1]]}

    def run():
        prog = ctx.program()
        live = {}
        out = []
        curs = {"a": {}, "b": {}}
        given = []
        for st in hist:
            new = {}
            who = st.get("who", "a")
            cur, c = curs[who], live.get(who)
            for key, v in st.items():
                if key == "who":
                    continue
                val = np.array(mats[v]).view(shims.Arr) if key == "matrix" else list(v)
                if same and key in cur and len(cur[key]) == len(val):
                    cur[key][:] = val       # the caller's own object with new contents
                    given = [g for g in given if g[0] is not cur[key]]
                    val = cur[key]
                new[key] = val
            cur.update(new)
            given += [(x, np.array(x, dtype=object).tolist()) for x in new.values()]
            if c is None:
                c = live[who] = cls_of(prog, calc)(cur["matrix"], cur["input"], cur["output"])
            else:
                keys = [q for q in ("matrix", "input", "output") if q in new]
                for q in (keys[::-1] if order == "rev" else keys):
                    setattr(c, {"matrix": "matrix", "input": "input_state", "output": "output_state"}[q], new[q])
            if sub:
                res = c.compute_permanents()
                out.append(list(res))
                scramble(res)
            else:
                out.append(c.compute_permanent())
        kept = all(_same(x, y) for x, y in given)
        return out, kept
    ctx.validate(lambda pt: payload(len(hist) - 1, pt))
    regs = ctx.explore(run)
    for r, lf in leaves_of(regs):
        v = lf.value
        if isinstance(v, Raised):
            raise Violation(f"{calc} history {k}: {v!r}", payload(len(hist) - 1, witness(r)))
        vals, kept = v
        state = {"a": (None,) * 3, "b": (None,) * 3}
        known = {}
        for i, st in enumerate(hist):
            M, s, t = state[st.get("who", "a")]
            M = st.get("matrix", M)
            s, t = st.get("input", s), st.get("output", t)
            state[st.get("who", "a")] = M, s, t
            key = M, s, t, [v.key() for v in map(S.of, vals[i])] if sub else S.of(vals[i]).key()
            if repr(key) in known:
                continue
            known[repr(key)] = True
            M = mats[M]
            if sub:
                want = []
                for q in range(len(s)):
                    want.append(S.c(0) if s[q] == 0 else C.permanent(C.scattering(M, s[:q] + (s[q] - 1,) + s[q + 1:], t)))
                got = list(vals[i])
            else:
                want, got = [C.permanent(C.scattering(M, s, t))], [vals[i]]
            if len(got) != len(want) or not all(C.claim_equal(ctx, a, b) for a, b in zip(got, want)):
                raise Violation(f"{calc} history {k} step {i}", payload(i, witness(r)))
        ctx.claims += 1
        if not kept:
            raise Violation(f"{calc} history {k}: arguments modified", payload(len(hist) - 1, witness(r)))
        ctx.sample(f"{calc}: {hist} -> last value {vals[-1]!r}"[:600])


def _same(x, y):
    z = np.array(x, dtype=object).tolist()
    return len(z) == len(y) and all(_eq(a, b) for a, b in zip(z, y))


def _eq(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(_eq(p, q) for p, q in zip(a, b))
    return S.of(a).key() == S.of(b).key()


def scenarios(tier):
    out = []
    for calc in list(CALCS) + list(SUBCALCS):
        for k, h in HIST.items():
            if calc in SUBCALCS and sub_history(h) is None:
                continue
            for order in (("fwd", "rev", "same") if isinstance(k, int) else ("fwd", "same") if tier == "thorough" else ("fwd",)):
                out.append(Scenario(f"{calc} history {k} {order}", check, (calc, k, order),
                                    bounds=f"history {k}: {h if isinstance(k, int) else f'{len(h)} computations, every ordered pair of input and output states'}"))
    return out
