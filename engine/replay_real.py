"""Replays a counterexample against the unpatched code of /repo (run with the repo's own Python).

usage: replay_real.py FILE.json     exit 1 and a line REPRODUCED if the real code fails the property
The oracles here are written from the definitions with plain numpy, independent of the engine."""
import copy
import itertools
import json
import math
import os
import sys

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


# ---------------------------------------------------------------- oracles
def mat(x):
    return np.array([[complex(a, b) for a, b in row] for row in x], dtype=complex)


def perm(a):
    """permanent by definition, row by row (columns left -> sum over the choices so far), equal columns taken together"""
    n = len(a)
    keys, cols, count = {}, [], []
    for j in range(n):
        col = tuple(a[i][j] for i in range(n))
        if col in keys:
            count[keys[col]] += 1
        else:
            keys[col] = len(cols)
            cols.append(col)
            count.append(1)
    sums = {tuple(count): 1}
    for i in range(n):
        nxt = {}
        for left, v in sums.items():
            for q, k in enumerate(left):
                if k:
                    rest = left[:q] + (k - 1,) + left[q + 1:]
                    nxt[rest] = nxt.get(rest, 0) + v * cols[q][i] * k
        sums = nxt
    return sums[(0,) * len(cols)] if n else 1


def expand(s):
    return [i for i, k in enumerate(s) for _ in range(int(k))]


def scat(M, s, t):
    return [[M[r][c] for c in expand(s)] for r in expand(t)]


def states(n, m):
    if m == 1:
        return [(n,)]
    return [(k,) + r for k in range(n, -1, -1) for r in states(n - k, m - 1)]


def fact(xs):
    p = 1
    for x in xs:
        p *= math.factorial(int(x))
    return p


def substates(s, k):
    return [t for t in itertools.product(*[range(x + 1) for x in s]) if sum(t) == k]


def lossless(M, s):
    return {t: abs(perm(scat(M, s, t))) ** 2 / fact(s) / fact(t) for t in states(sum(s), len(M))}


def fixed_loss(M, s, l):
    n = sum(s)
    out = {t: 0.0 for t in states(l, len(M))}
    for r in substates(s, l):
        w = 1.0
        for a, b in zip(s, r):
            w *= math.comb(a, b)
        w /= math.comb(n, l)
        for t, p in lossless(M, r).items():
            out[t] += w * p
    return out


def uniform(M, s, eta):
    n = sum(s)
    out = {}
    for l in range(n + 1):
        w = math.comb(n, l) * eta ** l * (1 - eta) ** (n - l)
        for t, p in fixed_loss(M, s, l).items():
            out[t] = w * p
    return out


def channel(M, s):
    """law of the lossy channel M through a unitary dilation built here"""
    M = np.asarray(M)
    m = len(M)
    L = np.eye(m) - M.conj().T @ M
    w, v = np.linalg.eigh(L)
    R = v @ np.diag(np.sqrt(np.clip(w, 0, None))) @ v.conj().T
    big = np.vstack([M, R])
    out = {}
    n = sum(s)
    for t in states(n, 2 * m):
        a = [[big[r][c] for c in expand(s)] for r in expand(t)]
        p = abs(perm(a)) ** 2 / fact(s) / fact(t)
        out[t[:m]] = out.get(t[:m], 0.0) + p
    return out


def superposition_law(M, s, approx, eta=1.0, norm_phases=True, grid=None):
    """modes in `approx` are replaced by sum(s[approx]) particles in one uniform superposition
    of these modes with independent uniform phases; the rest exact; then the channel sqrt(eta)*M"""
    M = np.asarray(M) * math.sqrt(eta)
    m = len(M)
    k = len(approx)
    if k == 0:
        return channel(M, s)
    na = sum(s[i] for i in approx)
    n = sum(s)
    K = n + 1
    out = {}
    for ph in itertools.product(range(K), repeat=k - 1):
        ph = (0,) + ph
        col = sum(np.exp(2j * np.pi * p / K) * M[:, i] for p, i in zip(ph, approx)) / math.sqrt(k)
        rest = [i for i in range(m) if i not in approx]
        B = np.column_stack([col] + [M[:, i] for i in rest])
        # embed as an m-input channel
        st = [na] + [s[i] for i in rest]
        law = channel_rect(B, st)
        for t, p in law.items():
            out[t] = out.get(t, 0.0) + p / K ** (k - 1)
    return out


def channel_rect(B, st):
    m, q = B.shape
    L = np.eye(q) - B.conj().T @ B
    w, v = np.linalg.eigh(L)
    R = v @ np.diag(np.sqrt(np.clip(w, 0, None))) @ v.conj().T
    big = np.vstack([B, R])
    out = {}
    n = sum(st)
    for t in states(n, m + q):
        a = [[big[r][c] for c in expand(st)] for r in expand(t)]
        p = abs(perm(a)) ** 2 / fact(st) / fact(t)
        out[t[:m]] = out.get(t[:m], 0.0) + p
    return out


# ---------------------------------------------------------------- serial pools
class SerialPool:
    """stands in for the process pools: same tasks, same copies, one process (speed only)"""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, *its, **k):
        out = []
        for args in zip(*its):
            g = f
            if hasattr(f, "__self__"):
                g = getattr(copy.deepcopy(f.__self__), f.__name__)
            out.append(g(*copy.deepcopy(args)))
        return out

    def starmap(self, f, it, **k):
        return self.map(f, *zip(*it))

    def close(self):
        pass

    join = terminate = shutdown = close


def serial():
    import concurrent.futures
    import multiprocessing
    old = [concurrent.futures.ProcessPoolExecutor, multiprocessing.Pool]
    concurrent.futures.ProcessPoolExecutor = SerialPool
    multiprocessing.Pool = SerialPool
    for name, m in list(sys.modules.items()):
        if name.startswith("theboss"):
            for k, v in list(vars(m).items()):
                if any(v is o or v == o for o in old):
                    setattr(m, k, SerialPool)


# ---------------------------------------------------------------- helpers
def calc_class(name):
    mods = {
        "classic": ("classic_permanent_calculator", "ClassicPermanentCalculator"),
        "glynn": ("glynn_gray_permanent_calculator", "GlynnGrayPermanentCalculator"),
        "chinhuh": ("chin_huh_permanent_calculator", "ChinHuhPermanentCalculator"),
        "ryser": ("ryser_permanent_calculator", "RyserPermanentCalculator"),
        "sub_ryser": ("bs_cc_ryser_submatrices_permanent_calculator", "BSCCRyserSubmatricesPermanentCalculator"),
        "sub_ch": ("bs_cc_ch_submatrices_permanent_calculator", "BSCCCHSubmatricesPermanentCalculator"),
    }
    import importlib
    m, c = mods[name]
    return getattr(importlib.import_module("theboss.boson_sampling_utilities.permanent_calculators." + m), c)


def fail(msg):
    print("REPRODUCED " + msg)
    sys.exit(1)


def close(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def typed(s, how):
    return np.array(s, dtype=int) if how == "array" else (tuple(s) if how == "tuple" else list(s))


KINDS = {}


def kind(f):
    KINDS[f.__name__] = f
    return f


def near(a, b, M, s, t):
    """equal up to the rounding of the known formulas: errors are relative to the products of row sums"""
    scale = 1.0
    for i, k in enumerate(t):
        scale *= (sum(abs(M[i][j]) * s[j] for j in range(len(s)))) ** k
    return abs(a - b) <= 1e-9 * max(scale, abs(b))


@kind
def perm_value(d):
    """steps: list of {matrix?, input?, output?, new?}; the value after every step is compared"""
    cls = calc_class(d["calc"])
    live = {}
    for st in d["steps"]:
        c, M, s, t, cur = live.get(st.get("who", "a"), (None, None, None, None, {}))
        how = st.get("how", "list")
        if "matrix" in st:
            M = mat(st["matrix"])
        if "input" in st:
            s = st["input"]
        if "output" in st:
            t = st["output"]
        vals = {"matrix": M.copy(), "input": typed(s, how), "output": typed(t, how)}
        for key in vals:
            if d.get("order") == "same" and key in cur and len(cur[key]) == len(vals[key]):
                cur[key][:] = vals[key]
            else:
                cur[key] = vals[key]
        if c is None or st.get("new"):
            c = cls(cur["matrix"], cur["input"], cur["output"])
        else:
            todo = [("matrix", "matrix"), ("input", "input_state"), ("output", "output_state")]
            for key, attr in (todo[::-1] if d.get("order") == "rev" else todo):
                if key in st:
                    setattr(c, attr, cur[key])
        live[st.get("who", "a")] = c, M, s, t, cur
        keepM = np.array(c.matrix)
        keep = (list(c.input_state), list(c.output_state))
        if d["calc"].startswith("sub"):
            got = c.compute_permanents()
            want = []
            for i in range(len(s)):
                if s[i] == 0:
                    want.append(0)
                else:
                    r = list(s)
                    r[i] -= 1
                    want.append(perm(scat(M, r, t)))
            if len(got) != len(want) or not all(near(a, b, M, s, t) for a, b in zip(got, want)):
                fail(f"submatrix permanents {list(map(complex, got))} expected {list(map(complex, want))} for {s} -> {t}")
            scramble(got)
        else:
            got, want = c.compute_permanent(), perm(scat(M, s, t))
            if not near(got, want, M, s, t):
                fail(f"permanent {complex(got)} expected {complex(want)} for {s} -> {t}")
        if not np.array_equal(keepM, np.array(c.matrix)) or keep != (list(c.input_state), list(c.output_state)):
            fail("the calculator modified its matrix or states")


def make_config(M, s, left=None, eta=1.0, **k):
    from theboss.distribution_calculators.bs_distribution_calculator_interface import BosonSamplingExperimentConfiguration
    n = sum(s)
    left = n if left is None else left
    f = dict(interferometer_matrix=M, initial_state=list(s), initial_number_of_particles=n, number_of_modes=len(s),
             number_of_particles_lost=n - left, number_of_particles_left=left, uniform_transmissivity=eta)
    f.update(k)
    return BosonSamplingExperimentConfiguration(**f)


@kind
def distribution(d):
    """exact distribution calculators against the definition"""
    serial()
    from theboss.distribution_calculators.bs_distribution_calculator_with_fixed_losses import \
        BSDistributionCalculatorWithFixedLosses as F
    from theboss.distribution_calculators.bs_exact_distribution_with_uniform_losses import \
        BSDistributionCalculatorWithUniformLosses as Un
    M, s = mat(d["matrix"]), d["input"]
    n, m = sum(s), len(s)
    left = d.get("left", n)
    eta = d.get("eta", 1.0)
    if d["which"] == "fixed":
        law = fixed_loss(M, s, left)
    else:
        law = uniform(M, s, eta)
        if d.get("weightless") and d["weightless"][-1]:
            law = {t: p for l in range(n + 1) for t, p in fixed_loss(M, s, l).items()}
    for q in d.get("pre", []):      # other calculators used earlier in the same program
        N = mat(q["matrix"])
        o = (F if d["which"] == "fixed" else Un)(make_config(N, q["input"], q["left"], q["eta"]),
                                                 calc_class(d["calc"])(N, None, None))
        o.calculate_distribution()
        o.calculate_probabilities_of_outcomes(o.get_outcomes_in_proper_order())
    Mc, st = M.copy(), list(s)
    cfg = make_config(Mc, s, left, eta, initial_state=st)
    c = (F if d["which"] == "fixed" else Un)(cfg, calc_class(d["calc"])(M.copy(), None, None))
    for w in d.get("weightless", []):
        c.set_weightless(w)
    form = d.get("form", "list")

    def look():
        if d.get("ask") is not None:
            got = list(c.calculate_probabilities_of_outcomes([typed(o, form) for o in d["ask"]]))
            if len(got) != len(d["ask"]):
                fail(f"{len(got)} probabilities for {len(d['ask'])} outcomes")
            for o, p in zip(d["ask"], got):
                if not close(p, law[tuple(o)]):
                    fail(f"probability of {o} is {p}, expected {law[tuple(o)]}")
        ps = list(c.calculate_distribution())
        outs = [tuple(int(x) for x in o) for o in c.get_outcomes_in_proper_order()]
        if d.get("only") == "normalised":
            if len(ps) != len(outs) or not close(sum(ps), 1) or min(ps) < -1e-9:
                fail(f"sum of the distribution {sum(ps)}, smallest {min(ps)}, {len(ps)} values for {len(outs)} outcomes")
            return
        if len(ps) != len(outs) or sorted(outs) != sorted(law):
            fail(f"{len(ps)} probabilities, {len(outs)} outcomes, expected {len(law)}")
        for o, p in zip(outs, ps):
            if not close(p, law[o]):
                fail(f"probability of {o} is {p}, expected {law[o]}")
    look()
    if list(cfg.initial_state) != list(s) or not np.array_equal(Mc, M) or cfg.number_of_particles_left != left:
        fail("the caller's configuration was modified")
    if "mutate" in d:
        N = mat(d["mutate"])
        Mc[...] = N
        st[0] += 1
        cfg.interferometer_matrix = N
        cfg.initial_state = [0] * m
        cfg.number_of_particles_left = 0
        cfg.initial_number_of_particles = 0
        cfg.uniform_transmissivity = 0.123
        look()


def scramble(x):
    if isinstance(x, list):
        for v in x:
            scramble(v)
        x.reverse()
        x += x[:1]
    elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
        x[...] = 7


@kind
def primes(d):
    from theboss.quantum_computations_utilities import get_prime_factors
    for n in d["numbers"]:
        if d.get("again"):
            scramble(get_prime_factors(n))
            scramble(get_prime_factors(n + 1 if d["again"] == "next" else n))
        got = get_prime_factors(n)
        want, k, p = [], n, 2
        while k > 1:
            while k % p == 0:
                want.append(p)
                k //= p
            p = p + 1 if (p + 1) ** 2 <= k else max(k, p + 1)
        if sorted(got) != sorted(want) or not all(isinstance(v, (int, np.integer)) for v in got):
            fail(f"prime factors of {n}: {got}")


@kind
def enumeration(d):
    from theboss.boson_sampling_utilities import boson_sampling_utilities as U
    w = d["what"]
    form = d.get("form", "list")

    def tup(v):
        if any(int(x) != x for x in v):
            fail(f"entries that are not whole numbers: {v}")
        return tuple(int(x) for x in v)
    if w == "states":
        n, m, losses = d["n"], d["m"], d["losses"]
        if d.get("again"):
            U.generate_possible_states(n, m, not losses)
            U.generate_possible_states(m, n + 1, bool(losses))
            scramble(U.generate_possible_states(n, m, bool(losses)))
        got = U.generate_possible_states(n, m) if losses is None else U.generate_possible_states(n, m, losses)
        want = [t for l in (range(n + 1) if losses else [n]) for t in states(l, m)]
        if [tup(t) for t in got] != want:
            fail(f"generate_possible_states({n}, {m}, {losses}) = {got[:12]} ({len(got)} states), expected {len(want)}")
    elif w == "lossy":
        s = typed(d["state"], form)
        if d.get("again"):
            U.generate_lossy_n_particle_input_states(typed(d["state"][::-1], form), d["left"])
            if d["left"]:
                U.generate_lossy_n_particle_input_states(typed(d["state"], form), d["left"] - 1)
            scramble(U.generate_lossy_n_particle_input_states(typed(d["state"], form), d["left"]))
        got = [tup(t) for t in U.generate_lossy_n_particle_input_states(s, d["left"])]
        want = substates(d["state"], d["left"])
        if sorted(got) != sorted(want) or list(s) != list(d["state"]):
            fail(f"lossy inputs of {d['state']} with {d['left']} left: {got[:12]}")
    elif w == "types":
        n, m, losses = d["n"], d["m"], d["losses"]
        if d.get("again"):
            U.generate_state_types(m, n, not losses)
            U.generate_state_types(n + 1, m, bool(losses))
            scramble(U.generate_state_types(m, n, bool(losses)))
        got = U.generate_state_types(m, n) if losses is None else U.generate_state_types(m, n, losses)
        want = {t for l in (range(n + 1) if losses else [n]) for t in parts(l, m, l)}
        got = [tup(t) for t in got]
        if len(got) != len(want) or set(got) != want:
            fail(f"state types of {n} particles in {m} modes: {got[:12]} ({len(got)}), expected {len(want)}")
    elif w == "occupation":
        s = typed(d["state"], form)
        a = tup(U.mode_occupation_to_mode_assignment(s))
        b = tup(U.mode_assignment_to_mode_occupation(a, len(d["state"]))) if True else None
        if a != tuple(expand(d["state"])) or b != tuple(d["state"]) or list(s) != list(d["state"]):
            fail(f"occupation {d['state']} -> {a} -> {b}")
    elif w == "assignment":
        a = typed(d["assignment"], form)
        m = d["m"]
        o = tup(U.mode_assignment_to_mode_occupation(a) if m is None else U.mode_assignment_to_mode_occupation(a, m))
        want = tuple(d["assignment"].count(i) for i in range(m if m is not None else max(d["assignment"]) + 1))
        if o != want or list(a) != list(d["assignment"]):
            fail(f"assignment {d['assignment']}, {m} modes -> {o}, expected {want}")


def parts(n, m, top):
    """non-increasing vectors of length m with sum n"""
    if m == 0:
        return [()] if n == 0 else []
    return [(k,) + r for k in range(min(n, top), -1, -1) for r in parts(n - k, m - 1, k)]


@kind
def counting(d):
    from theboss.boson_sampling_utilities import boson_sampling_utilities as U
    fn, losses = d["fn"], d.get("losses", False)

    def dimension(n, m):
        return math.comb(n + m - 1, n)

    def check(got, want, what):
        if int(got) != got or int(got) != want:
            fail(f"{what} = {got!r}, expected {want}")
    if fn == "dimension":
        cases = [(d["n"], d["m"])]
        if d.get("scan"):
            a, b = d["scan"]
            cases += [(n, m) for n in range(a, b) for m in range(a, b)]
        for n, m in cases:
            want = sum(dimension(k, m) for k in range(n + 1)) if losses else dimension(n, m)
            check(U.bosonic_space_dimension(n, m, losses), want, f"bosonic_space_dimension({n}, {m}, {losses})")
    elif fn == "of_type":
        cases = [d["state"]]
        if d.get("scan"):
            a, b = d["scan"]
            cases += [[1] * k + [0] * (m - k) for m in range(a, b) for k in range(1, m)]
        for s in cases:
            want = math.factorial(len(s))
            for x in set(s):
                want //= math.factorial(s.count(x))
            check(U.compute_number_of_states_of_given_type(typed(s, d["form"])), want, f"states of type {s}")
    else:
        n, m = d["n"], d["m"]
        ns = range(n + 1) if losses else [n]
        if fn == "types":
            check(U.compute_number_of_state_types(m, n, losses), sum(len(parts(k, m, k)) for k in ns), f"state types of {n} in {m}, {losses}")
        elif fn == "partitions":
            want = sum(1 for t in parts(n, m, n) if 0 not in t)
            check(U.compute_number_of_k_element_integer_partitions_of_n(m, n), want if m > 0 else 0, f"{m}-element partitions of {n}")
        else:
            got = sum(U.compute_number_of_states_of_given_type(t) for t in U.generate_state_types(m, n, losses))
            check(got, sum(dimension(k, m) for k in ns), f"sum of the states over the types of {n} in {m}, {losses}")


@kind
def matrices(d):
    k, m = d["k"], d["m"]
    from theboss.boson_sampling_utilities import boson_sampling_utilities as U
    from theboss import quantum_computations_utilities as Q
    if d["what"] == "qft":
        A = np.asarray(Q.compute_qft_matrix(k) if d["direct"] else U.generate_qft_matrix_for_first_m_modes(k, m))
        want = np.eye(m, dtype=complex)
        for a in range(k):
            for b in range(k):
                want[a, b] = np.exp(2j * np.pi * a * b / k) / math.sqrt(k)
        if d["direct"] and k == 0:
            if A.size:
                fail("QFT of no modes is not empty")
            return
        if A.shape != want.shape or not np.allclose(A, want, atol=1e-9):
            fail(f"QFT matrix {k} of {m}: {A.tolist()}")
        return
    N = 20000 if d["mode"] == "replay" else 300
    xs = []
    for _ in range(N):
        A = np.asarray(U.generate_random_phases_matrix_for_first_m_modes(k, m))
        if A.shape != (m, m):
            fail(f"shape {A.shape}")
        dg = np.diag(A)
        if not np.allclose(A, np.diag(dg)) or not np.allclose(dg[k:], 1) or not np.allclose(abs(dg), 1):
            fail(f"random phase matrix {A.tolist()}")
        xs.append(dg[:k])
    xs = np.array(xs)
    lim = 6.5 / math.sqrt(N)
    cols = {f"d{i}": xs[:, i] for i in range(k)}
    # successive calls
    cols.update({f"d{i}(next)": np.roll(xs[:, i], 1) for i in range(k)})
    names = list(cols)
    for i, a in enumerate(names):
        for e in range(1, 4):
            if abs(np.mean(cols[a] ** e)) > lim:
                fail(f"E[{a}^{e}] = {np.mean(cols[a] ** e)} over {N} draws")
        for b in names[:i]:
            for e in (1, 2):
                for f in (-2, -1, 1, 2):
                    v = np.mean(cols[a] ** e * cols[b] ** f)
                    if abs(v) > lim:
                        fail(f"E[{a}^{e} {b}^{f}] = {v} over {N} draws")
    for sg in (lambda i: 1, lambda i: (-1) ** i):
        if k:
            v = np.mean(np.prod([xs[:, i] ** sg(i) for i in range(k)], axis=0))
            if abs(v) > lim:
                fail(f"joint moment {v} over {N} draws")


@kind
def scattering(d):
    from theboss.boson_sampling_utilities.boson_sampling_utilities import EffectiveScatteringMatrixCalculator as E
    c = None
    M, s, t = None, [], []
    for st in d["steps"]:
        new = {}
        if "matrix" in st:
            M = mat(st["matrix"])
            new["matrix"] = M.copy()
        if "input" in st:
            s = st["input"]
            new["input_state"] = typed(s, d["form"])
        if "output" in st:
            t = st["output"]
            new["output_state"] = typed(t, d["form"])
        if c is None:
            c = E(**new)
        else:
            for k, v in new.items():
                setattr(c, k, v)
        want = scat(M, s, t) if sum(s) and sum(t) else []
        for _ in range(2):
            got = [list(r) for r in c.calculate()]
            if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)) or \
                    any(not close(x, y) for a, b in zip(got, want) for x, y in zip(a, b)):
                fail(f"scattering matrix of {s} -> {t}: {got}")
        if not np.array_equal(np.asarray(c.matrix), M) or list(c.input_state) != list(s) or list(c.output_state) != list(t):
            fail("the calculator modified its matrix or states")


@kind
def distances(d):
    from theboss import quantum_computations_utilities as Q

    def ref(x, y):
        return sum(abs(a - b) for a, b in zip(x, y)) / 2
    if d["what"] == "tvd":
        f = {"list": list, "tuple": tuple, "array": np.array}[d["form"]]
        vs = [f(d[k]) for k in "xyz"]
        for i in range(3):
            for j in range(3):
                got = Q.count_total_variation_distance(vs[i], vs[j])
                if not close(got, ref(d["xyz"[i]], d["xyz"[j]]), 1e-12):
                    fail(f"tvd({d['xyz'[i]]}, {d['xyz'[j]]}) = {got}")
        if any(list(v) != list(d[k]) for v, k in zip(vs, "xyz")):
            fail("arguments modified")
    elif d["what"] == "dict":
        a = {tuple(k): v for k, v in d["x"]}
        b = {tuple(k): v for k, v in d["y"]}
        if d["form"] == "reversed":
            b = dict(reversed(list(b.items())))
        if d["form"] == "default":
            import collections
            a, b = (collections.defaultdict(int, x) for x in (a, b))
        ka, kb = list(a.items()), list(b.items())
        keys = sorted(set(a) | set(b))
        want = sum(abs(dict(ka).get(k, 0) - dict(kb).get(k, 0)) for k in keys) / 2
        for p, q in ((a, b), (b, a)):
            got = Q.count_total_variation_distance_dicts(p, q)
            if not close(got, want, 1e-12):
                fail(f"tvd of {ka} and {kb} is {got}, expected {want}")
        if list(a.items()) != ka or list(b.items()) != kb:
            fail("arguments modified")
    else:
        x, y = mat(d["x"]), mat(d["y"])
        want = math.sqrt(sum(abs(p) ** 2 for p in (x - y).reshape(-1)))
        for p, q in ((x, y), (y, x)):
            got = Q.count_distance_between_matrices(p.copy(), q.copy())
            if not close(got, want):
                fail(f"matrix distance {got}, expected {want}")
        if not close(Q.count_distance_between_matrices(x.copy(), x.copy()), 0):
            fail("distance of a matrix to itself")


@kind
def sample_bound(d):
    from theboss import quantum_computations_utilities as Q
    ps = [0.5, 0.1, 0.9, 0.01, 1e-6, 0.999, 0.3]
    ds = [0.5, 0.1, 0.05, 0.01, 0.9, 1.5, 0.003, 0.7, 3.0, 0.33, 12.0]
    for k in d["ks"]:
        for p in ps:
            L = k * math.log(2) - math.log(p)
            if d["what"] == "bound":
                for N in (1, 2, 3, 10, 1000):
                    got = Q.count_tv_distance_error_bound_of_experiment_results(k, N, p)
                    if not close(got, math.sqrt(L / (2 * N)), 1e-9):
                        fail(f"bound for k={k}, N={N}, p={p} is {got}, expected {math.sqrt(L / (2 * N))}")
                continue
            for dd in ds:
                N = Q.compute_minimal_number_of_samples_for_desired_accuracy(k, p, dd)
                x = L / (2 * dd * dd)
                if abs(x - round(x)) < 1e-6 * (1 + abs(x)):
                    continue
                if int(N) != N or int(N) != math.floor(x) + 1:
                    fail(f"{N} samples suggested for k={k}, p={p}, d={dd}; the smallest number meeting the bound is {math.floor(x) + 1}")


@kind
def sample_based(d):
    from theboss.distribution_calculators.bs_sample_based_distribution_calculator import BSSampleBasedDistributionCalculator as K
    calls, cur, smp = [], [0, 0], d["samples"]
    s = tuple(d["input"])

    class Stub:
        def simulate(self, input_state, samples_number=1):
            calls.append((cur[0], tuple(int(x) for x in input_state), samples_number))
            rows = smp[cur[0]][cur[1]:cur[1] + samples_number]
            cur[1] += samples_number
            return [typed(x, d["form"]) for x in rows]
    c, k = None, 0
    for op in d["ops"]:
        if op[0] == "new":
            args = {}
            if op[1] is not None:
                args["samples_number"] = op[1]
            if op[2] is not None:
                args["outcomes"] = [list(o) for o in op[2]]
            c = K(make_config(None, s, d["left"]), Stub(), **args)
        elif op[0] == "n":
            c.samples_number = op[1]
        elif op[0] == "out":
            c.outcomes = [list(o) for o in op[1]]
        elif op[0] == "left":
            c.configuration = make_config(None, s, op[1])
        else:
            if op[0] == "dist":
                ps = c.calculate_distribution()
            elif op[0] == "argument":
                ps = c.calculate_approximate_distribution(op[1])
            else:
                ps = c.calculate_probabilities_of_outcomes([list(o) for o in op[1]])
            N, outs, strict = d["expect"][k]
            outs = [tuple(o) for o in outs]
            listed = c.get_outcomes_in_proper_order()
            if strict and (listed is None or [tuple(int(x) for x in o) for o in listed] != outs):
                fail(f"listed outcomes {listed}, expected {outs}")
            mine = [x for x in calls if x[0] == k]
            if sum(x[2] for x in mine) != N or any(x[1] != s for x in mine):
                fail(f"the strategy was asked for {mine}, expected {N} samples of {s}")
            want = [sum(tuple(x) == o for x in smp[k]) / N for o in outs]
            if len(ps) != len(want) or any(not close(a, b, 1e-12) for a, b in zip(ps, want)):
                fail(f"frequencies {list(ps)}, expected {want} for samples {smp[k]}")
            k += 1
            cur[:] = [k, 0]


@kind
def dilation(d):
    from theboss.boson_sampling_utilities import boson_sampling_utilities as B
    M = mat(d["matrix"])
    m = len(M)
    A = [list(r) for r in M] if d["form"] == "list" else M.copy()
    E = np.asarray(B.prepare_interferometer_matrix_in_expanded_space(A))
    T = list(B.get_modes_transmissivity_values_from_matrix(A))
    if not np.array_equal(np.asarray(A), M):
        fail("the given matrix was modified")
    if E.shape != (2 * m, 2 * m) or not np.all(np.isfinite(E)):
        fail(f"expanded matrix of shape {E.shape}, finite: {bool(np.all(np.isfinite(E)))}")
    tol = 1e-4 if d["above"] else 1e-6
    if abs(E @ E.conj().T - np.eye(2 * m)).max() > tol:
        fail(f"the expanded matrix is not unitary, deviation {abs(E @ E.conj().T - np.eye(2 * m)).max()}")
    if abs(E[:m, :m] - M).max() > 1e-7:
        fail("the upper-left block is not the given matrix")
    ev = np.sort(np.linalg.eigvalsh(M @ M.conj().T))[::-1]
    if len(T) != m or max(abs(np.sort(np.asarray(T))[::-1] - ev)) > 1e-7:
        fail(f"transmissivities {T}, squared singular values {list(ev)}")
    if abs(ev - 1).max() < 1e-12 and max(abs(E[:m, m:]).max(), abs(E[m:, :m]).max()) > tol:
        fail("a unitary matrix is coupled to the additional modes")


@kind
def network(d):
    if d["which"] == "lossless":
        from theboss.network_simulation_strategy.lossless_network_simulation_strategy import LosslessNetworkSimulationStrategy as K
    else:
        from theboss.network_simulation_strategy.lossy_network_simulation_strategy import LossyNetworkSimulationStrategy as K
    M = mat(d["matrix"])
    A = M.copy()
    if d.get("other"):
        K(mat(d["other"])).simulate(np.array([complex(a, b) for a, b in d["vectors"][0]]))
    st = K(A)
    last = None
    for v in d["vectors"]:
        x = [complex(a, b) for a, b in v]
        if d["form"] == "occupation":
            x = [int(c.real) for c in x]
        elif d["form"] == "array":
            x = np.array(x)
        elif d["form"] == "tuple":
            x = tuple(x)
        if d.get("reused") and last is not None:
            last[:] = x
            x = last
        last = x
        keep = [complex(c) for c in x]
        res = st.simulate(x)
        y = np.array(res)
        if d.get("other") and isinstance(res, np.ndarray) and res.flags.writeable:
            res[...] = 7
        if [complex(c) for c in x] != keep or not np.array_equal(A, M):
            fail("the input or the matrix was modified")
        if y.shape != (len(M),) or abs(y - M @ np.array(keep)).max() > 1e-7:
            fail(f"result {y}, expected {M @ np.array(keep)}")


# ---------------------------------------------------------------- laws of the strategies
def mean_field(M, n, left, eta=None):
    """particles placed independently by a random-phase uniform superposition of the first n modes"""
    M = np.asarray(M)
    m = len(M)
    out = {}
    lefts = [(left, 1.0)] if eta is None else [(l, math.comb(n, l) * eta ** l * (1 - eta) ** (n - l)) for l in range(n + 1)]
    top = max(l for l, _ in lefts)
    K = top + 1
    for ph in itertools.product(range(K), repeat=max(0, n - 1)):
        ph = (0,) + ph if n else ()
        a = sum((np.exp(2j * np.pi * p / K) * M[:, i] for i, p in enumerate(ph)), np.zeros(m)) / math.sqrt(max(n, 1))
        q = abs(a) ** 2
        miss = max(0.0, 1 - sum(q))
        for l, w in lefts:
            for t in states(l, m + 1):
                pr = fact([l]) / fact(t) * w / K ** max(0, n - 1)
                for x, k in zip(list(q) + [miss], t):
                    pr *= x ** k
                out[t[:m]] = out.get(t[:m], 0.0) + pr
    return out


def strategy_law(d, M, s):
    w = d["which"]
    m, n = len(s), sum(s)
    if w in ("gcc", "gccb", "magcc", "ccr"):
        return lossless(M, s)
    if w in ("ugcc", "ugccb"):
        return uniform(M, s, d["eta"])
    if w == "lngcc":
        return channel(M, s)
    if w == "bobs":
        return superposition_law(M, s, list(range(min(max(d["k"], 0), m))))
    if w == "ubobs":
        k = d["k"] if 0 <= d["k"] < m else m
        return superposition_law(M, s, list(range(k, m)), d["eta"])
    if w == "floss":
        return mean_field(M, n, d["left"])
    if w == "uloss":
        return mean_field(M, n, None, d["eta"])
    raise KeyError(w)


STRATS = {
    "gcc": ("generalized_cliffords_simulation_strategy", "GeneralizedCliffordsSimulationStrategy"),
    "gccb": ("generalized_cliffords_b_simulation_strategy", "GeneralizedCliffordsBSimulationStrategy"),
    "magcc": ("mode_assignment_generalized_cliffords_simulation_strategy",
              "ModeAssignmentGeneralizedCliffordsSimulationStrategyInterface"),
    "ugcc": ("generalized_cliffords_uniform_losses_simulation_strategy", "GeneralizedCliffordsUniformLossesSimulationStrategy"),
    "ugccb": ("generalized_cliffords_b_uniform_losses_simulation_strategy", "GeneralizedCliffordsBUniformLossesSimulationStrategy"),
    "lngcc": ("lossy_networks_generalized_cliffords_simulation_strategy", "LossyNetworksGeneralizedCliffordsSimulationStrategy"),
    "bobs": ("nonuniform_losses_approximation_strategy", "NonuniformLossesApproximationStrategy"),
    "ubobs": ("lossy_state_approximated_simulation_strategy", "LossyStateApproximationSimulationStrategy"),
    "ccr": ("cliffords_r_simulation_strategy", "CliffordsRSimulationStrategy"),
    "floss": ("fixed_loss_simulation_strategy", "FixedLossSimulationStrategy"),
    "uloss": ("uniform_loss_simulation_strategy", "UniformLossSimulationStrategy"),
}


def r_standin():
    """rpy2 and the R sampler are not there: their contract (see engine/shims.py) takes their place"""
    import types
    if getattr(sys.modules.get("rpy2"), "standin", False):
        return

    def matrix(values, nrow=None, ncol=None, byrow=False):
        v = np.array([complex(x) for x in values])
        nrow = nrow if nrow is not None else len(v) // ncol
        ncol = ncol if ncol is not None else len(v) // nrow
        if nrow * ncol != len(v):
            raise Skip("R matrix with recycled values")
        return v.reshape((nrow, ncol), order="C" if byrow else "F")

    def sampler(A, sampleSize=1, perm=False):
        m, n = A.shape
        if not n:
            raise ValueError("no particles")
        out = []
        for t in states(n, m):
            rows = expand(t)
            am = perm_(A[list(rows), :])
            out.append((list(rows)[::-1], am, abs(am) ** 2 / fact(t)))
        w = np.array([x[2] for x in out])
        vals, perms, pmf = [], [], []
        for _ in range(sampleSize):
            k = np.random.choice(len(out), p=w / w.sum())
            vals += [r + 1 for r in out[k][0]]
            perms.append(out[k][1])
            pmf.append(out[k][2])
        return [vals, perms if perm else None, pmf if perm else None]
    perm_ = globals()["perm"]
    rpy2, ro, pk = (types.ModuleType(n) for n in ("rpy2", "rpy2.robjects", "rpy2.robjects.packages"))
    rpy2.robjects, ro.packages, rpy2.standin = ro, pk, True
    for n in ("ComplexVector", "FloatVector", "IntVector"):
        setattr(ro, n, list)
    ro.r = types.SimpleNamespace(matrix=matrix)
    pk.importr = lambda name, *a, **k: types.SimpleNamespace(bosonSampler=sampler)
    pk.isinstalled = lambda *a, **k: True
    sys.modules.update({"rpy2": rpy2, "rpy2.robjects": ro, "rpy2.robjects.packages": pk})


def strategy_class(w):
    import importlib
    if w == "ccr":
        r_standin()
    mod, c = STRATS[w]
    return getattr(importlib.import_module("theboss.simulation_strategies." + mod), c)


def make_strategy(d, M):
    w = d["which"]
    K = strategy_class(w)
    calc = calc_class(d.get("calc", "ryser"))(M, None, None)
    d["_calc"] = calc
    if w in ("ugcc", "ugccb"):
        return K(calc, d["eta"])
    if w == "bobs":
        return K(calc, d["k"], d.get("threads", 1))
    if w == "ubobs":
        return K(calc, d["eta"], d["k"], d.get("threads", 1))
    if w == "floss":
        net = None
        if d.get("net") == "lossless":
            from theboss.network_simulation_strategy.lossless_network_simulation_strategy import LosslessNetworkSimulationStrategy
            net = LosslessNetworkSimulationStrategy(M)
        return K(M, d["left"], len(M), net)
    if w == "uloss":
        return K(M, len(M), d["eta"])
    if w == "ccr":
        return K(M)
    return K(calc)


def occ(v):
    v = np.asarray(v)
    if v.ndim != 1 or any(complex(x).imag or float(np.real(x)) != int(np.real(x)) for x in v):
        return ("not an occupation", repr(v)[:80])
    return tuple(int(np.real(x)) for x in v)


def calls_of(d):
    return d.get("calls") or [{"input": d["input"], "samples": 1}]


def run_calls(d, M):
    def asker(M):
        st = make_strategy(d, M)
        if d.get("sim"):
            from theboss.boson_sampling_simulator import BosonSamplingSimulator
            return st, BosonSamplingSimulator(st).get_classical_simulation_results
        return st, st.simulate
    given = M.copy()
    st, ask = asker(given)
    out, s = [], None
    for c in calls_of(d):
        if c.get("new"):
            st, ask = asker(mat(c["matrix"]))
        elif c.get("inplace"):
            given[:] = mat(c["matrix"])
            (st.set_matrix if d["which"] == "ccr" else st.set_new_matrix)(given)
        elif c.get("matrix") is not None:
            (st.set_matrix if d["which"] == "ccr" else st.set_new_matrix)(mat(c["matrix"]))
        if s is None or not d.get("form", "list").startswith("reused"):
            s = typed(c["input"], d.get("form", "list").replace("reused", "").strip() or "list")
        else:
            s[:] = c["input"]
        res = ask(s) if c.get("default") else ask(s, c["samples"])
        if len(res) != c["samples"]:
            fail(f"{len(res)} samples returned, {c['samples']} requested")
        out.extend(occ(x) for x in res)
        if list(s) != list(c["input"]):
            fail("the input was modified")
        if d.get("form", "list").startswith("reused"):
            for x in res:
                if isinstance(x, list) or isinstance(x, np.ndarray) and x.flags.writeable:
                    x[:] = [5] * len(x)
    return out[0] if len(out) == 1 else tuple(out)


def joint_reference(d, M):
    parts_ = []
    for c in calls_of(d):
        if c.get("matrix") is not None:
            M = mat(c["matrix"])
        law = strategy_law(d, M, c["input"])
        parts_ += [law] * c["samples"]
    if len(parts_) == 1:
        return parts_[0]
    out = {(): 1.0}
    for law in parts_:
        out = {a + (t,): p * q for a, p in out.items() for t, q in law.items() if q > 1e-14}
    return out


def law_distance(got, ref):
    keys = set(got) | set(ref)
    return max(((abs(got.get(k, 0.0) - ref.get(k, 0.0)), k) for k in keys), key=lambda x: x[0])


@kind
def law(d):
    import time
    import scripted
    if d.get("threads", 1) != 1 and d["mode"] == "replay" and "which" in d:
        # true worker processes first: correlated workers do not show in a serial run
        real_pools(d)
    serial()
    scripted.install()
    strategy_class(d["which"])
    set_cpus(d.get("cpus"))
    M = mat(d["matrix"])
    m = len(M)
    n = max(sum(c["input"]) for c in calls_of(d))
    ref = joint_reference(d, M)
    if abs(sum(ref.values()) - 1) > 1e-6:
        raise Skip(f"reference law sums to {sum(ref.values())}")
    try:
        got = scripted.exact_law(lambda: run_calls(d, M), lambda v: v, max(2 * n + 1, d.get("grid", 3)),
                                 time.time() + ((8 if d.get("stat") else 20) if d["mode"] == "trace" else 200))
    except scripted.Fallback as e:
        if d["mode"] == "trace":
            if d.get("stat"):
                return statistical(lambda: run_calls(d, M), ref, budget=10, size=1000, single=True)
            raise Skip(f"no exact law: {e}")
        return statistical(lambda: run_calls(d, M), ref)
    except Exception as e:
        # the draw objects of the script may be to blame: the true generators decide
        if d["mode"] == "trace":
            for _ in range(12):
                run_calls(d, M)
            if d.get("stat"):
                return statistical(lambda: run_calls(d, M), ref, budget=10, size=1000, single=True)
            raise Skip(f"no exact law: {type(e).__name__} {e}")
        return statistical(lambda: run_calls(d, M), ref)
    dist, k = law_distance(got, ref)
    if dist > 1e-7:
        if d.get("need_statistical") and d["mode"] == "replay":
            return statistical(lambda: run_calls(d, M), ref)
        fail(f"P{k} = {got.get(k, 0.0):.9f}, expected {ref.get(k, 0.0):.9f} for {d['which']} on {calls_of(d)}")


@kind
def r_probabilities(d):
    M = mat(d["matrix"])
    st = strategy_class("ccr")(M)
    ref = lossless(M, d["input"])
    ts = [tuple(t) for t in d["outcomes"]]
    if any(ref[t] < 1e-4 for t in ts):
        raise Skip("an outcome that hardly ever appears")
    got = st.find_probabilities(list(d["input"]), ts)
    if sorted(tuple(int(x) for x in t) for t in got) != sorted(ts):
        fail(f"probabilities of {sorted(got)}, asked for {ts}")
    for t, p in got.items():
        if abs(p - ref[tuple(t)]) > 1e-7:
            fail(f"P{t} = {p}, expected {ref[tuple(t)]} for the input {d['input']}")


@kind
def r_random_states(d):
    import threading
    M = mat(d["matrix"])
    K = strategy_class("ccr")
    ref = lossless(M, d["input"])
    want = min(d["number"], sum(1 for p in ref.values() if p > 1e-9))
    if any(1e-9 < p < 1e-4 for p in ref.values()):
        raise Skip("an outcome that hardly ever appears")
    box = {}

    def go():
        try:
            for _ in range(20):
                box["got"] = got = K(M).find_probabilities_of_n_random_states(tuple(d["input"]), d["number"])
                if len(got) != want:
                    return
            box["done"] = True
        except Exception as e:
            box["exc"] = e
    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(60)
    if "exc" in box:
        raise box["exc"]
    if "got" not in box:
        fail(f"no answer after a minute for {d['number']} states of the input {d['input']}")
    got = box["got"]
    if len(got) != want:
        fail(f"{len(got)} states returned for the input {d['input']}, {want} expected")
    for t, p in got.items():
        if abs(p - ref[tuple(int(x) for x in t)]) > 1e-7:
            fail(f"P{t} = {p}, expected {ref[tuple(t)]} for the input {d['input']}")


def real_pools(d):
    import subprocess
    e = dict(d, pools=True)
    path = sys.argv[1] + ".pools"
    json.dump(e, open(path, "w"))
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), path], capture_output=True, text=True, timeout=170)
    except subprocess.TimeoutExpired:
        return
    finally:
        os.unlink(path)
    if r.returncode == 1 and "REPRODUCED" in r.stdout:
        fail(r.stdout[r.stdout.index("REPRODUCED") + 11:].strip())


@kind
def pools(d):
    M = mat(d["matrix"])
    statistical(lambda: run_calls(d, M), joint_reference(d, M), budget=60, batches=2, size=400)


def set_cpus(n):
    import multiprocessing
    if not n:
        return
    multiprocessing.cpu_count = os.cpu_count = lambda: n
    for name, m in list(sys.modules.items()):
        if name.startswith("theboss") and hasattr(m, "cpu_count"):
            m.cpu_count = lambda: n


def calc_states(pc):
    return [None if v is None else tuple(v) for v in (pc.input_state, pc.output_state)]


@kind
def factory(d):
    import time
    import scripted
    serial()
    scripted.install()
    from theboss.simulation_strategies.simulation_strategy_factory import SimulationStrategyFactory, StrategyType
    r_standin()
    for w in STRATS:
        if w != "ccr" or any(e[0] == "ccr" for e in d["expect"]):
            strategy_class(w)
    set_cpus(d.get("cpus"))

    def one():
        fac, live, out, given = None, {}, [], []

        def fields(c):
            return make_config(mat(c["M"]), c["s"], c["left"], c["eta"], hierarchy_level=c["level"])

        def calculator(c):
            pc = calc_class(d["calc"])(mat(c["M"]), None, None)
            given.append((pc, mat(c["M"]), calc_states(pc)))
            return pc

        def picture(o):
            return {k: (np.array(v).tolist() if isinstance(v, (list, np.ndarray)) else v) for k, v in vars(o).items()}
        cfgs = []
        for op in d["ops"]:
            if op[0] in ("new", "cfg"):
                o = fields(op[1])
                cfgs.append([o, picture(o)])
                if op[0] == "new":
                    fac = SimulationStrategyFactory(o, calculator(op[1]), *([] if op[2] is None else [StrategyType[op[2]]]))
                else:
                    fac.experiment_configuration = o
                    fac.bs_permanent_calculator = calculator(op[1])
            elif op[0] == "mutate":
                for k, v in vars(fields(op[1])).items():
                    if k != "interferometer_matrix":
                        setattr(cfgs[-1][0], k, v)
                cfgs[-1][1] = picture(cfgs[-1][0])
            elif op[0] == "type":
                fac.strategy_type = StrategyType[op[1]]
            elif op[0] == "threads":
                fac.available_threads_number = op[1]
            elif op[0] == "build":
                live[op[1]] = fac.generate_strategy()
            elif op[0] == "setm":
                live[op[1]].set_new_matrix(mat(op[3]))
            elif op[0] == "sim":
                res = live[op[1]].simulate(list(op[2]), 1)
                if len(res) != 1:
                    return ("number of samples", len(res))
                out.append(occ(res[0]))
        for pc, M, st in given:
            if not np.array_equal(np.array(pc.matrix), M) or calc_states(pc) != st:
                return ("calculator of the caller modified",)
        for o, q in cfgs:
            if picture(o) != q:
                return ("configuration of the caller modified",)
        return tuple(out)
    ref = {(): 1.0}
    n = 1
    for w, M, p, s in d["expect"]:
        n = max(n, sum(s))
        law_ = strategy_law(dict(p, which=w), mat(M), s)
        ref = {a + (t,): x * y for a, x in ref.items() for t, y in law_.items() if y > 1e-14}
    try:
        got = scripted.exact_law(one, lambda v: v, 2 * n + 1, time.time() + ((8 if d.get("stat") else 20) if d["mode"] == "trace" else 200))
    except (scripted.Fallback, Exception) as e:
        if d["mode"] == "trace":
            if d.get("stat"):
                return statistical(one, ref, budget=10, size=1000, single=True)
            raise Skip(f"no exact law: {type(e).__name__} {e}")
        return statistical(one, ref)
    dist, k = law_distance(got, ref)
    if dist > 1e-7:
        if d.get("need_statistical") and d["mode"] == "replay":
            return statistical(one, ref)
        fail(f"P{k} = {got.get(k, 0.0):.9f}, expected {ref.get(k, 0.0):.9f} for the history {[o[0] for o in d['ops']]}")


@kind
def perm_factory(d):
    from theboss.boson_sampling_utilities.permanent_calculators.bs_permanent_calculator_factory import BSPermanentCalculatorFactory as F, \
        PermanentCalculatorType as T
    fac, made, want, cur = None, [], [], {}
    for st in d["steps"]:
        cur.update(st)
        if fac is None:
            fac = F(mat(st["matrix"]), list(st["input"]), list(st["output"]), *([] if d["type"] is None else [T[d["type"]]]))
        else:
            for a, b in (("matrix", "matrix"), ("input", "input_state"), ("output", "output_state")):
                if a in st:
                    setattr(fac, b, mat(st[a]) if a == "matrix" else list(st[a]))
        c = fac.generate_calculator()
        if type(c) is not calc_class(d["class"]):
            fail(f"type {type(c).__name__} for {d['type']}")
        made.append(c)
        want.append(dict(cur))
    for c, w in zip(made, want):
        M = mat(w["matrix"])
        if not np.array_equal(np.array(c.matrix), M) or list(c.input_state) != list(w["input"]) or list(c.output_state) != list(w["output"]):
            fail("a built calculator has another matrix or other states")
    for c, w in zip(made, want):
        got, ref = c.compute_permanent(), perm(scat(mat(w["matrix"]), w["input"], w["output"]))
        if not close(got, ref):
            fail(f"permanent {complex(got)}, expected {complex(ref)}")


@kind
def approximated(d):
    from theboss.distribution_calculators.bs_appriximated_distribution_from_separable_states_calculator import \
        BSApproximatedLossyDistributionCalculator as K
    M = mat(d["matrix"])
    c = K(make_config(M.copy(), d["input"], None, d["eta"], hierarchy_level=d["level"]), calc_class("ryser")(M.copy(), None, None))
    ps, outs = list(c.calculate_distribution()), list(c.get_outcomes_in_proper_order())
    if len(ps) != len(outs):
        fail(f"{len(ps)} probabilities for {len(outs)} outcomes")
    if min(ps) < -1e-9:
        fail(f"negative probability {min(ps)}")


@kind
def accumulated(d):
    import random
    M = mat(d["matrix"])
    s, n, m = d["input"], sum(d["input"]), len(d["input"])
    K = strategy_class("ugcc")
    calc = d.get("calc", "ryser")
    ref = []
    mode = d["mode_"]
    plainw = mode in ("unweighted", "during-unweighted")
    for l in range(n + 1):
        law_ = fixed_loss(M, s, l)
        w = 1.0 if plainw else math.comb(n, l) * d["eta"] ** l * (1 - d["eta"]) ** (n - l)
        ref += [(t, law_.get(t, 0.0) * w) for t in states(l, m)]
    init = -1 if d["flag"] else 0
    for seed in range(3 if d["mode"] == "trace" else 200):
        random.seed(seed)
        np.random.seed(seed)
        st = K(calc_class(calc)(M.copy(), None, None), d["eta"])
        st.missing_values_in_distribution = d["flag"]
        for b in d["before"]:
            st.simulate(typed(b, d["form"]), 1)
        inp = typed(s, d["form"])
        a = () if d["acc"] is None else (d["acc"],)
        if mode == "weighted":
            out = st.compute_distribution_up_to_accuracy(inp, *a)
        elif mode == "unweighted":
            out = st.compute_unweighted_distribution_up_to_accuracy(inp, *a)
        else:
            st.simulate(inp, d["samples"])
            out = st.distribution if mode == "during" else st.unweighted_distribution
        out = list(out)
        if list(inp) != list(s):
            fail("the input was modified")
        if len(out) != len(ref):
            fail(f"{len(out)} entries for {len(ref)} outcomes")
        tot = 0.0
        for i, (x, (t, q)) in enumerate(zip(out, ref)):
            if plainw and i == 0:
                continue
            if x == init and abs(q - init) > 1e-7:
                continue
            if abs(x - q) > 1e-7:
                fail(f"entry of {t} is {x}, expected {q} (eta {d['eta']}, input {s})")
            tot += q
        need = (1 if d["acc"] is None else d["acc"]) * (n if plainw else 1)
        if mode in ("weighted", "unweighted") and tot < need - 1e-6:
            fail(f"the entries add up to {tot}, asked for {need}")


@kind
def counts(d):
    import time
    import scripted
    serial()
    scripted.install()
    strategy_class(d["which"])
    set_cpus(d.get("cpus"))
    M = mat(d["matrix"])
    m = len(M)
    (call,) = d["calls"]
    n = sum(call["input"])

    def one():
        st = make_strategy(d, M.copy())
        if d.get("sim"):
            from theboss.boson_sampling_simulator import BosonSamplingSimulator
            ask = BosonSamplingSimulator(st).get_classical_simulation_results
        else:
            ask = st.simulate
        res = list(ask(typed(call["input"], d.get("form", "list")), call["samples"]))
        if len(res) != call["samples"]:
            return f"{len(res)} samples returned, {call['samples']} requested"
        for x in res:
            t = occ(x)
            if len(t) != m or any(not isinstance(v, int) or v < 0 for v in t) or sum(t) > n or (
                    d["which"] in ("gcc", "gccb", "magcc") and sum(t) != n):
                return f"sample {t} for the input {call['input']}"
        return "fine"
    try:
        got = scripted.exact_law(one, lambda v: v, 3, time.time() + (10 if d["mode"] == "trace" else 100))
    except (scripted.Fallback, Exception):
        got = {}
    if set(got) - {"fine"} or not got:
        # decided by the true generators
        for seed in range(30 if d["mode"] == "trace" else 3000):
            np.random.seed(seed)
            import random
            random.seed(seed)
            v = one()
            if v != "fine":
                fail(v)


def statistical(fn, ref, budget=150, sigmas=6.5, size=4000, batches=None, single=False):
    """draws with the true generators: an event chosen on a first batch is tested on the following ones"""
    import multiprocessing
    import random
    import time

    def work(seed, n, q):
        np.random.seed(seed)
        random.seed(seed)
        q.put(draws(n, budget / 3))

    def draws(n, limit):
        c, first = {}, []
        t0 = time.time()
        k = 0
        while k < n and time.time() - t0 < limit:
            try:
                v = fn()
            except Exception as e:
                v = ("raised", type(e).__name__, str(e)[:100])
            c[v] = c.get(v, 0) + 1
            if k < 400:
                first.append(v)
            k += 1
        return k, list(c.items()), repr(first)

    known = set()

    def batch(seed, n):
        if single:
            k, items, _ = draws(n, budget / 3)
            return k, dict(items)
        q = multiprocessing.get_context("fork").Queue()
        ps = [multiprocessing.get_context("fork").Process(target=work, args=(seed * 100 + i, n // 8 + 1, q)) for i in range(8)]
        for p in ps:
            p.start()
        tot, cnt = 0, {}
        for _ in ps:
            k, items, first = q.get()
            if first in known:      # a generator that was not reseeded after the fork: the same draws again
                continue
            known.add(first)
            tot += k
            for t, c in items:
                cnt[t] = cnt.get(t, 0) + c
        for p in ps:
            p.join()
        return tot, cnt
    fn()
    t0 = time.time()
    n, seed = size, 1
    while True:
        tot, cnt = batch(seed, n)
        for t in cnt:
            if ref.get(t, 0.0) < 1e-15:
                fail(f"{t} was returned, an outcome of probability zero")
        if not tot:
            return
        A = {t for t, c in cnt.items() if c / tot > ref.get(t, 0.0)}
        pa = sum(ref.get(t, 0.0) for t in A)
        tot2, cnt2 = batch(seed + 1, n)
        hits = sum(c for t, c in cnt2.items() if t in A)
        sd = math.sqrt(max(pa * (1 - pa), 1e-9) * tot2)
        if tot2 and hits - pa * tot2 > sigmas * sd + 3:
            fail(f"event {sorted(A, key=str)[:6]} seen {hits} times in {tot2} draws, expected {pa * tot2:.1f}")
        if time.time() - t0 > budget:
            return
        n, seed = n * 4, seed + 2


def run_one(d):
    """'agrees', 'REPRODUCED' or 'error' and a message"""
    import io, contextlib, traceback
    import scripted
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            KINDS["pools" if d.get("pools") else d["kind"]](d)
    except SystemExit as e:
        msg = buf.getvalue().strip()
        if e.code == 1 and "REPRODUCED" in msg:
            return "REPRODUCED", msg[msg.index("REPRODUCED") + 11:]
        return "error", msg
    except (Skip, scripted.Fallback, scripted.Cut) as e:
        return "error", f"no exact law: {e}" if not isinstance(e, Skip) else str(e)
    except Hang as e:
        return "REPRODUCED", f"a call of {e} did not return within {HANG_S} s of processor time"
    except Exception as e:
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if d.get("exception_is_failure", True) and any(f.startswith(os.path.join(REPO, "theboss")) for f in files):
            return "REPRODUCED", "the code raised " + traceback.format_exc(limit=-3).replace("\n", " | ")
        return "error", f"{type(e).__name__}: {e}"
    return "agrees", ""


class Skip(Exception):
    pass


class TimeUp(BaseException):
    pass


class Hang(BaseException):
    pass


HANG_S = 45         # processor time of one call into the package; the calls made here take milliseconds


def watch():
    """raise Hang inside a call into the package that does not come back"""
    import signal
    import time
    seen = [None, 0.0]
    top = os.path.join(REPO, "theboss") + os.sep

    def tick(sig, frame):
        outer = None
        while frame is not None:
            if frame.f_code.co_filename.startswith(top):
                outer = frame
            frame = frame.f_back
        now = time.process_time()
        if outer is None or outer is not seen[0]:
            seen[:] = [outer, now]
        elif now - seen[1] > HANG_S:
            seen[:] = [None, now]
            raise Hang(outer.f_code.co_name)
    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, 3, 3)


def main():
    import signal
    import time
    import scripted
    scripted.install()
    watch()
    if sys.argv[1] == "--batch":
        t0 = time.time()
        tmo = float(sys.argv[3])
        jobs = json.load(open(sys.argv[2]))

        def up(*a):
            raise TimeUp()
        signal.signal(signal.SIGALRM, up)
        for i, d in enumerate(jobs):
            left = tmo - (time.time() - t0)
            if left < 1:
                break
            d["mode"] = "trace"
            signal.alarm(max(1, int(left)))
            try:
                st, msg = run_one(d)
            except TimeUp:
                st, msg = "error", "time limit"
            signal.alarm(0)
            print("TRACE", i, st, msg.replace("\n", " ")[:600], flush=True)
        return
    d = json.load(open(sys.argv[1]))
    d["mode"] = "replay"
    st, msg = run_one(d)
    if st == "REPRODUCED":
        print("REPRODUCED " + msg)
        sys.exit(1)
    print("not reproduced " + msg)
    sys.exit(0 if st == "agrees" else 3)


if __name__ == "__main__":
    main()
