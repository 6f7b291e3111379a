"""C01 bounded part: operator strings on product states through the public API, against digit-string definitions."""
import itertools
import numpy as np
from bounded import bases
from bounded.harness import Bad, Skip
from bounded.oracle import expect

RULE = ("a case is (basis family, lattice size, operator string, sites, coupling); it is non-trivial when at least one matrix "
        "element is non-zero")
KINDS = [("spin12", 2, -1), ("spin12", 2, 0), ("spin12", 2, 1), ("hcb", 2, 1), ("boson", 3, 1), ("boson", 4, 1), ("spin", 3, 1),
         ("spin", 4, 1), ("spin", 5, 1), ("fermion", 2, 1), ("spinful", 2, 1)]


def letters(fam, kind):
    L = bases.LETTERS[kind]
    if kind == "spin12":
        L = L.replace("n", "")
    if fam == "one_d" and kind == "hcb":
        L = L.replace("x", "").replace("y", "")
    return L


def rand_string(rng, fam, kind, N, n):
    L = letters(fam, kind)
    op = "".join(rng.choice(L + "+-") for _ in range(n))
    M = 2 * N if kind == "spinful" else N
    return op, [rng.randrange(M) for _ in range(n)]


def split_spinful(op, idx, N):
    """the bar form of an advanced spinful string; only strings whose left letters act on up and right ones on down"""
    l = [i for i, s in enumerate(idx) if s < N]
    r = [i for i, s in enumerate(idx) if s >= N]
    return ("".join(op[i] for i in l) + "|" + "".join(op[i] for i in r), [idx[i] for i in l] + [idx[i] - N for i in r])


def balanced(rng, fam, kind, N):
    L = letters(fam, kind).replace("x", "").replace("y", "")
    diag = "".join(c for c in L if c in "Izn")
    core = rng.choice([["+", "-"], ["-", "+"], ["+", "-", "+", "-"], ["+", "+", "-", "-"], ["-", "-", "+", "+"]])
    ops = core + [rng.choice(diag) for _ in range(rng.randrange(3))]
    rng.shuffle(ops)
    return "".join(ops), [rng.randrange(N) for _ in ops]


def cases(tier, rng):
    rep = 1 if tier == "quick" else 6
    out = []
    for fam in ("general", "one_d"):
        for kind, sps, pauli in KINDS:
            if fam == "one_d" and kind == "spinful":
                pass
            L = letters(fam, kind)
            N = 2 if kind == "spinful" else (3 if sps > 3 else 4)
            M = 2 * N if kind == "spinful" else N
            one = [(c, [i]) for c in L for i in range(M)]
            two = [(a + b, [i, j]) for a in L for b in L for i, j in ((0, M - 1), (M - 1, 0), (1, 1), (0, 1))]
            more = [rand_string(rng, fam, kind, N, rng.randrange(3, 7)) for _ in range(40 * rep)]
            for op, idx in one + two + more:
                J = rng.choice([1.0, -0.7, 2.5, 0.3 - 1.1j])
                out.append(dict(name="full", fam=fam, kind=kind, sps=sps, pauli=pauli, N=N, op=op, idx=idx,
                                J=[J.real, J.imag] if isinstance(J, complex) else [J, 0.0]))
    for kind, sps, pauli in KINDS:
        for N in (9, 16, 20, 31, 32, 33, 40, 63, 64, 65, 100, 130, 200, 300):
            if kind in ("boson", "spin") and (sps ** N).bit_length() > 64:
                continue
            if kind == "spinful" and N % 2:
                continue
            for _ in range(6 * rep):
                n = rng.randrange(1, 6)
                NN = N // 2 if kind == "spinful" else N
                M = 2 * NN if kind == "spinful" else NN
                op, idx = rand_string(rng, "general", kind, NN, n)
                if rng.random() < 0.5:
                    idx = [rng.choice([0, 1, M - 2, M - 1, M // 2, M // 2 - 1]) for _ in idx]
                out.append(dict(name="bra_ket", kind=kind, sps=sps, pauli=pauli, N=NN, op=op, idx=idx, seed=rng.randrange(1 << 30)))
    # sectors of long chains: few particles (or holes), conserving strings
    for kind, sps, pauli in KINDS:
        for L in (20, 31, 32, 33, 40, 62, 63):
            if kind in ("boson", "spin") and (sps ** L).bit_length() > 62:
                continue
            if kind == "spinful":
                continue
            for fam in ("general", "one_d"):
                if fam == "one_d" and kind == "fermion" and L in (32, 64):
                    pass
                for _ in range(3 * rep):
                    op, idx = balanced(rng, fam, kind, L)
                    hole = rng.random() < 0.5 and kind in ("spin12", "hcb", "fermion")
                    out.append(dict(name="long_sector", fam=fam, kind=kind, sps=sps, pauli=pauli, L=L, Np=(L - 1 if hole else 1 if L > 33
                                    else rng.choice([1, 2])), op=op, idx=idx))
    for fam in ("general", "one_d"):
        for kind, sps, pauli in KINDS:
            for bad in "qX#nab1":
                out.append(dict(name="reject", fam=fam, kind=kind, sps=sps, pauli=pauli, bad=bad))
    return out


_cache = {}


def get(fam, kind, N, sps, pauli, **kw):
    k = (fam, kind, N, sps, pauli, tuple(sorted(kw.items())))
    if k not in _cache:
        if len(_cache) > 12:
            _cache.clear()
        _cache[k] = getattr(bases, fam)(kind, N, sps=sps, pauli=pauli, **kw)
    return _cache[k]


def case_full(fam, kind, sps, pauli, N, op, idx, J):
    b = get(fam, kind, N, sps, pauli)
    S = bases.system(kind, N, sps, pauli)
    if kind == "spinful":
        o, ii = split_spinful(op, idx, N)
        op, idx = o.replace("|", ""), ii[:o.index("|")] + [i + N for i in ii[o.index("|"):]]
    else:
        o, ii = op, idx
    Jc = J[0] if J[1] == 0 else complex(*J)
    ME, r, c = b.Op(o, ii, Jc, np.complex128)
    A = np.zeros((b.Ns, b.Ns), complex)
    np.add.at(A, (r, c), ME)
    R = S.matrix([[op, [[Jc] + list(idx)]]]).toarray()
    expect(A, R, 1e-10, f"matrix of {o} on {ii}")
    if len(set(zip(r.tolist(), c.tolist()))) != len(r) and not fam == "one_d":
        raise Bad("matrix element reported twice")
    return int(np.count_nonzero(R) > 0)


def to_py(x):
    from quspin.basis.basis_general._basis_general_core.general_basis_utils import basis_int_to_python_int
    return int(basis_int_to_python_int(x))


def case_bra_ket(kind, sps, pauli, N, op, idx, seed):
    import random
    rng = random.Random(seed)
    b = get("general", kind, N, sps, pauli, make_basis=False)
    S = bases.system(kind, N, sps, pauli)
    if kind == "spinful":
        o, ii = split_spinful(op, idx, N)
        op, idx = o.replace("|", ""), ii[:o.index("|")] + [i + N for i in ii[o.index("|"):]]
    else:
        o, ii = op, idx
    M = S.N
    states = []
    for _ in range(25):
        ds = [rng.randrange(S.sps) for _ in range(M)]
        # steer the acted sites so that products often survive
        for ch, i in reversed(list(zip(op, idx))):
            if rng.random() < 0.7:
                ds[i] = 0 if ch == "+" else S.sps - 1 if ch == "-" else ds[i]
        states.append(S.number(ds))
    states += [0, S.sps ** M - 1, 1, S.sps ** (M - 1)]
    from quspin.basis.basis_general._basis_general_core.general_basis_utils import python_int_to_basis_int
    kets = np.concatenate([np.atleast_1d(python_int_to_basis_int(s, b._basis_dtype)) for s in states])
    before = kets.copy()
    ME, bra, ket = b.Op_bra_ket(o, ii, 0.75, np.complex128, kets, reduce_output=False)
    if not (np.array([to_py(x) for x in kets], dtype=object) == np.array(states, dtype=object)).all():
        raise Bad("Op_bra_ket changed its input states")
    hit = 0
    for s, m, t, k in zip(states, ME, bra, ket):
        r = S.apply(op, idx, s, 0.75)
        if to_py(k) != s:
            raise Bad(f"ket {to_py(k)} returned for {s}")
        if r is None:
            if abs(m) > 1e-12:
                raise Bad(f"{o} on {ii} annihilates state {s} but matrix element {m} is reported")
            continue
        hit = 1
        if abs(m - r[0]) > 1e-10 * max(1, abs(r[0])):
            raise Bad(f"{o} on {ii} applied to state {s}: matrix element {m} instead of {r[0]}")
        if to_py(t) != r[1]:
            raise Bad(f"{o} on {ii} applied to state {s}: state {to_py(t)} instead of {r[1]}")
    return hit


def case_long_sector(fam, kind, sps, pauli, L, Np, op, idx):
    if kind == "spin" and Np > 2:
        raise Skip
    b = get(fam, kind, L, sps, pauli, **{bases.PKEY[kind]: Np})
    S = bases.system(kind, L, sps, pauli)
    ME, r, c = b.Op(op, idx, 1.0, np.complex128)
    st = [int(x) for x in b.states]
    ind = {s: i for i, s in enumerate(st)}
    got = {}
    for m, i, j in zip(ME, r, c):
        got[(int(i), int(j))] = got.get((int(i), int(j)), 0) + m
    exp = {}
    for j, s in enumerate(st):
        x = S.apply(op, idx, s)
        if x is not None:
            exp[(ind[x[1]], j)] = x[0]
    for k in set(got) | set(exp):
        if abs(got.get(k, 0) - exp.get(k, 0)) > 1e-10 * max(1, abs(exp.get(k, 0))):
            raise Bad(f"{op} on {idx}: <{st[k[0]]}|..|{st[k[1]]}> = {got.get(k, 0)} instead of {exp.get(k, 0)}")
    return int(bool(exp))


def case_reject(fam, kind, sps, pauli, bad):
    N = 3
    b = get(fam, kind, N, sps, pauli)
    if bad in bases.LETTERS[kind] and not (kind == "spin12" and bad == "n"):
        raise Skip
    if kind == "spin12" and bad == "n" and fam == "general":
        pass
    for op, idx in ((bad, [0]), ("z" + bad, [0, 1]), (bad + "+", [1, 2])):
        o = op + "|" if kind == "spinful" else op
        if kind == "spinful":
            idx = [i % 3 for i in idx]
        try:
            r = b.Op(o, idx, 1.0, np.complex128)
        except Exception:
            continue
        if len(r[0]) and np.any(np.asarray(r[0]) != 0):
            raise Bad(f"unknown operator letter in {o!r} accepted")
        raise Bad(f"unknown operator letter in {o!r} not rejected")
    return 1
