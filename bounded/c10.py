"""C10 bounded part: hamiltonian arithmetic against matrix arithmetic at several times."""
import copy as _copy
import numpy as np, scipy.sparse as sp
from bounded import opers
from bounded.harness import Bad, Skip

RULE = "a case is (operation, random operands with random formats and dtypes); non-trivial when the expected result is not zero at some time"

HH = ("add", "sub", "mul", "iadd", "isub", "imul")
HM = ("add", "radd", "sub", "rsub", "mul", "rmul", "iadd", "isub", "imul")
SC = ("mul", "rmul", "div", "imul", "idiv", "add0", "sub0", "radd0", "iadd0", "isub0")
UN = ("neg", "T", "transpose_copy", "conj", "conjugate", "H", "getH", "getH_copy", "copy", "pow1", "pow2", "pow3", "astype", "as_dense", "as_sparse",
      "update_formats", "as_dense_copy", "as_sparse_copy", "matmul_chain", "sum", "pow_after_conj", "mul_conj", "sameargs")


def cases(tier, rng):
    k = 12 if tier == "quick" else 60
    out = []
    for op in HH:
        for _ in range(k * 4):
            out.append(dict(name="ham_ham", op=op, seed=rng.randrange(1 << 30)))
    for op in HM:
        for kind in ("csr", "csc", "dia", "coo", "ndarray", "matrix", "list"):
            for _ in range(k // 2):
                out.append(dict(name="ham_mat", op=op, kind=kind, seed=rng.randrange(1 << 30)))
    for op in SC:
        for kind in ("int", "float", "complex", "np.float64", "np.float32", "np.complex128", "np.int64"):
            for _ in range(k // 4):
                out.append(dict(name="ham_scalar", op=op, kind=kind, seed=rng.randrange(1 << 30)))
    for op in UN:
        for _ in range(k):
            out.append(dict(name="unary", op=op, seed=rng.randrange(1 << 30)))
    for kind in ("csr", "csc", "dia", "ndarray", "matrix", "list", "hamiltonian"):
        for _ in range(k):
            out.append(dict(name="project", kind=kind, seed=rng.randrange(1 << 30)))
    for _ in range(k * 40):
        out.append(dict(name="chain", seed=rng.randrange(1 << 30), length=rng.choice([2, 3, 4])))
    rng.shuffle(out)
    return out


def cast_ok(a, b):
    return np.can_cast(np.dtype(a), np.dtype(b), casting="same_kind")


def shot(H):
    """the stored matrices of H, to detect any change"""
    dense = lambda M: (M.toarray() if sp.issparse(M) else np.array(M))
    return dense(H.static), [(f, dense(M)) for f, M in H.dynamic.items()]


def same_shot(a, b):
    return np.array_equal(a[0], b[0]) and len(a[1]) == len(b[1]) and \
        all(f is g and np.array_equal(x, y) for (f, x), (g, y) in zip(a[1], b[1]))


def expect(H, R, tl, what):
    m = opers.same(H, R, tl)
    if m:
        raise Bad(f"{what}: {m}")
    return int(any(np.abs(R(t)).max() > 0 for t in opers.TIMES))


def desc(d):
    return f"{d['dtype']} n={d['n']} static {d['sf']} dynamic {[(ff, f.__name__, a) for (M, f, a), ff in zip(d['dyn'], d['df'])]}"


def binop(op, a, b):
    if op == "add":
        return a + b
    if op == "radd":
        return b + a
    if op == "sub":
        return a - b
    if op == "rsub":
        return b - a
    if op == "mul":
        return a * b
    if op == "rmul":
        return b * a
    c = a
    if op == "iadd":
        c += b
    elif op == "isub":
        c -= b
    elif op == "imul":
        c *= b
    return c


def mathop(op, A, B):
    if op in ("add", "iadd", "radd"):
        return A + B
    if op in ("sub", "isub"):
        return A - B
    if op == "rsub":
        return B - A
    if op in ("mul", "imul"):
        return A @ B
    return B @ A


def independent(C, ops, what):
    """in-place changes of the new object C leave the operands alone"""
    before = [shot(o) for o in ops]
    C *= 2
    for o, s in zip(ops, before):
        if o is not C and not same_shot(s, shot(o)):
            raise Bad(f"{what}: the result shares memory with an operand, which changes when the result is scaled in place")


def case_ham_ham(op, seed):
    rs = np.random.RandomState(seed)
    d1 = opers.describe(rs)
    d2 = opers.describe(rs, n=d1["n"])
    A, B = opers.build(d1), opers.build(d2)
    if rs.rand() < .1:
        d2, B = d1, A
    ra, rb = opers.ref(d1), opers.ref(d2)
    what = f"({desc(d1)}) {op} ({desc(d2)})"
    if op.startswith("i") and not cast_ok(d2["dtype"], d1["dtype"]):
        try:
            binop(op, A, B)
        except ValueError:
            return 0
        raise Bad(f"{what}: accepted although the type cannot be cast")
    sa, sb = shot(A), shot(B)
    C = binop(op, A, B)
    if op.startswith("i") and C is not A and False:
        raise Bad(f"{what}: in-place operation returned a new object")
    w = expect(C, lambda t: mathop(op, ra(t), rb(t)), opers.tol(d1["dtype"], d2["dtype"]), what)
    if not op.startswith("i") and not same_shot(sa, shot(A)):
        raise Bad(f"{what}: the left operand was changed")
    if not (op.startswith("i") and B is A) and not same_shot(sb, shot(B)):
        raise Bad(f"{what}: the right operand was changed")
    if not (op.startswith("i") and B is A):
        independent(C, [B] if op.startswith("i") else [A, B], what)
    return w


def as_kind(M, kind):
    if kind == "ndarray":
        return M
    if kind == "matrix":
        return np.matrix(M)
    if kind == "list":
        return M.tolist()
    return getattr(sp, kind + "_matrix")(M)


def case_ham_mat(op, kind, seed):
    rs = np.random.RandomState(seed)
    d = opers.describe(rs)
    A, ra = opers.build(d), opers.ref(d)
    t2 = rs.choice(["d", "D", "f", "F"])
    M = opers.mat(rs, d["n"], t2)
    if op == "iadd" and kind == "matrix":
        pass
    X = as_kind(M, kind)
    what = f"({desc(d)}) {op} {kind} {t2}"
    if kind == "list" and op in ("radd", "rsub", "rmul"):
        raise Skip()
    td = np.asarray(X).dtype if kind == "list" else M.dtype
    if op.startswith("i") and not cast_ok(td, d["dtype"]):
        raise Skip()
    sa = shot(A)
    C = binop(op, A, X)
    from quspin.operators import ishamiltonian
    if not ishamiltonian(C):
        raise Bad(f"{what}: the result is {type(C)}, not a hamiltonian")
    w = expect(C, lambda t: mathop(op, ra(t), M.astype(complex)), opers.tol(d["dtype"], t2), what)
    if not op.startswith("i") and not same_shot(sa, shot(A)):
        raise Bad(f"{what}: the operand was changed")
    now = X.toarray() if sp.issparse(X) else np.asarray(X)
    if not np.array_equal(now, M):
        raise Bad(f"{what}: the matrix operand was changed")
    if not op.startswith("i"):
        independent(C, [A], what)
    else:
        C *= 2
    now = X.toarray() if sp.issparse(X) else np.asarray(X)
    if not np.array_equal(now, M):
        raise Bad(f"{what}: the result shares memory with the matrix operand")
    return w


def scalar(kind, rs):
    v = float(rs.choice([2, -1, 3, 0.5, -0.25]))
    return {"int": int(rs.choice([2, -1, 3])), "float": v, "complex": complex(v, 1.0), "np.float64": np.float64(v), "np.float32": np.float32(v),
            "np.complex128": np.complex128(complex(v, -1)), "np.int64": np.int64(rs.choice([2, -3]))}[kind]


def case_ham_scalar(op, kind, seed):
    rs = np.random.RandomState(seed)
    d = opers.describe(rs)
    A, ra = opers.build(d), opers.ref(d)
    c = scalar(kind, rs)
    what = f"({desc(d)}) {op} {c!r}"
    sa = shot(A)
    z = type(c)(0)
    inplace = op.startswith("i")
    try:
        if op == "mul":
            C = A * c
        elif op == "rmul":
            C = c * A
        elif op == "div":
            C = A / c
        elif op == "imul":
            C = A
            C *= c
        elif op == "idiv":
            C = A
            C /= c
        elif op == "add0":
            C = A + z
        elif op == "sub0":
            C = A - z
        elif op == "radd0":
            C = z + A
        elif op == "iadd0":
            C = A
            C += z
        else:
            C = A
            C -= z
    except TypeError:
        if inplace and np.dtype(type(c)).kind == "c" and np.dtype(d["dtype"]).kind != "c":
            return 0
        raise
    from quspin.operators import ishamiltonian
    if not ishamiltonian(C):
        raise Bad(f"{what}: the result is {type(C)}, not a hamiltonian")
    fac = 1 / c if "div" in op else (c if "mul" in op else 1)
    w = expect(C, lambda t: ra(t) * complex(fac), opers.tol(d["dtype"], "f" if kind == "np.float32" else "d"), what)
    if not inplace and not same_shot(sa, shot(A)):
        raise Bad(f"{what}: the operand was changed")
    if op in ("mul", "rmul", "div"):
        independent(C, [A], what)
    return w


def case_unary(op, seed):
    rs = np.random.RandomState(seed)
    d = opers.describe(rs)
    A, R = opers.build(d), opers.ref(d)
    tl = opers.tol(d["dtype"])
    sa, what = shot(A), f"{op} of ({desc(d)})"
    keep, indep = True, False
    if op == "neg":
        C, E, indep = -A, lambda t: -R(t), True
    elif op == "T":
        C, E = A.T, lambda t: R(t).T
    elif op == "transpose_copy":
        C, E, indep = A.transpose(copy=True), lambda t: R(t).T, True
    elif op in ("conj", "conjugate"):
        C, E, indep = getattr(A, op)(), lambda t: R(t).conj(), True
    elif op == "H":
        C, E = A.H, lambda t: R(t).conj().T
    elif op == "getH":
        C, E = A.getH(), lambda t: R(t).conj().T
    elif op == "getH_copy":
        C, E, indep = A.getH(copy=True), lambda t: R(t).conj().T, True
    elif op == "copy":
        C, E, indep = A.copy(), R, True
    elif op in ("pow1", "pow2", "pow3"):
        k = int(op[3])
        C, E, indep = A ** k, lambda t: np.linalg.matrix_power(R(t), k), k > 1
        tl *= 100
    elif op == "astype":
        t2 = rs.choice(["f", "d", "F", "D"])
        if np.dtype(d["dtype"]).kind == "c" and np.dtype(t2).kind != "c":
            t2 = "F"
        C, E = A.astype(np.dtype(t2).type, copy=bool(rs.randint(2))), R
        tl = opers.tol(t2, d["dtype"])
        if C.dtype != np.dtype(t2):
            raise Bad(f"{what}: dtype {C.dtype} instead of {t2}")
    elif op in ("as_dense", "as_dense_copy"):
        C, E, indep = A.as_dense_format(copy=op.endswith("copy")), R, op.endswith("copy")
        if any(sp.issparse(M) for M in [C.static] + list(C.dynamic.values())):
            raise Bad(f"{what}: some parts are still sparse")
    elif op in ("as_sparse", "as_sparse_copy"):
        sf = str(rs.choice(["csr", "csc", "dia"]))
        dfm = str(rs.choice(["csr", "csc", "dia"]))
        arg = {(f, a): dfm for M, f, a in d["dyn"]} if rs.randint(2) else str(dfm)
        C, E, indep = A.as_sparse_format(static_fmt=str(sf), dynamic_fmt=arg, copy=op.endswith("copy")), R, op.endswith("copy")
        formats(C, sf, {(f, a): dfm for M, f, a in d["dyn"]}, what)
    elif op == "update_formats":
        sf = str(rs.choice(opers.FMTS))
        dfm = {(f, a): str(rs.choice(opers.FMTS)) for M, f, a in d["dyn"]}
        if rs.randint(2):
            x = str(rs.choice(opers.FMTS))
            dfm = {k: x for k in dfm}
            arg = x
        else:
            arg = dict(dfm)
        A.update_matrix_formats(sf, arg)
        formats(A, sf, dfm, what)
        C, E = A, R
    elif op == "matmul_chain":
        C, E, indep = A * A - A, lambda t: R(t) @ R(t) - R(t), True
        tl *= 10
    elif op == "sum":
        C, E, indep = sum([A, A, A]), lambda t: 3 * R(t), True
    elif op == "pow_after_conj":
        C, E, indep = A.conj() ** 2, lambda t: R(t).conj() @ R(t).conj(), True
        tl *= 10
    elif op == "mul_conj":
        C, E, indep = (A * A.H).getH() + (A * A).conj(), lambda t: R(t) @ R(t).conj().T + (R(t) @ R(t)).conj(), True
        tl *= 10
    elif op == "sameargs":          # functions that only differ in their arguments stay apart
        from quspin.operators import hamiltonian
        M1, M2 = opers.mat(rs, d["n"], "d"), opers.mat(rs, d["n"], "d")
        C = hamiltonian([], [[M1, opers.f_lin, (-1,)], [M2, opers.f_lin, (-2,)]], dtype=np.float64)
        C = C + hamiltonian([], [[M1, opers.f_lin, (-2,)]], dtype=np.float64)
        E = lambda t: ((1 - t) * M1 + (1 - 2 * t) * (M1 + M2)).astype(complex)
    w = expect(C, E, tl, what)
    if not same_shot(sa, shot(A)):
        raise Bad(f"{what}: the operand was changed")
    if indep:
        independent(C, [A], what)
    return w


def formats(H, sf, dfm, what):
    name = lambda M: M.format if sp.issparse(M) else "dense"
    if name(H.static) != sf:
        raise Bad(f"{what}: static format {name(H.static)} instead of {sf}")
    for f, M in H.dynamic.items():
        if name(M) != dfm[(f._f, tuple(f._args))]:
            raise Bad(f"{what}: dynamic format {name(M)} instead of {dfm[(f._f, tuple(f._args))]}")


def case_chain(seed, length):
    """random expression of several operations; all atoms must be unchanged afterwards"""
    rs = np.random.RandomState(seed)
    n = int(rs.choice([2, 3, 4]))
    ds = [opers.describe(rs, n=n, dtype=rs.choice(["d", "D"]), ndyn=int(rs.choice([0, 1, 2]))) for _ in range(3)]
    atoms = [opers.build(d) for d in ds]
    refs = [opers.ref(d) for d in ds]
    shots = [shot(a) for a in atoms]
    k = rs.randint(3)
    X, E, txt = atoms[k], refs[k], f"H{k}"
    fresh = False                     # may X be changed in place?
    for _ in range(length):
        k = rs.randint(3)
        B, rb = atoms[k], refs[k]
        op = rs.choice(["add", "sub", "mul", "rmul", "iadd", "isub", "imul", "neg", "conj", "T", "scal", "mat", "H", "copy"])
        Ep = E
        if op in ("iadd", "isub", "imul") and (not fresh or not cast_ok(B.dtype, X.dtype)):
            op = op[1:]
        if op in ("add", "sub", "mul", "rmul", "iadd", "isub", "imul"):
            X = binop(op, X, B)
            E = (lambda op, Ep, rb: lambda t: mathop(op, Ep(t), rb(t)))(op, Ep, rb)
            fresh = True
            txt = f"({txt}) {op} H{k}"
        elif op == "neg":
            X, E = -X, (lambda Ep: lambda t: -Ep(t))(Ep)
            fresh = True
            txt = f"-({txt})"
        elif op in ("conj", "T", "H"):
            X = X.conj() if op == "conj" else (X.T if op == "T" else X.H)
            E = (lambda Ep, op: lambda t: {"conj": Ep(t).conj(), "T": Ep(t).T, "H": Ep(t).conj().T}[op])(Ep, op)
            fresh = fresh and op != "T" and op != "H"
            txt = f"({txt}).{op}"
        elif op == "scal":
            c = float(rs.choice([2, -1, .5]))
            X, E = c * X, (lambda Ep, c: lambda t: c * Ep(t))(Ep, c)
            fresh = True
            txt = f"{c}*({txt})"
        elif op == "copy":
            X, fresh = X.copy(), True
            txt = f"({txt}).copy()"
        else:
            M = opers.mat(rs, n, "d")
            kind, o = str(rs.choice(["csr", "dia", "ndarray"])), str(rs.choice(["add", "sub", "mul", "rmul"]))
            X, E = binop(o, X, as_kind(M, kind)), (lambda Ep, M, o: lambda t: mathop(o, Ep(t), M.astype(complex)))(Ep, M, o)
            fresh = True
            txt = f"({txt}) {o} {kind}"
    if np.abs(E(opers.TIMES[1])).max() > 1e7:
        raise Skip()
    sc = max(np.abs(E(t)).max() for t in opers.TIMES) + 1
    m = opers.same(X, E, 1e-9)
    if m and not any(abs(np.abs(E(t)).max()) < 1e-9 * sc for t in opers.TIMES):
        raise Bad(f"{txt} with {[desc(d) for d in ds]}: {m}")
    for a, s in zip(atoms, shots):
        if not same_shot(s, shot(a)):
            raise Bad(f"{txt}: an operand was changed")
    return int(sc > 1)


def case_project(kind, seed):
    """V^dagger H(t) V for isometries and arbitrary matrices V"""
    rs = np.random.RandomState(seed)
    d = opers.describe(rs)
    n = d["n"]
    A, R = opers.build(d), opers.ref(d)
    m = int(rs.choice([1, 2, n, n + 1]))
    t2 = str(rs.choice(["d", "D"]))
    if kind == "hamiltonian":
        d2 = opers.describe(rs, n=n)
        V, rv, m, t2 = opers.build(d2), opers.ref(d2), n, d2["dtype"]
        arg = V
    else:
        Q = rs.randint(-2, 3, size=(n, m)).astype(float)
        if t2 == "D":
            Q = Q + 1j * rs.randint(-2, 3, size=(n, m))
        arg, rv = as_kind(Q, kind), lambda t: Q
    what = f"project_to({kind} {n}x{m} {t2}) of ({desc(d)})"
    sa = shot(A)
    C = A.rotate_by(arg) if rs.rand() < .3 else A.project_to(arg)
    w = expect(C, lambda t: rv(t).conj().T @ R(t) @ rv(t), 10 * opers.tol(d["dtype"], t2), what)
    if C.Ns != m or C.get_shape != (m, m):
        raise Bad(f"{what}: Ns {C.Ns}, shape {C.get_shape}")
    if not same_shot(sa, shot(A)):
        raise Bad(f"{what}: the operand was changed")
    independent(C, [A], what)
    v = rs.randn(m)
    o = C.evolve(v, 0.0, 1e-3 / (1.0 + np.abs(R(0.0)).max() * np.abs(rv(0.0)).max() ** 2))
    if o.shape != (m,):
        raise Bad(f"{what}: a state evolved with the result has shape {o.shape}")
    return w
