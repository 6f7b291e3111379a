"""C18 bounded part: the action of matrix exponentials against scipy.linalg.expm of the dense matrix."""
import random, warnings
import numpy as np, scipy.linalg as la, scipy.sparse as sp
from bounded import oracle
from bounded.harness import Bad, Skip

warnings.filterwarnings("ignore")
RULE = ("a case is (matrix kind, size, number types, memory layout, prefactor) for the parallel exponential, or (operator class, "
        "prefactor, grid, iterate, action, class of the argument) for exp_op; non-trivial when the matrix and the vector are non-zero")

KINDS = ("random", "herm", "diag", "nilpotent", "identity", "zero", "shifted", "block", "graded", "sparse", "antiherm")
STORE = ("csr", "csc", "coo", "dense", "real_part", "int64", "dup", "unsorted", "hamiltonian_mat")


def cases(tier, rng):
    out = []
    k = 1 if tier == "quick" else 8
    for kind in KINDS:
        for store in STORE:
            for _ in range(4 * k):
                out.append(dict(name="expm", kind=kind, store=store, n=rng.choice([1, 2, 3, 5, 8, 13, 30]),
                                dt=rng.choice("dDdDfFb"), scale=rng.choice([0.01, 1, 5, 20]), ak=rng.choice(["one", "real", "neg", "imag", "cplx", "zero", "int"]),
                                v=rng.choice("dDfFi"), seed=rng.randrange(1 << 30)))
    for _ in range(60 * k):
        out.append(dict(name="norm", n=rng.choice([2, 6, 20]), scale=rng.choice([50, 200, 800]), seed=rng.randrange(1 << 30)))
        out.append(dict(name="options", seed=rng.randrange(1 << 30)))
    for O in ("ham", "ham_t", "qop", "sparse", "dense", "hamdense", "qopdense"):
        for act in ("dot", "rdot", "sandwich"):
            for other in ("vec", "mat", "matrix", "csr", "csc", "ham", "ham_t", "hamdense", "list"):
                if act == "sandwich" and other == "vec":
                    continue
                for grid in ("none", "grid", "iter"):
                    for _ in range(k):
                        out.append(dict(name="op", O=O, act=act, other=other, grid=grid, n=rng.choice([2, 3, 5, 8]), ak=rng.choice(["one", "real", "imag", "cplx", "neg", "imag"]),
                                        shift=rng.choice([None, None, None, .7]), seed=rng.randrange(1 << 30)))
    for _ in range(60 * k):
        out.append(dict(name="views", O=rng.choice(["ham", "ham_t", "qop", "dense"]), n=rng.choice([2, 3, 5]), ak=rng.choice(["real", "imag", "cplx"]), seed=rng.randrange(1 << 30)))
        out.append(dict(name="rotate", n=rng.choice([2, 3, 5]), ak=rng.choice(["real", "imag", "cplx"]), seed=rng.randrange(1 << 30)))
    for _ in range(20 * k):
        out.append(dict(name="grids", seed=rng.randrange(1 << 30)))
    return out


def prefactor(rs, ak):
    x, y = rs.uniform(.2, 1.3), rs.uniform(-1.3, 1.3)
    return {"one": 1.0, "real": x, "neg": -x, "imag": 1j * y, "cplx": x + 1j * y, "zero": 0.0, "int": int(rs.randint(-2, 3))}[ak]


def matrix(rs, kind, n, dt, scale):
    M = rs.normal(size=(n, n))
    if np.dtype(dt).kind == "c":
        M = M + 1j * rs.normal(size=(n, n))
    if kind == "herm":
        M = M + M.conj().T
    elif kind == "antiherm":
        M = M - M.conj().T
    elif kind == "diag":
        M = np.diag(np.diag(M))
    elif kind == "nilpotent":
        M = np.triu(M, 1)
    elif kind == "identity":
        M = np.eye(n) * M[0, 0]
    elif kind == "zero":
        M = 0 * M
    elif kind == "shifted":
        M = M + 3 * np.eye(n)
    elif kind == "block":
        M[: n // 2, n // 2:] = 0
        M[n // 2:, : n // 2] = 0
    elif kind == "graded":
        M = M * np.logspace(0, -12, n)[:, None]
    elif kind == "sparse":
        M = M * (rs.rand(n, n) < 2.0 / n)
    nrm = np.abs(M).sum(0).max()
    if nrm > 0:
        M = M * (scale / nrm)
    if np.dtype(dt).kind == "i":
        M = np.round(M)
    return M.astype(dt)


def stored(rs, M, store):
    n = len(M)
    if store == "dense":
        return M.copy()
    if store in ("csr", "csc", "coo"):
        return getattr(sp, store + "_matrix")(M)
    if store == "real_part":
        t = np.result_type(M.dtype, np.complex64)
        A = sp.csr_matrix(M.astype(t) + (0 if M.dtype.kind == "c" else 1j * (M != 0) * rs.normal(size=(n, n))))
        return A.conj() if M.dtype.kind == "c" else A.real
    A = sp.csr_matrix(M)
    if store == "int64":
        A.indptr, A.indices = A.indptr.astype(np.int64), A.indices.astype(np.int64)
    elif store == "dup":
        if M.dtype.kind == "i":
            raise Skip()
        c = sp.coo_matrix(A)
        w = rs.uniform(-1, 2, size=c.nnz)
        row, col = np.concatenate([c.row, c.row]), np.concatenate([c.col, c.col])
        dat = np.concatenate([c.data * w, c.data * (1 - w)]).astype(M.dtype)
        o = np.argsort(row, kind="stable")
        A = sp.csr_matrix((dat[o], col[o], np.concatenate([[0], np.cumsum(np.bincount(row, minlength=n))]).astype(np.int32)), shape=(n, n))
    elif store == "unsorted":
        for i in range(n):
            s = slice(A.indptr[i], A.indptr[i + 1])
            p = rs.permutation(A.indptr[i + 1] - A.indptr[i])
            A.indices[s], A.data[s] = A.indices[s][p], A.data[s][p]
        A.has_sorted_indices = False
    return A


def image(A):
    if sp.issparse(A):
        return A.shape, A.dtype, A.toarray().tobytes()
    return A.shape, A.dtype, np.asarray(A).tobytes()


def vec(rs, n, t):
    v = rs.normal(size=n)
    if np.dtype(t).kind == "c":
        v = v + 1j * rs.normal(size=n)
    if np.dtype(t).kind == "i":
        v = np.round(3 * v) + 1
    return v.astype(t)


def close(got, want, tol, what, base=0.0):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad(f"{what}: shape {got.shape}, expected {want.shape}")
    s = max(np.abs(want).max(initial=0), base)
    d = np.abs(got - want).max(initial=0)
    if not d <= tol * max(s, 1e-300):
        raise Bad(f"{what}: deviates by {d:.3g} (scale {s:.3g}, allowed {tol:.1g})")


def growth(aM):
    """how much rounding is amplified: norm of exp(|aM|) against the result"""
    return np.exp(min(np.abs(aM).sum(0).max(), 40.0))


def case_expm(kind, store, n, dt, scale, ak, v, seed):
    from quspin.tools.evolution import expm_multiply_parallel
    rs = np.random.RandomState(seed % (1 << 31))
    t = {"b": np.int8}.get(dt, np.dtype(dt))
    M = matrix(rs, kind, n, t, min(scale, 5) if kind in ("random", "nilpotent", "shifted", "graded", "sparse", "block", "diag", "identity") else scale)
    if store == "hamiltonian_mat":
        from quspin.operators import hamiltonian
        if np.dtype(t).kind == "i":
            raise Skip()
        A = hamiltonian([M], [], dtype=t, check_herm=False).tocsr()
    else:
        A = stored(rs, M, store)
    if store == "real_part" and M.dtype.kind == "c":
        M = M.conj()
    a = prefactor(rs, ak)
    before = image(A)
    E = expm_multiply_parallel(A, a=a, copy=bool(rs.randint(2)))
    x = vec(rs, n, np.dtype(v) if v != "i" else np.int32)
    if rs.randint(3) == 0:
        x = np.repeat(x, 2)[::2]
    if rs.randint(4) == 0:
        x.flags.writeable = False
    keep = x.tobytes()
    X = la.expm(complex(a) * M.astype(np.complex128))
    want = X @ x
    eps = 1e-12 if np.dtype(t).char not in "fF" else 1e-6 if store == "dup" else 1e-12
    tol = eps * (20 + np.abs(a * M).sum(0).max()) * (1 if kind in ("herm", "antiherm", "diag") else 1)
    base = growth(a * M) * 1e-2 * np.abs(x).max() if kind not in ("diag",) else np.abs(x).max()
    for r in range(2):
        got = E.dot(x)
        close(got, want, tol, f"exp(aA)v, {kind} {store} {M.dtype} a={a}", base=base if np.real(a) or kind != "herm" else np.abs(x).max())
        if np.dtype(got.dtype).kind != "c" and (isinstance(a, complex) or M.dtype.kind == "c" or x.dtype.kind == "c"):
            raise Bad("real result of a complex product")
    if x.tobytes() != keep:
        raise Bad("the vector was modified")
    if image(A) != before:
        raise Bad("the matrix was modified")
    b = prefactor(rs, rs.choice(["real", "imag", "neg", "cplx", "zero"]))
    E.set_a(b)
    want = la.expm(complex(b) * M.astype(np.complex128)) @ x
    close(E.dot(x), want, eps * (20 + np.abs(b * M).sum(0).max()), f"after set_a({b})", base=growth(b * M) * 1e-2 * np.abs(x).max())
    if E.a != b:
        raise Bad("attribute a")
    return 1 if np.abs(M).max() > 0 else 0


def case_norm(n, scale, seed):
    """large norms: unitary evolution, and decaying or growing exponentials of Hermitian matrices"""
    from quspin.tools.evolution import expm_multiply_parallel
    rs = np.random.RandomState(seed % (1 << 31))
    M = matrix(rs, "herm", n, np.dtype(rs.choice(["d", "D"])), scale)
    E, V = la.eigh(M)
    x = vec(rs, n, np.dtype("D"))
    for a in (1j, -.5j, -1.0, .3):
        if np.real(a * E).max() > 300:
            continue
        want = V @ (np.exp(a * E) * (V.conj().T @ x))
        got = expm_multiply_parallel(sp.csr_matrix(M), a=a).dot(x)
        big = np.exp(max(0, np.max(np.real(a * E)))) if np.real(a) else 1.0
        close(got, want, 1e-13 * (100 + 5 * scale), f"a={a}, norm {scale}", base=big * np.abs(x).max() if np.real(a) else 0)
    return 1


def case_options(seed):
    from quspin.tools.evolution import expm_multiply_parallel
    r, rs = random.Random(seed), np.random.RandomState(seed % (1 << 31))
    n = r.choice([2, 5, 9])
    M = matrix(rs, r.choice(["random", "herm"]), n, np.dtype(r.choice("dDfF")), 2.0)
    a = prefactor(rs, r.choice(["real", "imag", "cplx"]))
    A = sp.csr_matrix(M)
    E = expm_multiply_parallel(A, a=a)
    t = np.result_type(M.dtype, np.float64, np.complex128 if isinstance(a, complex) else np.float64)
    X = la.expm(complex(a) * M.astype(np.complex128))
    x = vec(rs, n, np.dtype("D") if t.kind == "c" else np.dtype(r.choice("dD")))
    t = np.result_type(t, x.dtype)
    # work array: contents are irrelevant
    w = (rs.normal(size=2 * n) * 1e3).astype(t)
    if r.random() < .3:
        w = np.full(2 * n, np.nan, dtype=t)
    close(E.dot(x, work_array=w), X @ x, 1e-11, "with a work array")
    close(E.dot(x, work_array=w), X @ x, 1e-11, "with a used work array")
    for bad in (np.zeros(2 * n - 1, t), np.zeros(2 * n, np.float32), np.zeros((2, n), t)):
        try:
            E.dot(x, work_array=bad)
        except (ValueError, TypeError):
            continue
        raise Bad("unsuitable work array accepted")
    y = x.astype(t).copy()
    res = E.dot(y, overwrite_v=True)
    close(y, X @ x, 1e-11, "overwrite_v")
    if res is not y and not np.shares_memory(res, y):
        raise Bad("overwrite_v does not return the vector")
    z = np.repeat(x.astype(t), 2)
    try:
        E.dot(z[::2], overwrite_v=True)
    except (TypeError, ValueError):
        if (z != np.repeat(x.astype(t), 2)).any():
            raise Bad("refused overwrite modified the vector")
    else:
        close(z[::2], X @ x, 1e-11, "overwrite_v strided")
    z = x.astype(t).copy()
    z.flags.writeable = False
    try:
        E.dot(z, overwrite_v=True)
    except (TypeError, ValueError):
        pass
    if (z != x).any():
        raise Bad("read-only vector was overwritten")
    for bad in (x[:-1], np.append(x, 1), np.stack([x, x])):
        try:
            E.dot(bad)
        except ValueError:
            continue
        raise Bad("vector of wrong shape accepted")
    # number type
    lo = np.complex64 if isinstance(a, complex) or M.dtype.kind == "c" else np.float32
    if M.dtype.char in "fF":
        E2 = expm_multiply_parallel(A, a=a, dtype=lo)
        xx = x.astype(lo) if np.dtype(lo).kind == "c" or x.dtype.kind != "c" else x.astype(np.complex64)
        g = E2.dot(xx)
        close(g, X @ xx, 2e-4, "single precision")
        E2.set_a(a, dtype=lo)
        close(E2.dot(xx), X @ xx, 2e-4, "single precision after set_a")
        E2.set_a(a)
        close(E2.dot(x), X @ x, 1e-11, "double precision after set_a")
    else:
        for f in (lambda: expm_multiply_parallel(A, a=a, dtype=np.float32), lambda: E.set_a(a, dtype=np.float32)):
            try:
                f()
            except ValueError:
                continue
            raise Bad("insufficient number type accepted")
    E.set_a(a, dtype=t)
    close(E.dot(x), X @ x, 1e-11, "after set_a with a number type")
    for f in (lambda: expm_multiply_parallel(A[:, :-1]), lambda: expm_multiply_parallel(A, a=np.ones(2)), lambda: E.set_a(np.ones(2))):
        try:
            f()
        except ValueError:
            continue
        raise Bad("unsuitable argument accepted")
    return 1


# ---------------------------------------------------------------- exp_op
def drive(t, w):
    return np.cos(w * t) + .5


def operator(rs, O, n):
    """-> object, dense matrix, keyword arguments of the calls"""
    from quspin.operators import hamiltonian, quantum_operator
    cplx = bool(rs.randint(2))
    M = matrix(rs, rs.choice(["random", "herm", "antiherm", "nilpotent"]), n, np.dtype("D" if cplx else "d"), rs.uniform(.5, 2))
    kw = dict(dtype=M.dtype)
    if O == "ham":
        return hamiltonian([sp.csr_matrix(M)], [], check_herm=False, **kw), M, {}
    if O == "hamdense":
        return hamiltonian([M], [], check_herm=False, **kw), M, {}
    if O == "ham_t":
        D = matrix(rs, "random", n, M.dtype, 1.0)
        t = float(rs.uniform(-2, 2))
        h = hamiltonian([sp.csr_matrix(M)], [[sp.csr_matrix(D), drive, (1.3,)]], check_herm=False, **kw)
        return h, M + drive(t, 1.3) * D, dict(time=t)
    if O in ("qop", "qopdense"):
        D = matrix(rs, "random", n, M.dtype, 1.0)
        f = sp.csr_matrix if O == "qop" else np.asarray
        q = quantum_operator({"x": [f(M)], "y": [f(D)]}, check_herm=False, **kw)
        p = dict(x=float(rs.uniform(-1, 1)), y=float(rs.uniform(-1, 1)))
        return q, p["x"] * M + p["y"] * D, dict(pars=p)
    if O == "sparse":
        return sp.csc_matrix(M), M, {}
    return M.copy(), M, {}


TT = (0.0, .6)


def argument(rs, other, n, square):
    """-> object, function t -> dense"""
    from quspin.operators import hamiltonian
    t = np.dtype(rs.choice(["d", "D"]))
    if other == "vec":
        v = vec(rs, n, t)
        return v, lambda s: v
    m = n if square or other in ("ham", "ham_t", "hamdense", "matrix") else int(rs.choice([1, 2, 4, n]))
    M = vec(rs, n * m, t).reshape(n, m)
    if other in ("csr", "csc"):
        M = M * (rs.rand(n, m) < .6)
        return getattr(sp, other + "_matrix")(M), lambda s: M
    if other == "matrix":
        return np.matrix(M), lambda s: M
    if other == "list":
        return M.tolist(), lambda s: M
    if other in ("ham", "hamdense"):
        f = sp.csr_matrix if other == "ham" else np.asarray
        return hamiltonian([f(M)], [], dtype=t, check_herm=False), lambda s: M
    if other == "ham_t":
        D = vec(rs, n * n, t).reshape(n, n)
        return hamiltonian([sp.csr_matrix(M)], [[sp.csr_matrix(D), drive, (.8,)]], dtype=t, check_herm=False), lambda s: M + drive(s, .8) * D
    return M.copy(), lambda s: M


def todense(x, t):
    from quspin.operators import ishamiltonian
    if ishamiltonian(x):
        return np.asarray(x.toarray(time=t))
    if sp.issparse(x):
        return x.toarray()
    return np.asarray(x)


def snapshot(x):
    from quspin.operators import ishamiltonian, isquantum_operator
    if ishamiltonian(x):
        return [todense(x, t).tobytes() for t in TT]
    if isquantum_operator(x):
        return [np.asarray(x.toarray(pars=dict(x=p, y=q))).tobytes() for p, q in ((1, 0), (0, 1), (.3, 2))]
    return image(x) if not isinstance(x, list) else repr(x)


def apply(act, X, B):
    if act == "dot":
        return X @ B
    if act == "rdot":
        return B @ X
    return X.conj().T @ B @ X


def case_op(O, act, other, grid, n, ak, shift, seed):
    from quspin.operators import exp_op, ishamiltonian
    rs = np.random.RandomState(seed % (1 << 31))
    op, M, kw = operator(rs, O, n)
    a = prefactor(rs, ak)
    if act == "rdot" and other not in ("vec", "ham", "ham_t", "hamdense", "matrix"):
        B0, f0 = argument(rs, other, n, True) if other != "mat" else (None, None)
        if other == "mat":
            m = int(rs.choice([1, 2, 4, n]))
            B0 = vec(rs, n * m, np.dtype("D")).reshape(m, n)
            f0 = lambda s, B=B0: B
        B, f = B0, f0
    else:
        B, f = argument(rs, other, n, act == "sandwich")
    gk = {}
    if grid != "none":
        gk = dict(start=float(rs.choice([0.0, rs.uniform(-1, 1)])), stop=float(rs.choice([rs.uniform(.5, 1.5), rs.uniform(.5, 1.5), -.5])), num=int(rs.choice([1, 2, 3, 5])), endpoint=bool(rs.randint(2)))
        if rs.randint(4) == 0:
            del gk["endpoint"]
        gk["iterate"] = grid == "iter"
    E = exp_op(op, a=a, **gk)
    s1, s2 = snapshot(op), snapshot(B)
    ts = [1.0]
    if grid != "none":
        ts = np.linspace(gk["start"], gk["stop"], gk["num"], endpoint=gk.get("endpoint", True))
        if np.abs(np.asarray(E.grid) - ts).max() > 1e-14:
            raise Bad("grid")
    if shift is not None:
        kw = dict(kw, shift=shift)
    MM = a * (M + (shift or 0) * np.eye(n))
    want = [{t: apply(act, la.expm(g * MM), f(t)) for t in TT} for g in ts]
    for r in range(2):          # the same call twice gives the same answer
        res = getattr(E, act)(B, **kw)
        if grid == "none":
            got = [res]
        elif grid == "iter":
            got = list(res)
        else:
            got = res
            if isinstance(res, np.ndarray) and res.dtype != object and len(res) != len(ts) or act != "rdot" and isinstance(res, np.ndarray) and res.dtype != object:
                shp = res.shape
                if other == "vec" or act == "rdot":
                    got = [res[..., i] for i in range(shp[-1])] if act != "rdot" else list(res)
                else:
                    got = [res[..., i] for i in range(shp[-1])]
                    if act == "dot":
                        got = [x if x.shape == (w[TT[0]]).shape and np.abs(x - w[TT[0]]).max() < 1e-8 * (1 + np.abs(x).max()) else x.T for x, w in zip(got, want)]
        if len(got) != len(ts):
            raise Bad(f"{act} of {other}: {len(got)} results for {len(ts)} grid points")
        for g, x, w in zip(ts, got, want):
            if other in ("ham", "ham_t", "hamdense") and not ishamiltonian(x):
                raise Bad("the result of a hamiltonian is not a hamiltonian")
            for t in TT:
                if t and other != "ham_t":
                    continue
                y = todense(x, t)
                if other == "vec":
                    y = y.reshape(-1)
                close(y, w[t], 1e-9, f"{act} of {other} with {O}, a={a}, grid value {g}, call {r + 1}", base=.1)
        if snapshot(op) != s1:
            raise Bad("the operator was modified")
        if snapshot(B) != s2:
            raise Bad("the argument was modified")
        if E.a != a:
            raise Bad(f"{act} changed the prefactor")
    if grid == "none" and shift is None:
        for dense in (True, False):
            close(todense(E.get_mat(dense=dense, **kw), 0), la.expm(a * M), 1e-10, f"get_mat(dense={dense})")
    return 1


def case_views(O, n, ak, seed):
    """transpose, conjugate, Hermitian conjugate and copies are new objects with the right matrix"""
    from quspin.operators import exp_op, isexp_op
    rs = np.random.RandomState(seed % (1 << 31))
    op, M, kw = operator(rs, O, n)
    a = prefactor(rs, ak)
    E = exp_op(op, a=a)
    X = la.expm(a * M)
    v = vec(rs, n, np.dtype("D"))
    for what, f, W in (("T", lambda: E.T, X.T), ("H", lambda: E.H, X.conj().T), ("conj", lambda: E.conj(), X.conj()),
                       ("transpose()", lambda: E.transpose(), X.T), ("transpose(copy)", lambda: E.transpose(copy=True), X.T),
                       ("getH()", lambda: E.getH(), X.conj().T), ("getH(copy)", lambda: E.getH(copy=True), X.conj().T),
                       ("copy", lambda: E.copy(), X), ("H.H", lambda: E.H.H, X), ("T.conj", lambda: E.T.conj(), X.conj().T)):
        F = f()
        if not isexp_op(F):
            raise Bad(f"{what} is not an exp_op")
        close(F.dot(v, **kw), W @ v, 1e-9, f"{what} times vector", base=.1)
        close(E.dot(v, **kw), X @ v, 1e-9, f"the operator itself after {what}", base=.1)
        close(todense(F.get_mat(dense=True, **kw), 0), W, 1e-9, f"matrix of {what}", base=.1)
    F = E.copy()
    F.set_a(.5)
    close(F.dot(v, **kw), la.expm(.5 * M) @ v, 1e-9, "copy after set_a", base=.1)
    close(E.dot(v, **kw), X @ v, 1e-9, "original after set_a of the copy", base=.1)
    close(F.H.rdot(v, **kw), v @ la.expm(.5 * M).conj().T, 1e-9, "rdot of the Hermitian conjugate", base=.1)
    return 1


def case_rotate(n, ak, seed):
    """hamiltonian.rotate_by(generator=True) and project_to(exp_op)"""
    from quspin.operators import exp_op
    rs = np.random.RandomState(seed % (1 << 31))
    K, M, kw = operator(rs, rs.choice(["ham", "hamdense"]), n)
    a = prefactor(rs, ak)
    H, f = argument(rs, rs.choice(["ham", "ham_t"]), n, True)
    X = la.expm(a * M)
    for r in range(2):
        for got in (H.rotate_by(K, generator=True, a=a), H.project_to(exp_op(K, a=a))):
            for t in TT:
                close(todense(got, t), X.conj().T @ f(t) @ X, 1e-9, "rotated hamiltonian", base=.1)
    g = H.rotate_by(K, generator=True, a=a, start=0.0, stop=1.0, num=3)
    for x, s in zip(g, (0, .5, 1)):
        X = la.expm(a * s * M)
        for t in TT:
            close(todense(x, t), X.conj().T @ f(t) @ X, 1e-9, "rotated hamiltonian on a grid", base=.1)
    return 1


def case_grids(seed):
    """set_grid, unset_grid, set_iterate, set_a"""
    from quspin.operators import exp_op
    r, rs = random.Random(seed), np.random.RandomState(seed % (1 << 31))
    n = 3
    op, M, kw = operator(rs, "ham", n)
    a = prefactor(rs, "cplx")
    E = exp_op(op, a=a)
    v = vec(rs, n, np.dtype("D"))
    try:
        E.set_iterate(True)
    except ValueError:
        pass
    else:
        raise Bad("set_iterate(True) without a grid")
    close(E.dot(v), la.expm(a * M) @ v, 1e-9, "after refused set_iterate")
    for step in range(6):
        s, e = r.choice([0.0, .3, -1.0]), r.uniform(.5, 2)
        num, end = r.choice([None, 2, 4]), r.choice([None, True, False])
        k = {}
        if num is not None:
            k["num"] = num
        if end is not None:
            k["endpoint"] = end
        it = r.random() < .5
        if r.random() < .5:
            E.set_grid(s, e, **k)
        else:
            E = exp_op(op, a=a, start=s, stop=e, **k)
        E.set_iterate(it)
        ts, st = np.linspace(s, e, 50 if num is None else num, endpoint=end is not False, retstep=True)
        if len(E.grid) != len(ts) or np.abs(E.grid - ts).max() > 1e-14 or abs(E.step - st) > 1e-14 or E.iterate != it:
            raise Bad("grid attributes")
        got = E.dot(v)
        got = np.array(list(got)).T if it else got
        want = np.stack([la.expm(a * t * M) @ v for t in ts], axis=1)
        close(got, want, 1e-8, "exp(a t O)v on a grid", base=.1)
        if r.random() < .4:
            E.unset_grid()
            if E.grid is not None or E.step is not None or E.iterate:
                raise Bad("unset_grid")
            close(E.dot(v), la.expm(a * M) @ v, 1e-9, "after unset_grid")
        if r.random() < .4:
            a = prefactor(rs, r.choice(["real", "cplx", "imag"]))
            E.set_a(a)
            if E.a != a:
                raise Bad("set_a")
    return 1
