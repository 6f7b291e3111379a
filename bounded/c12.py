"""C12 bounded part: actions, expectation values and elements of hamiltonian and quantum_LinearOperator against the matrix."""
import numpy as np, scipy.sparse as sp
from bounded import opers
from bounded.c11 import vector, close, dense
from bounded.harness import Bad, Skip

RULE = "a case is (interface, random operator, random states and layouts, times); non-trivial when the expected value is not zero"
H1 = ("dot", "rdot", "dot_times", "rdot_times", "dot_sparse", "dot_sparse_times", "rdot_sparse", "expt", "fluct", "expt_times", "fluct_times", "expt_sparse",
      "ele", "ele_diag", "ele_times", "ele_sparse", "trace", "diagonal", "forms", "forms_out", "linop", "eig", "call", "lists", "mixed3")
LO = ("dot", "mul", "matvec", "matmat", "rmatvec", "rmul", "rmul1", "T", "H", "conj", "views", "copy", "set_diagonal", "expt", "fluct", "ele", "ele_diag",
      "sparse", "rsparse", "ham", "rham", "scalar", "neg", "eigsh", "dot_out", "chain", "sums")


def cases(tier, rng):
    k = 20 if tier == "quick" else 120
    out = [dict(name="ham", op=o, seed=rng.randrange(1 << 30)) for o in H1 for _ in range(2 * k)]
    out += [dict(name="linop", op=o, seed=rng.randrange(1 << 30)) for o in LO for _ in range(k)]
    rng.shuffle(out)
    return out


def snapshot(H):
    return dense(H.static).copy(), {f: dense(M).copy() for f, M in H.dynamic.items()}


def case_ham(op, seed):
    rs = np.random.RandomState(seed)
    d = opers.describe(rs, herm=op in ("eig",) or op.startswith("fluct"))
    H, R, n, dt = opers.build(d), opers.ref(d), d["n"], d["dtype"]
    kind = str(rs.choice(["v", "c", "m", "s"]))
    t = str(rs.choice(["d", "D"])) if dt in "dD" else str(rs.choice(["f", "F"]))
    V = vector(rs, n, t, kind)
    V0, before = V.copy(), snapshot(H)
    tm = float(rs.choice(opers.TIMES))
    rt, tl = np.result_type(dt, t), opers.tol(dt, t) * 30
    a = [1.0, -2.0, 0.5][rs.randint(3)]
    if np.dtype(dt).kind == "c" and rs.rand() < .3:
        a = 0.5 - 1.5j
    fm = f"{d['sf']}{d['df']}"
    what = f"{op} ({kind}, {t}, strides {V.strides}, t={tm}, a={a}) of hamiltonian(n={n}, {dt}, {fm})"
    E = R(tm)
    if op in ("dot", "rdot"):
        mode = rs.randint(3)
        x = V if op == "dot" else V.T
        e = a * (E @ x) if op == "dot" else a * (x @ E)
        f = getattr(H, op)
        if mode == 0:
            close(f(x, time=tm, a=a), e, tl, what)
        else:
            out = rs.randint(-3, 4, size=x.shape).astype(rt)
            if rs.rand() < .3:
                out = np.asfortranarray(out)
            e = e + (out if mode == 2 else 0)
            r = f(x, time=tm, a=a, out=out, overwrite_out=mode == 1)
            close(r, e, tl, what + f" out mode {mode}")
            close(out, e, tl, what + f" out mode {mode} (the given array)")
    elif op in ("dot_times", "rdot_times", "expt_times", "fluct_times", "mixed3", "ele_times"):
        k = int(rs.choice([1, 2, 3, n]))
        ts = [float(x) for x in rs.choice(opers.TIMES, size=k)]
        three = op == "mixed3" or (rs.rand() < .4 and op != "ele_times")
        shape = (n, n, k) if three else (n, k)
        X = rs.randint(-3, 4, size=shape).astype(t)
        if np.dtype(t).kind == "c":
            X = X + 1j * rs.randint(-3, 4, size=shape).astype("f")
            X = X.astype(t)
        if rs.rand() < .3:
            X = np.asfortranarray(X)
        X0 = X.copy()
        what += f" shape {shape} times {ts}"
        arg = ts if rs.rand() < .5 else np.array(ts)
        if op == "dot_times" or (op == "mixed3" and rs.rand() < .4):
            r = H.dot(X, time=arg, a=a)
            e = np.stack([a * (R(ts[i]) @ X[..., i]) for i in range(k)], axis=-1)
        elif op == "rdot_times":
            r = H.rdot(X, time=arg, a=a)
            e = np.stack([a * (X[..., i] @ R(ts[i])) for i in range(k)], axis=-1)
        elif op == "ele_times":
            L = rs.randint(-3, 4, size=shape).astype(t)
            dg = bool(rs.rand() < .5)
            r = H.matrix_ele(L, X, time=arg, diagonal=dg)
            e = L.conj().T @ np.stack([R(ts[i]) @ X[..., i] for i in range(k)], axis=-1)
            e = np.diag(e) if dg else e
        else:
            def q(A, i):
                x = X[..., i]
                return np.trace(A @ x) if three else np.vdot(x, A @ x)
            if op == "fluct_times":
                r = H.quant_fluct(X, time=arg)
                e = np.array([q(R(ts[i]) @ R(ts[i]), i) - q(R(ts[i]), i) ** 2 for i in range(k)])
            else:
                r = H.expt_value(X, time=arg)
                e = np.array([q(R(ts[i]), i) for i in range(k)])
        close(r, e, tl * 30, what)
        if not np.array_equal(X, X0):
            raise Bad(f"{what}: the states were changed")
    elif op in ("dot_sparse", "rdot_sparse", "dot_sparse_times", "expt_sparse", "ele_sparse"):
        if V.ndim == 1:
            raise Skip()
        S = getattr(sp, str(rs.choice(["csr", "csc", "coo"])) + "_matrix")(V)
        if op == "dot_sparse":
            close(dense(H.dot(S, time=tm, a=a)), a * (E @ V), tl, what)
        elif op == "rdot_sparse":
            close(dense(H.rdot(S.T, time=tm, a=a)), a * (V.T @ E), tl, what)
        elif op == "dot_sparse_times":
            ts = [float(x) for x in rs.choice(opers.TIMES, size=V.shape[1])]
            close(dense(H.dot(S, time=ts, a=a)), np.stack([a * (R(s) @ V[:, i]) for i, s in enumerate(ts)], axis=1), tl, what + f" times {ts}")
        elif op == "expt_sparse":
            pure = bool(rs.rand() < .4)
            r = H.expt_value(S, time=tm, enforce_pure=pure)
            e = np.einsum("ij,ij->j", V.conj(), E @ V) if V.shape[0] != V.shape[1] or pure else np.trace(E @ V)
            close(np.ravel(r), np.ravel(e), tl * 10, what + f" enforce_pure={pure}")
        else:
            L = vector(rs, n, t, kind)
            dg = bool(rs.rand() < .5)
            r = H.matrix_ele(sp.csr_matrix(L), S if rs.rand() < .5 else V, time=tm, diagonal=dg)
            e = L.conj().T @ E @ V
            close(dense(r), np.diag(e) if dg else e, tl * 10, what)
    elif op in ("expt", "fluct"):
        pure = bool(rs.rand() < .4)
        r = (H.expt_value if op == "expt" else H.quant_fluct)(V, time=tm, enforce_pure=pure)
        if V.ndim == 1 or V.shape[0] != V.shape[1] or pure:
            q = lambda A: np.einsum("i...,i...->...", V.conj(), A @ V)
        else:
            q = lambda A: np.trace(A @ V)
        e = q(E) if op == "expt" else q(E @ E) - q(E) ** 2
        close(np.ravel(r), np.ravel(e), tl * 30, what + f" enforce_pure={pure}")
    elif op in ("ele", "ele_diag"):
        L = vector(rs, n, t, kind)
        if op == "ele_diag" and V.ndim == 1:
            raise Skip()
        r = H.matrix_ele(L, V, time=tm, diagonal=op == "ele_diag")
        e = L.conj().T @ (E @ V)
        close(r, np.diag(e) if op == "ele_diag" else e, tl * 10, what)
    elif op == "trace":
        close(H.trace(time=tm), np.trace(E), tl, what)
    elif op == "diagonal":
        close(H.diagonal(time=tm), np.diag(E), tl, what)
        r = H.diagonal(time=tm)
        try:
            r[...] = 5
        except ValueError:
            pass
    elif op == "forms":
        for f in ("toarray", "todense", "tocsr", "tocsc"):
            close(dense(getattr(H, f)(time=tm)), E, tl, what + " " + f)
    elif op == "forms_out":
        for f in ("toarray", "todense"):
            out = np.full((n, n), 7, dtype=dt)
            close(getattr(H, f)(time=tm, out=out), E, tl, what + " " + f)
            close(out, E, tl, what + f" {f} (the given array)")
    elif op == "call":
        close(dense(H(time=tm)), E, tl, what)
        if not d["dyn"]:
            close(dense(H()), R(0), tl, what)
    elif op == "linop":
        L = H.aslinearoperator(time=tm)
        x = V if V.ndim == 1 else V[:, 0]
        close(L.matvec(x), E @ x, tl, what)
        close(L.rmatvec(x), E.conj().T @ x, tl, what)
        if V.ndim == 2:
            close(L.matmat(V), E @ V, tl, what)
    elif op == "eig":
        tl = 1e-3 if dt in "fF" else 1e-8
        close(H.eigvalsh(time=tm), np.linalg.eigvalsh(E), tl, what)
        e, U = H.eigh(time=tm)
        close(np.asarray(U) * e @ np.asarray(U).conj().T, E, tl, what)
        if n > 2:
            e = H.eigsh(time=tm, k=1, which="SA", v0=np.ones(n), return_eigenvectors=False)
            if np.abs(e[0] - np.linalg.eigvalsh(E)[0]) > 1e-2 and dt not in "fF" and np.linalg.matrix_rank(E) == n:
                full = np.linalg.eigvalsh(E)
                if np.abs(full - e[0]).min() > 1e-6:
                    raise Bad(f"{what}: eigsh gave {e}, not an eigenvalue")
    elif op == "operand":
        x = V
        close(H * x, R(0) @ x, tl, what + " H*v") if not d["dyn"] or True else None
        y = V.T
        close(y * H if False else H.__rmul__(y), y @ R(0), tl, what + " v*H")
    elif op == "lists":
        close(H.dot(V.tolist(), time=tm), E @ V, tl, what)
        close(H.expt_value(np.array(V[:, 0] if V.ndim == 2 else V), time=tm), np.vdot(V[:, 0] if V.ndim == 2 else V, E @ (V[:, 0] if V.ndim == 2 else V)),
              tl * 10, what)
    after = snapshot(H)
    if not np.array_equal(before[0], after[0]) or any(not np.array_equal(before[1][f], after[1][f]) for f in before[1]):
        raise Bad(f"{what}: the operator was changed")
    if not np.array_equal(V, V0):
        raise Bad(f"{what}: the state was changed")
    return np.abs(E).max() > 0


# ---------------------------------------------------------------- quantum_LinearOperator
def lin(rs, herm=False):
    """random operator on a small basis -> (operator, matrix, description)"""
    from quspin.operators import quantum_LinearOperator, hamiltonian
    from quspin import basis as B
    L = int(rs.choice([2, 3, 4]))
    which = rs.randint(5)
    if which == 0:
        b, ops, name = B.spin_basis_1d(L), ["z", "x", "+", "zz", "+-", "xy"], "spin_basis_1d"
    elif which == 1:
        b, ops, name = B.spin_basis_general(L), ["z", "x", "y", "zz", "+-"], "spin_basis_general"
    elif which == 2:
        b, ops, name = B.boson_basis_1d(L, sps=3), ["n", "+", "nn", "+-"], "boson_basis_1d"
    elif which == 3:
        b, ops, name = B.spinless_fermion_basis_general(L, Nf=L // 2), ["n", "nn", "+-"], "fermion_general"
    else:
        b, ops, name = B.spin_basis_1d(L, kblock=int(rs.randint(L)), pauli=False), ["zz", "+-", "z", "x"], "spin_basis_1d(kblock)"
    ti = which == 4
    dt = "D" if ti or rs.rand() < .5 else str(rs.choice(["d", "D"]))
    static = []
    for o in rs.permutation(ops)[:rs.randint(1, 4)]:
        o = str(o)
        if "y" in o:
            dt = "D"
        J = float(rs.choice([1.0, -0.5, 2.0]))
        if rs.rand() < .3 and not herm:
            J, dt = J + 0.5j, "D"
        k = len(o)
        if ti:
            terms = [[J, i] if k == 1 else [J, i, (i + 1) % L] for i in range(L)]
        else:
            terms = [[J] + [int(x) for x in rs.permutation(L)[:k]] for _ in range(rs.randint(1, 3))]
        static.append([o, terms])
        if herm and set(o) & set("+-"):
            h = o.translate(str.maketrans("+-", "-+"))
            static.append([h, terms])
    kw = dict(basis=b, check_herm=False, check_symm=False, check_pcon=False, dtype=np.dtype(dt).type)
    M = hamiltonian(static, [], **kw).toarray()
    if herm and not np.allclose(M, M.conj().T):
        M = None
    A = quantum_LinearOperator(static, **kw)
    if rs.rand() < .3:
        dg = rs.randint(-3, 4, size=b.Ns).astype(dt)
        A = quantum_LinearOperator(static, diagonal=dg, copy=True, **kw)
        M = None if M is None else M + np.diag(dg)
    return A, M, f"{name}(L={L}) {dt} {static}", b, static, kw


def case_linop(op, seed):
    from quspin.operators import hamiltonian
    rs = np.random.RandomState(seed)
    A, M, what, b, static, kw = lin(rs, herm=op in ("fluct", "eigsh"))
    if M is None:
        raise Skip()
    n, dt = b.Ns, np.dtype(A.dtype).char
    what = f"{op} of quantum_LinearOperator {what}"
    t = str(rs.choice(["d", "D"]))
    kind = str(rs.choice(["v", "m", "s"]))
    if op in ("matmat", "ele_diag"):
        kind = str(rs.choice(["m", "s"]))
    if op in ("matvec", "rmatvec", "rmul1", "eigsh"):
        kind = "v"
    V = vector(rs, n, t, kind)
    V0 = V.copy()
    tl = 1e-9
    X, e = A, M
    if op == "views":
        for v in rs.choice(["T", "H", "conj"], size=rs.randint(1, 4)):
            X = X.conj() if v == "conj" else getattr(X, v)
            e = {"T": e.T, "H": e.conj().T, "conj": e.conj()}[v]
            what += "." + v
    elif op in ("T", "H"):
        X, e = getattr(A, op), (M.T if op == "T" else M.conj().T)
    elif op == "conj":
        X, e = A.conj(), M.conj()
    elif op == "copy":
        if rs.rand() < .5:
            X, e = A.T, M.T
        X = X.copy() if rs.rand() < .5 else (X.transpose(copy=True) if rs.rand() < .5 else X.getH(copy=True))
        for c in (e, e.T, e.conj().T):
            if np.allclose(X.matmat(np.eye(n, dtype=dt)), c):
                break
        else:
            raise Bad(f"{what}: the copy is none of A, A.T, A.H")
        e = c
    elif op == "set_diagonal":
        dg = rs.randint(-3, 4, size=n).astype(dt)
        A.set_diagonal(dg)
        off0 = M - np.diag(np.diag(M))
        if A.diagonal is None or not np.array_equal(A.diagonal, dg):
            raise Bad(f"{what}: the diagonal is {A.diagonal}")
        # the diagonal given replaces the stored one; off-diagonal elements stay
        off = A.matmat(np.eye(n, dtype=dt))
        close(off - np.diag(np.diag(off)), off0, tl, what + ": off-diagonal part")
        return 1
    elif op == "neg":
        X, e = -A, -M
    elif op == "scalar":
        c = [2.0, -0.5, 3][rs.randint(3)]
        X, e = (A * c if rs.rand() < .5 else c * A), c * M
    elif op == "chain":
        X, e = A.dot(A), M @ M
    elif op == "sums":
        X, e = A + A.H, M + M.conj().T
    if op in ("T", "H", "conj", "views", "copy", "neg", "scalar", "chain", "sums"):
        close(X.matmat(np.eye(n, dtype=t)), e, tl, what)
        v = V if V.ndim == 1 else V[:, 0]
        close(X.matvec(v), e @ v, tl, what + " matvec")
        close(X.rmatvec(v), e.conj().T @ v, tl, what + " rmatvec")
        close(X.dot(V), e @ V, tl, what + " dot")
        w = 1
    elif op == "dot":
        a = [1.0, -2.0][rs.randint(2)]
        close(A.dot(V, a=a), a * (M @ V), tl, what)
    elif op == "dot_out":
        a = [1.0, -2.0][rs.randint(2)]
        out = rs.randint(-3, 4, size=V.shape).astype(np.result_type(dt, t))
        r = A.dot(V, out=out, a=a)
        close(r, a * (M @ V), tl, what)
        close(out, a * (M @ V), tl, what + " (the given array)")
    elif op in ("mul", "matvec", "matmat"):
        close(A * V if op == "mul" else getattr(A, op)(V), M @ V, tl, what)
    elif op == "rmatvec":
        close(A.rmatvec(V), M.conj().T @ V, tl, what)
    elif op in ("rmul", "rmul1"):
        close(A.__rmul__(V.T), V.T @ M, tl, what)
    elif op in ("expt", "fluct"):
        pure = bool(rs.rand() < .4)
        r = (A.expt_value if op == "expt" else A.quant_fluct)(V, enforce_pure=pure)
        if V.ndim == 1 or V.shape[0] != V.shape[1] or pure:
            q = lambda Z: np.einsum("i...,i...->...", V.conj(), Z @ V)
        else:
            q = lambda Z: np.trace(Z @ V)
        e2 = q(M) if op == "expt" else q(M @ M) - q(M) ** 2
        close(np.ravel(r), np.ravel(e2), tl * 100, what + f" enforce_pure={pure} kind={kind}")
    elif op in ("ele", "ele_diag"):
        L = vector(rs, n, t, kind)
        r = A.matrix_ele(L, V, diagonal=op == "ele_diag")
        e2 = L.conj().T @ M @ V
        close(r, np.diag(e2) if op == "ele_diag" else e2, tl * 10, what)
    elif op in ("sparse", "rsparse"):
        S = sp.csr_matrix(rs.randint(-2, 3, size=(n, n)).astype(t))
        if rs.rand() < .5:
            A, M = A.T, M.T
        close(dense(A * S if op == "sparse" else A.__rmul__(S)), M @ S.toarray() if op == "sparse" else S.toarray() @ M, tl, what)
    elif op in ("ham", "rham"):
        d = opers.describe(rs, n=n, dtype=str(rs.choice(["d", "D"])))
        H, R = opers.build(d), opers.ref(d)
        P = A * H if op == "ham" else A.__rmul__(H)
        m = opers.same(P, (lambda s: M @ R(s)) if op == "ham" else (lambda s: R(s) @ M), 1e-9)
        if m:
            raise Bad(f"{what}: {m}")
    elif op == "eigsh":
        if n < 4:
            raise Skip()
        e2 = A.eigsh(k=1, which="SA", return_eigenvectors=False)
        if np.abs(np.linalg.eigvalsh(M) - e2[0]).min() > 1e-6:
            raise Bad(f"{what}: {e2} is not an eigenvalue")
    # nothing above may change the operator
    close(A.matmat(np.eye(n, dtype=dt)), M, tl, what + ": the operator afterwards")
    if not np.array_equal(V, V0):
        raise Bad(f"{what}: the state was changed")
    return np.abs(M).max() > 0
