"""C11 bounded part: quantum_operator(pars) against the sum of parameter times component matrix."""
import os, tempfile
import numpy as np, scipy.sparse as sp
from bounded import opers
from bounded.harness import Bad, Skip

RULE = "a case is (operation, random operator with several components in random formats, random parameters); non-trivial when the expected value is not zero"
FORMS = ("toarray", "todense", "tocsr", "tocsc", "call", "toarray_out", "todense_out")
ACT = ("dot", "rdot", "matvec", "rmatvec", "matmat", "expt", "fluct", "ele", "ele_diag", "trace", "diagonal", "linop", "eig", "sparse_dot")
ALG = ("T", "transpose_copy", "conj", "H", "getH_copy", "copy", "astype", "neg", "add", "sub", "iadd", "isub", "mul", "rmul", "imul", "div", "idiv", "formats",
       "tohamiltonian", "tohamiltonian_f", "zip")
MISC = ("unknown", "pars_kept", "defaults", "inputs_kept", "mixed", "opstr", "two_ops")


def cases(tier, rng):
    k = 12 if tier == "quick" else 80
    out = [dict(name="form", op=o, seed=rng.randrange(1 << 30)) for o in FORMS for _ in range(k)]
    out += [dict(name="action", op=o, seed=rng.randrange(1 << 30)) for o in ACT for _ in range(2 * k)]
    out += [dict(name="algebra", op=o, seed=rng.randrange(1 << 30)) for o in ALG for _ in range(k)]
    out += [dict(name="misc", op=o, seed=rng.randrange(1 << 30)) for o in MISC for _ in range(k)]
    rng.shuffle(out)
    return out


def describe(rs, n=None, dtype=None, keys=None, herm=False):
    n = n or int(rs.choice([1, 2, 3, 4, 5]))
    dtype = str(dtype or rs.choice(["d", "D", "d", "D", "f", "F"]))
    keys = keys or [str(k) for k in rs.permutation(["J", "h", "k", "x1"])[:rs.randint(1, 4)]]
    return dict(n=n, dtype=dtype, comp={k: [opers.mat(rs, n, dtype, herm=herm) for _ in range(int(rs.choice([1, 1, 2])))] for k in keys},
                fmt={k: str(rs.choice(opers.FMTS)) for k in keys})


def total(d, k):
    return sum(M.astype(complex) for M in d["comp"][k])


def build(d, copy=True):
    from quspin.operators import quantum_operator
    src = {k: [opers.fmt(M, d["fmt"][k]) for M in Ms] for k, Ms in d["comp"].items()}
    return quantum_operator(src, dtype=np.dtype(d["dtype"]).type, shape=(d["n"],) * 2, copy=copy), src


def params(rs, d):
    p = {}
    for k in d["comp"]:
        if rs.rand() < .7:
            v = rs.choice([0.0, 1.0, -2.0, 0.5, 3.0])
            v = int(v) if rs.rand() < .2 else float(v)
            if np.dtype(d["dtype"]).kind == "c" and rs.rand() < .4:
                v = v + 1j * float(rs.choice([1.0, -.5]))
            p[k] = v
    return p


def want(d, p):
    return sum((p.get(k, 1.0) * total(d, k) for k in d["comp"]), np.zeros((d["n"],) * 2, complex))


def live(Q, p):
    """parameters whose component did not vanish (components that are zero are dropped)"""
    return {k: v for k, v in p.items() if k in Q._quantum_operator}


def dense(M):
    return np.asarray(M.toarray() if sp.issparse(M) else M)


def shot(Q):
    return {k: dense(M).copy() for k, M in Q._quantum_operator.items()}


def unchanged(a, Q, what):
    b = shot(Q)
    if set(a) != set(b) or any(not np.array_equal(a[k], b[k]) for k in a):
        raise Bad(f"{what}: the operand was changed")


def close(x, e, tl, what):
    x = np.asarray(x)
    if x.shape != np.shape(e):
        raise Bad(f"{what}: shape {x.shape}, expected {np.shape(e)}")
    if not np.allclose(x, e, rtol=tl, atol=tl * max(1.0, np.abs(e).max() if np.size(e) else 1.0)):
        raise Bad(f"{what}: off by {np.abs(x - e).max():.3g}")


def text(d, p):
    return f"n={d['n']} {d['dtype']} {d['fmt']} pars={p}"


def check(Q, d, rs, what, times=2):
    """Q evaluates to the described operator for several parameters"""
    w = 0
    for i in range(times):
        p = params(rs, d) if i else {}
        E, tl = want(d, p), opers.tol(d["dtype"], Q.dtype) * 10
        p = live(Q, p)
        close(Q.toarray(pars=dict(p)), E, tl, f"{what}: toarray(pars={p})")
        close(Q.tocsr(pars=dict(p)).toarray(), E, tl, f"{what}: tocsr(pars={p})")
        v = rs.randint(-3, 4, size=(d["n"], 3)).astype(Q.dtype)
        close(Q.dot(v, pars=dict(p)), E @ v, tl, f"{what}: dot(pars={p})")
        close(Q.dot(v[:, 0], pars=dict(p)), E @ v[:, 0], tl, f"{what}: dot of a vector (pars={p})")
        w += np.abs(E).max() > 0
    return w


def case_form(op, seed):
    rs = np.random.RandomState(seed)
    d = describe(rs)
    Q, _ = build(d)
    p = live(Q, params(rs, d))
    E, tl, what = want(d, p), opers.tol(d["dtype"]) * 10, f"{op} of ({text(d, p)})"
    before = shot(Q)
    if op == "call":
        r = Q(**p)
        if sp.issparse(r) == Q.is_dense and Q._quantum_operator:
            raise Bad(f"{what}: sparse result {sp.issparse(r)} for is_dense={Q.is_dense}")
        r = dense(r)
    elif op.endswith("_out"):
        out = np.asmatrix(np.zeros(E.shape, d["dtype"])) if op.startswith("todense") and rs.rand() < .5 else np.zeros(E.shape, d["dtype"])
        r = getattr(Q, op[:-4])(pars=dict(p), out=out)
        close(out, E, tl, what + " (the given array)")
    else:
        r = dense(getattr(Q, op)(pars=dict(p)))
    close(r, E, tl, what)
    unchanged(before, Q, what)
    r = np.asarray(r)
    r[...] = 77
    unchanged(before, Q, what + " (after writing into the result)")
    return np.abs(E).max() > 0


def vector(rs, n, t, kind):
    shape = {"v": (n,), "c": (n, 1), "m": (n, 3), "s": (n, n)}[kind]
    v = rs.randint(-3, 4, size=shape).astype(t)
    if np.dtype(t).kind == "c":
        v = v + np.asarray(1j * rs.randint(-3, 4, size=shape)).astype(t)
    lay = rs.randint(4)
    if lay == 1:
        v = np.asfortranarray(v)
    elif lay == 2:
        b = np.zeros((2 * n,) + shape[1:], t)
        b[::2] = v
        v = b[::2]
    elif lay == 3 and v.ndim == 2:
        v = np.ascontiguousarray(v.T).T
    return v


def case_action(op, seed):
    rs = np.random.RandomState(seed)
    d = describe(rs, herm=op in ("fluct", "eig"))
    Q, _ = build(d)
    n = d["n"]
    p = live(Q, params(rs, d))
    if op in ("fluct", "eig"):
        p = {k: float(np.real(v)) for k, v in p.items()}
    full = {k: v for k, v in p.items()}
    E, tl = want(d, full), opers.tol(d["dtype"]) * 30
    t = str(rs.choice(["d", "D"])) if d["dtype"] in "dD" else str(rs.choice(["f", "F"]))
    kind = str(rs.choice(["v", "c", "m", "s"]))
    V = vector(rs, n, t, kind)
    V0 = V.copy()
    rt = np.result_type(d["dtype"], t)
    what = f"{op} ({kind}, {t}, strides {V.strides}) of ({text(d, p)})"
    before = shot(Q)
    a = [1.0, -2.0, 0.5][rs.randint(3)]
    w = 1
    if op in ("dot", "rdot"):
        mode = rs.randint(3)
        x = V if op == "dot" else V.T
        e = a * (E @ V) if op == "dot" else a * (V.T @ E)
        f = getattr(Q, op)
        if mode == 0:
            close(f(x, pars=dict(p), a=a), e, tl, what)
        else:
            out = rs.randint(-3, 4, size=x.shape).astype(rt)
            if rs.rand() < .3:
                out = np.asfortranarray(out)
            e = e + (out if mode == 2 else 0)
            r = f(x, pars=dict(p), a=a, out=out, overwrite_out=mode == 1)
            close(r, e, tl, what + f" out mode {mode}")
            close(out, e, tl, what + f" out mode {mode} (the given array)")
    elif op in ("matvec", "matmat") and V.ndim != 1 + (op == "matmat"):
        raise Skip()
    elif op == "matvec":
        close(Q.matvec(V), want(d, {}) @ V, tl, what)
    elif op == "matmat":
        close(Q.matmat(V), want(d, {}) @ V, tl, what)
    elif op == "rmatvec":
        close(Q.rmatvec(V), want(d, {}).conj().T @ V, tl, what)
    elif op == "sparse_dot":
        if V.ndim == 1:
            raise Skip()
        r = Q.dot(sp.csr_matrix(V) if rs.rand() < .5 else sp.csc_matrix(V), pars=dict(p), a=a)
        close(dense(r), a * (E @ V), tl, what)
    elif op in ("expt", "fluct"):
        pure = bool(rs.rand() < .4) if kind != "v" else False
        f = Q.expt_value if op == "expt" else Q.quant_fluct
        r = np.asarray(f(V, pars=dict(p), enforce_pure=pure))
        if V.ndim == 1 or (V.shape[0] != V.shape[1] or pure):
            q = lambda A: np.einsum("i...,i...->...", V.conj(), A @ V)
        else:
            q = lambda A: np.trace(A @ V)
        e = q(E) if op == "expt" else q(E @ E) - q(E) ** 2
        close(np.ravel(r), np.ravel(e), tl * 30, what + f" enforce_pure={pure}")
    elif op in ("ele", "ele_diag"):
        L = vector(rs, n, t, kind)
        if op == "ele_diag" and V.ndim == 1:
            raise Skip()
        form = rs.randint(4) if V.ndim == 2 else 0
        sl, sr = [(0, 0), (0, 0), (1, 1), (1, 0)][form]     # sparse vectors; a sparse left factor alone only without diagonal
        if sl and not sr and op == "ele_diag":
            sr = 1
        mk = [sp.csr_matrix, sp.csc_matrix][rs.randint(2)]
        r = Q.matrix_ele(mk(L) if sl else L, mk(V) if sr else V, pars=dict(p), diagonal=op == "ele_diag")
        e = L.conj().T @ (E @ V)
        close(dense(r), np.diag(e) if op == "ele_diag" else e, tl * 10, what + f" sparse {sl, sr}")
    elif op == "trace":
        close(Q.trace(pars=dict(p)), np.trace(E), tl, what)
    elif op == "diagonal":
        close(Q.diagonal(pars=dict(p)), np.diag(E), tl, what)
    elif op == "linop":
        L = Q.aslinearoperator(pars=dict(p))
        close(L.matvec(V0) if V.ndim == 1 else L.matmat(V0), E @ V, tl, what)
        x = V0[:, 0] if V.ndim == 2 else V0
        close(L.rmatvec(x), E.conj().T @ x, tl, what + " rmatvec")
        q = {k: 2.5 for k in p}
        Q.toarray(pars=q)
        close(L.matvec(x), E @ x, tl, what + " after other uses")
    elif op == "eig":
        close(Q.eigvalsh(pars=dict(p)), np.linalg.eigvalsh(E), 1e-3 if d["dtype"] in "fF" else 1e-8, what)
        e, U = Q.eigh(pars=dict(p))
        close(np.asarray(U) * e @ np.asarray(U).conj().T, E, 1e-3 if d["dtype"] in "fF" else 1e-8, what)
    unchanged(before, Q, what)
    if not np.array_equal(V, V0):
        raise Bad(f"{what}: the state was changed")
    return w


def mapped(d, f, dtype=None):
    return dict(d, comp={k: [f(total(d, k))] for k in d["comp"]}, dtype=dtype or d["dtype"])


def case_algebra(op, seed):
    rs = np.random.RandomState(seed)
    d = describe(rs)
    Q, src = build(d)
    before = shot(Q)
    what = f"{op} of ({text(d, {})})"
    others = []
    inplace = op[0] == "i" or op == "formats"
    fresh = True
    if op in ("T", "transpose_copy"):
        R = Q.T if op == "T" else Q.transpose(copy=True)
        e, fresh = mapped(d, lambda M: M.T), op != "T"
    elif op == "conj":
        R = Q.conj()
        e = mapped(d, lambda M: M.conj())
        fresh = False
    elif op in ("H", "getH_copy"):
        R = Q.H if op == "H" else Q.getH(copy=True)
        e, fresh = mapped(d, lambda M: M.conj().T), op != "H"
    elif op == "copy":
        R, e = Q.copy(), d
    elif op == "astype":
        t = str(rs.choice([x for x in "dDF" if np.can_cast(d["dtype"], x, "same_kind")]))
        R, e = Q.astype(np.dtype(t).type, copy=True), dict(d, dtype=t)
        if np.dtype(R.dtype) != np.dtype(t):
            raise Bad(f"{what}: dtype {R.dtype} after astype({t})")
    elif op == "neg":
        R, e = -Q, mapped(d, lambda M: -M)
    elif op in ("add", "sub", "iadd", "isub"):
        d2 = describe(rs, n=d["n"], dtype=d["dtype"] if inplace else None)
        P, _ = build(d2)
        b2 = shot(P)
        s = 1 if op.endswith("add") else -1
        what += f" and ({text(d2, {})})"
        comp = {k: [total(d, k) if k in d["comp"] else 0 * total(d2, k)] for k in set(d["comp"]) | set(d2["comp"])}
        for k in d2["comp"]:
            comp[k].append(s * total(d2, k))
        e = dict(d, comp=comp, dtype=str(np.result_type(d["dtype"], d2["dtype"]).char))
        if op == "add":
            R = Q + P
        elif op == "sub":
            R = Q - P
        else:
            R = Q
            if s > 0:
                R += P
            else:
                R -= P
        unchanged(b2, P, what)
        others.append((P, b2))
    elif op in ("mul", "rmul", "imul", "div", "idiv"):
        c = [2, -0.5, 3.0, np.float64(1.5)][rs.randint(4)]
        if np.dtype(d["dtype"]).kind == "c" and rs.rand() < .4:
            c = 1.0 + 2.0j
        if op == "mul":
            R = Q * c
        elif op == "rmul":
            R = c * Q
        elif op == "div":
            R = Q / c
        else:
            R = Q
            if op == "imul":
                R *= c
            else:
                R /= c
        e = mapped(d, lambda M: M * c if "mul" in op else M / c)
        what += f" by {c!r}"
    elif op == "formats":
        f = {k: str(rs.choice(opers.FMTS)) for k in Q._quantum_operator}
        Q.update_matrix_formats(f)
        R, e = Q, d
        for k, v in f.items():
            M = R.get_operators(k)
            if (M.format if sp.issparse(M) else "dense") != v and sp.issparse(opers.fmt(np.eye(2), d["fmt"][k])):
                raise Bad(f"{what}: component {k} is not stored as {v}")
    elif op.startswith("tohamiltonian"):
        p = live(Q, params(rs, d))
        fn = {}
        if op.endswith("_f"):
            for k in list(Q._quantum_operator):
                if rs.rand() < .6:
                    f, a = opers.REAL[rs.randint(len(opers.REAL))]
                    p[k], fn[k] = (f, a), (f, a)
        H = Q.tohamiltonian(pars=dict(p))
        tl = opers.tol(d["dtype"]) * 10

        def R(t):
            q = {k: (v[0](t, *v[1]) if isinstance(v, tuple) else v) for k, v in p.items()}
            return want(d, q)
        m = opers.same(H, R, tl)
        if m:
            raise Bad(f"{what} pars={p}: {m}")
        unchanged(before, Q, what)
        H *= 3.0
        unchanged(before, Q, what + " after an in-place change of the hamiltonian")
        return 1
    elif op == "zip":
        from quspin.operators import save_zip, load_zip
        if not Q._quantum_operator:
            raise Skip()
        with tempfile.TemporaryDirectory() as td:
            f = os.path.join(td, "op.zip")
            save_zip(f, Q)
            R = load_zip(f)
        e = d
        if set(R._quantum_operator) != set(Q._quantum_operator):
            raise Bad(f"{what}: components {set(R._quantum_operator)}")
    w = check(R, e, rs, what)
    if not inplace:
        unchanged(before, Q, what)
        if fresh:
            for k in R._quantum_operator:
                M = R._quantum_operator[k]
                (M.data if sp.issparse(M) else M)[...] = 55
            unchanged(before, Q, what + " (after writing into the result)")
    for P, b2 in others:
        R *= 2.0
        unchanged(b2, P, what + " (after changing the result in place)")
    return w


def case_misc(op, seed):
    from quspin.operators import quantum_operator
    from quspin.basis import spin_basis_1d
    rs = np.random.RandomState(seed)
    d = describe(rs)
    if op == "unknown":
        Q, _ = build(d)
        v = np.zeros(d["n"], d["dtype"])
        for f in (Q.toarray, Q.tocsr, Q.trace, Q.diagonal, lambda pars: Q.dot(v, pars=pars), lambda pars: Q.tohamiltonian(pars=pars),
                  lambda pars: Q.expt_value(v, pars=pars), lambda pars: Q(**pars)):
            try:
                f(pars={"nope": 1.0})
            except ValueError:
                continue
            except TypeError:
                if f is None:
                    raise
                continue
            raise Bad(f"an unknown parameter was accepted by {getattr(f, '__name__', f)} ({text(d, {})})")
    elif op == "pars_kept":
        Q, _ = build(d)
        p = live(Q, params(rs, d))
        q = dict(p)
        v = np.ones(d["n"], d["dtype"])
        for f in (Q.toarray, Q.tocsr, Q.tocsc, Q.trace, Q.diagonal, lambda pars: Q.dot(v, pars=pars), Q.tohamiltonian, Q.aslinearoperator):
            f(pars=q)
            if q != p:
                raise Bad(f"the caller's parameters {p} were changed to {q} ({text(d, {})})")
    elif op == "defaults":
        a, b = describe(rs), None
        b = describe(rs, keys=["only_b"])
        A, _ = build(a)
        B, _ = build(b)
        for f in ("toarray", "trace", "diagonal", "tocsr", "todense", "tohamiltonian"):
            getattr(A, f)()
            getattr(B, f)()
        v = np.ones(a["n"], a["dtype"])
        A.dot(v), A.expt_value(v)
        check(B, b, rs, f"operator ({text(b, {})}) used after another one with default parameters")
        check(A, a, rs, f"operator ({text(a, {})}) used after another one with default parameters")
    elif op == "inputs_kept":
        Q, src = build(d)
        keep = {k: [dense(M).copy() for M in Ms] for k, Ms in src.items()}
        for k in Q._quantum_operator:
            if any(not np.array_equal(dense(M), x) for M, x in zip(src[k], keep[k])):
                raise Bad(f"the constructor changed the caller's matrices ({text(d, {})})")
        Q *= 2.0
        for k in src:
            if any(not np.array_equal(dense(M), x) for M, x in zip(src[k], keep[k])):
                raise Bad(f"copy=True: changing the operator in place changed the caller's matrices ({text(d, {})})")
    else:
        N = int(rs.choice([1, 2, 3]))
        basis = spin_basis_1d(N)
        J, h, k = [float(x) for x in rs.choice([1.0, -2.0, 0.5], size=3)]
        X, Z = np.array([[0, 1], [1, 0]]), np.array([[1, 0], [0, -1]])

        def site(M, i):
            return np.kron(np.kron(np.eye(2 ** i), M), np.eye(2 ** (N - 1 - i)))
        zz = [[J, i, (i + 1) % N] for i in range(N)] if N > 1 else []
        x = [[h, i] for i in range(N)]
        MZ = sum((J * site(Z, i) @ site(Z, (i + 1) % N) for i in range(N) if N > 1), np.zeros((2 ** N,) * 2))
        MX = sum(h * site(X, i) for i in range(N))
        n = 2 ** N
        e = dict(n=n, dtype="D", comp={"J": [MZ.astype("D")], "h": [MX.astype("D")]}, fmt={})
        src = {"J": [["zz", zz]], "h": [["x", x]]}
        if op == "mixed":
            M = opers.mat(rs, n, "D", herm=True)
            src["h"] = [["x", x], M] if rs.rand() < .5 else [M, ["x", x]]
            e["comp"]["h"].append(M)
            if rs.rand() < .5:
                M2 = sp.csr_matrix(opers.mat(rs, n, "D"))
                src["h"].append(M2)
                e["comp"]["h"].append(M2.toarray())
        Q = quantum_operator(src, basis=basis, check_herm=False, check_symm=False, check_pcon=False)
        what = f"quantum_operator(N={N}, {op}, J={J}, h={h})"
        w = check(Q, e, rs, what)
        if op == "two_ops":
            P = quantum_operator({"k": [["z", [[k, 0]]]]}, basis=basis, check_herm=False, check_symm=False, check_pcon=False)
            e2 = dict(n=n, dtype="D", comp=dict(e["comp"], k=[k * site(Z, 0).astype("D")]), fmt={})
            w = check(Q + P, e2, rs, what + " sum")
            check(Q, e, rs, what + " after the sum")
        return w
    return 1
