"""C19 bounded part: Lanczos, thermal averages, diagonal ensemble, observables in time and Floquet routines against their defining expressions."""
import random, warnings
import numpy as np, scipy.linalg as la, scipy.sparse as sp, scipy.sparse.linalg as sla
from bounded import sec, c14
from bounded.harness import Bad, Skip, note

warnings.filterwarnings("ignore")
RULE = "a case is (routine, operator, its representation, states, options); non-trivial when the space has at least two dimensions"


def cases(tier, rng):
    k = 1 if tier == "quick" else 6
    out = []
    for i in range(300 * k):
        out.append(dict(name=rng.choice(["lanczos", "lanczos", "krylov", "thermal"]), n=rng.choice([2, 3, 5, 8, 14, 25]), A=rng.choice(REP), dt=rng.choice("dDdDfF"),
                        m=rng.randint(1, 9), dim=rng.choice([0, 0, 0, 1, 2, 3, 4]), ortho=rng.random() < .4, scale=rng.choice([1, 1, 30, .01]), seed=rng.randrange(1 << 30)))
    for i in range(120 * k):
        out.append(dict(name="diag", n=rng.choice([2, 3, 6, 10]), state=rng.choice(["pure", "pure", "dm", "thermal", "mixed"]), cplx=rng.random() < .5,
                        obs=rng.choice(["array", "ham", "sparse"]), seed=rng.randrange(1 << 30)))
        out.append(dict(name="obs", n=rng.choice([2, 3, 4, 6]), state=rng.choice(["ed", "ed_dm", "array", "many", "gen", "gen_many", "gen_dm", "dm"]),
                        seed=rng.randrange(1 << 30)))
    ds = [d for d in sec.descriptions(tier, rng) if d["kind"] != "spinful" and 2 <= d["N"] and c14.full_dim(d) <= 100 and not sec.finding_key(d)]
    for d in rng.sample(ds, min(len(ds), 120 * k)):
        out.append(dict(name=rng.choice(["entropy", "srdm", "sent_time"]), d=d, seed=rng.randrange(1 << 30)))
    for i in range(40 * k):
        out.append(dict(name="floquet", n=rng.choice([1, 2, 3, 5]), how=rng.choice(["cont", "steps", "list"]), degenerate=rng.random() < .4, seed=rng.randrange(1 << 30)))
        out.append(dict(name="tvec", seed=rng.randrange(1 << 30)))
        out.append(dict(name="misc", seed=rng.randrange(1 << 30)))
    return out


REP = ("array", "array", "csr", "csc", "hamiltonian", "hamdense", "operator", "linop", "qlinop")


def eps(dt):
    return {"f": 5e-4, "F": 5e-4, "d": 1e-9, "D": 1e-9}[dt]


def hermitian(rs, n, cplx):
    M = rs.normal(size=(n, n)) + (1j * rs.normal(size=(n, n)) if cplx else 0)
    return (M + M.conj().T) / 2


def vector(rs, n, cplx):
    return rs.normal(size=n) + (1j * rs.normal(size=n) if cplx else 0)


def represent(M, how):
    from quspin.operators import hamiltonian, quantum_operator
    if how in ("csr", "csc"):
        return getattr(sp, how + "_matrix")(M)
    if how in ("hamiltonian", "hamdense"):
        return hamiltonian([sp.csr_matrix(M) if how == "hamiltonian" else M], [], dtype=M.dtype)
    if how == "operator":
        return quantum_operator({"a": [M]}, dtype=M.dtype)
    if how == "linop":
        return sla.aslinearoperator(M)
    if how == "qlinop":
        from quspin.operators import quantum_LinearOperator
        from quspin.basis import boson_basis_1d
        n = M.shape[0]
        return quantum_LinearOperator([["n", [[1.0, 0]]]], basis=boson_basis_1d(1, sps=n), dtype=M.dtype)
    return M


def check(what, got, want, tol, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad(f"{what}: shape {got.shape} instead of {want.shape}")
    if not np.isfinite(got).all():
        raise Bad(f"{what}: not finite")
    if want.size:
        e = np.abs(got - want).max()
        s = np.abs(want).max() + 1 if scale is None else scale
        if not e <= tol * s:
            raise Bad(f"{what}: off by {e:.2e} (scale {s:.2e})")


class Problem:
    def __init__(self, n, A, dt, m, dim, scale, seed, **kw):
        self.rs = rs = np.random.RandomState(seed)
        self.rng = random.Random(seed)
        self.dt, self.n = np.dtype(dt), n
        c = self.dt.kind == "c"
        if A == "qlinop":
            self.A = represent(np.zeros((n, n), self.dt), A)
            self.M = np.asarray(self.A.dot(np.eye(n, dtype=self.dt)))
            self.E, W = np.diag(self.M).real.copy(), np.eye(n)
        else:
            H = hermitian(rs, n, c)
            E, W = la.eigh(H)
            E = (np.arange(n) + rs.uniform(-.3, .3, size=n)) * scale * rs.choice([-1, 1]) + scale * rs.choice([0, .4])    # well separated
            self.E = E
            self.M = ((W * E) @ W.conj().T).astype(self.dt)
            self.M = (self.M + self.M.conj().T) / 2
            self.A = represent(self.M, A)
        self.norm = np.abs(self.E).max() + 1e-300
        self.gap = scale if A != "qlinop" else 1
        cv = c or rs.rand() < .3
        if dim:                                          # an invariant subspace of this dimension
            dim = min(dim, n)
            pick = rs.choice(n, dim, replace=False)
            v = W[:, pick] @ (vector(rs, dim, cv) + 2)
        else:
            v = vector(rs, n, cv)
        if self.rng.random() < .5:
            v = v / np.linalg.norm(v)
        else:
            v = v * self.rng.choice([1.0004, 3.0, .01])
        self.dim = dim
        vd = self.dt if cv == c or self.dt.char in "D" else np.result_type(self.dt, np.complex64)
        self.v = v.astype(vd)
        self.tol = eps(np.dtype(np.result_type(self.dt, vd)).char)
        self.m = min(m, n - 1)


def tri(E, V):
    return (V * E) @ V.T


def case_lanczos(ortho, **kw):
    from quspin.tools.lanczos import lanczos_full, lanczos_iter, lin_comb_Q_T
    p = Problem(**kw)
    if p.m < 1:
        raise Skip()
    if kw["A"] == "qlinop" and p.n > 12:
        raise Skip()
    v0, M0 = p.v.copy(), p.M.copy()
    cut = 2e-5 * p.gap if p.tol < 1e-6 else 2e-2 * p.gap
    opts = dict(eps=cut)
    if p.rng.random() < .3 and not p.dim:
        opts = {}
    dt = np.result_type(p.dt, p.v.dtype)
    o = None
    if p.rng.random() < .3:
        o = np.full((p.m, p.n), 7, dtype=dt)
        opts["out"] = o
    E, V, Q = lanczos_full(p.A, p.v, p.m, full_ortho=ortho, **opts)
    opts.pop("out", 0)
    k = Q.shape[0]
    info = f"lanczos_full({kw}, ortho={ortho}, {list(opts)})"
    if (p.v != v0).any() or (p.M != M0).any():
        raise Bad(info + ": arguments changed")
    if o is not None and not np.shares_memory(o, Q):
        raise Bad(info + ": the vectors are not in 'out'")
    want = min(p.m, p.dim) if p.dim else p.m
    if "eps" in opts and p.dim and k != want:
        raise Bad(f"{info}: {k} vectors for a Krylov space of dimension {p.dim}")
    if E.shape != (k,) or V.shape != (k, k) or Q.shape != (k, p.n) or k > p.m or (not p.dim and k != want and "eps" not in opts):
        raise Bad(f"{info}: shapes {E.shape} {V.shape} {Q.shape}")
    if V.dtype.kind != "f" or E.dtype.kind != "f" or Q.dtype != dt:
        raise Bad(f"{info}: dtypes {V.dtype} {E.dtype} {Q.dtype}")
    if (np.diff(E) < 0).any():
        raise Bad(info + ": eigenvalues are not in order")
    t = p.tol * (300 if p.tol > 1e-6 else 1e3) if not ortho else p.tol * 100
    check(info + ": Q[0]", Q[0], v0 / np.linalg.norm(v0), p.tol * 10)
    check(info + ": Q orthonormal", Q.conj() @ Q.T, np.eye(k), t)
    T = tri(E, V)
    check(info + ": V", V.T @ V, np.eye(k), p.tol * 10)
    check(info + ": T = Q* A Q^T", Q.conj() @ p.M @ Q.T / p.norm, T / p.norm, t)
    if not ortho:
        T3 = np.triu(np.tril(T, 1), -1)
        check(info + ": tridiagonal", T / p.norm, T3 / p.norm, p.tol * 100)
        R = p.M @ Q.T - Q.T @ T3.astype(Q.dtype)                       # residual only in the last column
        check(info + ": A Q = Q T", R[:, :-1] / p.norm, 0 * R[:, :-1], t)
        if p.dim and p.m >= p.dim and "eps" in opts:
            check(info + ": exhausted", R[:, -1] / p.norm, 0 * R[:, -1], max(t, cut / p.norm * 10))
    # iterator version
    cv, cA = p.rng.random() < .5, p.rng.random() < .3 and kw["A"] in ("array", "csr", "csc")
    vv, AA = v0.copy(), p.A.copy() if cA else p.A
    E2, V2, I = lanczos_iter(AA, vv, p.m, copy_v0=cv, copy_A=cA, **opts)
    E2 = E2.copy()
    if cv:
        vv[:] = 5
    if cA:
        AA *= 0
    Q2 = np.array([q.copy() for q in I])
    Q3 = np.array([q.copy() for q in iter(I)])
    if (Q2 != Q3).any():
        raise Bad(info + ": the iterator of lanczos_iter does not repeat")
    if Q2.shape != (len(E2), p.n):
        raise Bad(f"{info}: lanczos_iter: {Q2.shape} vectors for {len(E2)} eigenvalues")
    if len(E2) == k:
        check(info + ": lanczos_iter vectors", Q2, Q, t if not ortho else t * 10)
        check(info + ": lanczos_iter E", E2 / p.norm, E / p.norm, t)
    elif not (p.dim and "eps" not in opts):
        raise Bad(f"{info}: lanczos_iter stops at {len(E2)}, lanczos_full at {k}")
    check(info + ": lanczos_iter T", Q2.conj() @ p.M @ Q2.T / p.norm, tri(E2, V2) / p.norm, p.tol * 1e3)
    E3, V3 = lanczos_iter(p.A, v0.copy(), p.m, return_vec_iter=False, **opts)
    check(info + ": lanczos_iter without vectors", E3 / p.norm, E2 / p.norm, p.tol)
    # combinations
    c = vector(p.rs, k, p.rng.random() < .5)
    form = p.rng.choice(["array", "list", "gen", "lanczos", "F"])
    QQ = {"array": Q, "list": list(Q), "gen": (q for q in Q), "lanczos": I if len(E2) == k else Q, "F": np.asfortranarray(Q)}[form]
    cc = list(c) if p.rng.random() < .2 else c
    o = None
    if p.rng.random() < .3:
        o = np.full(p.n, 3, dtype=np.result_type(Q.dtype, np.asarray(cc).dtype))
    r = lin_comb_Q_T(cc, QQ, out=o)
    if o is not None and r is not o:
        raise Bad("lin_comb_Q_T does not use 'out'")
    check(f"{info}: lin_comb_Q_T of {form}", r, c @ (Q2 if form == "lanczos" and len(E2) == k else Q), p.tol * 10)
    return k > 1


def case_krylov(ortho, **kw):
    """exp(aA) v0 exactly, in an invariant subspace; by its definition otherwise"""
    from quspin.tools.lanczos import lanczos_full, lanczos_iter, expm_lanczos
    p = Problem(**kw)
    if p.m < 1:
        raise Skip()
    if p.dim:
        p.m = min(p.n - 1, p.dim + p.rng.choice([0, 2]))
        if p.dim > p.m:
            raise Skip()
    cut = 2e-5 * p.gap if p.tol < 1e-6 else 2e-2 * p.gap
    full = p.rng.random() < .6
    if full:
        E, V, Q = lanczos_full(p.A, p.v, p.m, full_ortho=ortho, eps=cut)
        Qs = Q
    else:
        E, V, Q = lanczos_iter(p.A, p.v, p.m, eps=cut)
        Qs = np.array([q.copy() for q in Q])
    a = p.rng.choice([1.0, -1.0, -.4j, .3 + .2j]) / p.norm * p.rng.choice([.3, 1, 2])
    if p.rng.random() < .2:
        a = 0.0
    kwo = {}
    if p.rng.random() < .3:
        kwo["out"] = np.full(p.n, 9, dtype=np.result_type(Qs.dtype, np.asarray(np.exp(a * E)).dtype))
    got = expm_lanczos(E, V, Q, a=a, **kwo)
    if kwo and got is not kwo["out"]:
        raise Bad("expm_lanczos does not use 'out'")
    info = f"expm_lanczos({kw}, ortho={ortho}, full={full}, a={a})"
    w = Qs.T @ (la.expm(a * tri(E, V)) @ np.eye(len(E))[:, 0])
    check(info + " by definition", got, w, p.tol * 100)
    if p.dim:
        w = la.expm(a * p.M) @ (p.v / np.linalg.norm(p.v))
        check(info, got, w, p.tol * 1e3)
    return True


def case_thermal(ortho, **kw):
    from quspin.tools.lanczos import lanczos_full, lanczos_iter, FTLM_static_iteration, LTLM_static_iteration
    p = Problem(**kw)
    if p.m < 1:
        raise Skip()
    cut = 2e-5 * p.gap if p.tol < 1e-6 else 2e-2 * p.gap
    if p.dim and p.dim < p.n:
        p.m = min(p.n - 1, max(p.m, p.dim))
    full = p.rng.random() < .5
    if full:
        E, V, Q = lanczos_full(p.A, p.v, p.m, full_ortho=ortho, eps=cut)
        Qs = Q
    else:
        E, V, Q = lanczos_iter(p.A, p.v, p.m, eps=cut)
        Qs = np.array([q.copy() for q in Q])
    form = p.rng.choice(["as", "iterator", "generator", "list"])
    give = {"as": lambda: Q, "iterator": lambda: iter(Q), "generator": lambda: (q for q in Q), "list": lambda: list(Qs)}[form]
    ops, mats = {}, {}
    for i in range(p.rng.choice([1, 2, 3])):
        c = p.rng.random() < .5
        O = hermitian(p.rs, p.n, c)
        if p.rng.random() < .3:
            O = O + vector(p.rs, p.n, c)[:, None] * np.ones(p.n)
        mats[i] = O
        ops[i] = represent(O, p.rng.choice(["array", "csr", "linop"])) if not np.allclose(O, O.conj().T) else represent(O, p.rng.choice(["array", "csr", "hamiltonian", "linop"]))
    shape = p.rng.choice([(), (1,), (3,), (2, 3), (1, 2)])
    beta = p.rs.uniform(0, p.rng.choice([2, 12]), size=shape) / p.norm
    barg = float(beta) if shape == () else (beta.tolist() if p.rng.random() < .3 else beta)
    r = (p.v / np.linalg.norm(p.v)).astype(complex)
    for name, fn in (("FTLM", FTLM_static_iteration), ("LTLM", LTLM_static_iteration)):
        R, I = fn(dict(ops), E, V, give(), beta=barg)
        info = f"{name}({kw}, ortho={ortho}, {'full' if full else 'iter'} {form}, beta {shape} up to {np.max(beta) * p.norm:.2f})"
        if set(R) != set(ops):
            raise Bad(f"{info}: keys {sorted(R)} instead of {sorted(ops)}")
        want, wI, exact, eI, s = {i: np.zeros(shape, complex) for i in ops}, np.zeros(shape), {i: np.zeros(shape, complex) for i in ops}, np.zeros(shape), 0
        T = tri(E, V)
        for ix in np.ndindex(*shape):
            b = beta[ix]
            for tgt, tI, ex in ((want, wI, lambda x: la.expm(-x * T)), (exact, eI, None)):
                if ex is not None:
                    f = lambda x: Qs.T @ la.expm(-x * T) @ np.eye(len(E))[:, 0]
                else:
                    f = lambda x: la.expm(-x * p.M) @ r
                s = max(s, np.exp(-b * p.E.min()), np.exp(-b * p.E.max()))
                tI[ix] = np.vdot(r, f(b)).real
                for i, O in mats.items():
                    tgt[i][ix] = np.vdot(f(b), O @ r) if name == "FTLM" else np.vdot(f(b / 2), O @ f(b / 2))
        s *= max(np.abs(O).max() for O in mats.values()) * p.n
        for i in ops:
            check(f"{info}: operator {i}", R[i], want[i], p.tol * 100, s)
            if p.dim and p.dim <= p.m:
                check(f"{info}: operator {i}, exact", R[i], exact[i], p.tol * 1e3, s)
        check(info + ": identity", I, wI, p.tol * 100, s)
        if p.dim and p.dim <= p.m:
            check(info + ": identity, exact", I, eI, p.tol * 1e3, s)
    return True


def renyi(p, alpha):
    p = np.asarray(p, dtype=float)
    p = p[p > 1e-14]
    return -(p * np.log(p)).sum() if alpha == 1.0 else np.log((p ** alpha).sum()) / (1 - alpha)


def case_diag(n, state, cplx, obs, seed):
    from quspin.tools.measurements import diag_ensemble
    rs, rng = np.random.RandomState(seed), random.Random(seed)
    E2, V2 = la.eigh(hermitian(rs, n, cplx))
    if np.diff(E2).min() < 1e-6:
        raise Skip()
    O = hermitian(rs, n, cplx and rng.random() < .7)
    if rng.random() < .15:
        O = np.round(O.real * 4)
        if obs == "array" and rng.random() < .5:
            O = O.astype(int)
    if rng.random() < .1:
        O = (V2 * rs.normal(size=n)) @ V2.conj().T                          # diagonal in V2: no fluctuations in time
    if V2.dtype.kind == "c" and rng.random() < .5:
        V2 = V2 * np.exp(2j * np.pi * rs.rand(n))                        # phases of eigenvectors are arbitrary
    Oarg = represent(O if obs != "ham" else O.astype(np.result_type(O, float)), {"array": "array", "ham": "hamiltonian", "sparse": "csr"}[obs])
    alpha = rng.choice([1.0, 1.0, 2.0, 3.0, .5])
    density, N = rng.random() < .5, rng.choice([1, 3, 7])
    dq, dt = rng.random() < .5, rng.random() < .5
    od = rs.permutation(n) if rng.random() < .2 else np.arange(n)
    E2, V2 = E2[od], V2[:, od]
    kw = dict(E2=E2, V2=V2, density=density, alpha=alpha, rho_d=rng.random() < .7, Obs=Oarg, delta_t_Obs=dt, delta_q_Obs=dq, Sd_Renyi=rng.random() < .6)
    D = abs(V2.conj().T @ O @ V2) ** 2
    On = np.einsum("in,ij,jn->n", V2.conj(), O, V2).real
    O2 = np.einsum("in,ij,jn->n", V2.conj(), O @ O, V2).real

    def values(p):
        t = p @ (D - np.diag(np.diag(D))) @ p
        q = max(p @ O2 - t - (p @ On) ** 2, 0)
        f = 1 / N if density else 1
        return dict(Obs=p @ On * f, delta_t_Obs=np.sqrt(t) * f, delta_q_Obs=np.sqrt(q) * f, Sd=renyi(p, alpha) * f)
    Vs = V2.copy()
    S = "" if alpha == 1.0 else "_Renyi"
    info = f"diag_ensemble(n={n}, {state}, cplx={cplx}, {obs}, alpha={alpha}, density={density}, dt={dt}, dq={dq}, seed={seed})"
    keys = ["Obs"] + ["delta_t_Obs"] * (dt or dq) + ["delta_q_Obs"] * dq + ["Sd"] * kw["Sd_Renyi"]
    want = {}
    if state == "pure":
        psi = vector(rs, n, cplx)
        psi /= np.linalg.norm(psi)
        if rng.random() < .1:
            psi = V2[:, 0].copy()
        arg = psi
        p = abs(V2.conj().T @ psi) ** 2
        v = values(p)
        want = {k + (S if k == "Sd" else "") + "_pure": v[k] for k in keys}
        rd = p
    elif state == "dm":
        w = np.array([vector(rs, n, cplx) for _ in range(3)]).T
        arg = w @ w.conj().T
        arg = arg / np.trace(arg).real
        p = np.einsum("in,ij,jn->n", V2.conj(), arg, V2).real
        v = values(p)
        want = {k + (S if k == "Sd" else "") + "_DM": v[k] for k in keys if not k.startswith("delta")}   # fluctuations of mixed states: formula stated for pure states only
        rd = p
    else:
        E1, V1 = la.eigh(hermitian(rs, n, cplx))
        beta = rs.uniform(.1, 2, size=rng.choice([1, 2, 4]))
        if rng.random() < .3:
            beta = np.array([1, 2, 3][:len(beta)] * 2)[:len(beta)]
        arg = dict(V1=V1, E1=E1, f_args=[list(beta) if rng.random() < .5 else beta])
        if rng.random() < .2:
            arg["f_args"] = [[int(b) + 1 for b in beta]]
            beta = np.array(arg["f_args"][0])
        f = lambda E, b: np.exp(-b * (E - E[0]))
        if state == "mixed":
            f = rng.choice([lambda E, b: 1 / (1 + b * (E - E[0]) ** 2), lambda E, b: np.exp(-b * (E - E[-1]) ** 2)])
            arg["f"] = f
        if rng.random() < .5:
            arg["f_norm"] = rng.random() < .3
        st = None
        if rng.random() < .5:
            st = [rng.randrange(n) for _ in range(rng.choice([1, 2]))]
            arg["V1_state"] = st
        P = abs(V2.conj().T @ V1) ** 2
        vals = [values(P[:, j]) for j in range(n)]
        W = np.array([f(E1, b) for b in beta]).T
        Z = W.sum(axis=0)
        if arg.get("f_norm", True):
            W = W / Z
        else:
            want["f_norm"] = Z
        for k in keys:
            x = np.array([v[k] for v in vals])
            kk = k + (S if k == "Sd" else "") + "_"
            want[kk + state] = x @ W
            if st is not None:
                want[kk + "V1_state"] = x[st]
        rd = P if st is None else P[:, st]
    got = diag_ensemble(N, arg, **kw)
    if (V2 != Vs).any():
        raise Bad(info + ": V2 changed")
    if kw["rho_d"]:
        want["rho_d"] = rd
    for k, w in want.items():
        if k not in got:
            raise Bad(f"{info}: no key {k}, only {sorted(got)}")
        tol = 1e-6 if "delta" in k or alpha < 1 else 1e-9
        check(f"{info}: {k}", got[k], w, tol)
    extra = {k for k in got if k not in want and not k.startswith("delta")}
    if extra:
        raise Bad(f"{info}: keys {extra} were not asked for")
    return n > 1


def case_obs(n, state, seed):
    from quspin.tools.measurements import obs_vs_time, ED_state_vs_time
    from quspin.operators import hamiltonian
    rs, rng = np.random.RandomState(seed), random.Random(seed)
    cplx = rng.random() < .5
    E, V = la.eigh(hermitian(rs, n, cplx))
    nt = rng.choice([1, 2, n, n, 5])
    times = np.sort(rs.uniform(-1, 4, size=nt))
    if rng.random() < .3:
        times = times[::-1].copy()
    psi = vector(rs, n, cplx)
    psi /= np.linalg.norm(psi)
    rho = np.array([vector(rs, n, True) for _ in range(2)]).T
    rho = rho @ rho.conj().T
    rho /= np.trace(rho).real
    U = lambda t: (V * np.exp(-1j * E * t)) @ V.conj().T
    many = rs.normal(size=(n, rng.choice([2, 3, n]))) + 0j
    many /= np.linalg.norm(many, axis=0)
    pt = np.array([U(t) @ psi for t in times]).T
    rt = np.array([U(t) @ rho @ U(t).conj().T for t in times]).transpose(1, 2, 0)
    mt = np.array([U(t) @ many for t in times]).transpose(1, 2, 0)
    A, B, C = (hermitian(rs, n, i == 1) for i in range(3))
    w = rs.uniform(.5, 2)
    obs = {"ham": hamiltonian([C], [], dtype=np.complex128), "hamt": hamiltonian([A], [[B, f_cos, [w]]], dtype=np.complex128),
           "array": A, "sparse": sp.csr_matrix(B), "list": C.tolist(), "int": np.diag(np.arange(n)).astype(float)}
    mats = {"ham": lambda t: C, "hamt": lambda t: A + f_cos(t, w) * B, "array": lambda t: A, "sparse": lambda t: B, "list": lambda t: C,
            "int": lambda t: np.diag(np.arange(n)).astype(float)}
    pick = rng.sample(sorted(obs), rng.choice([1, 2, 4]))
    obs = {k: obs[k] for k in pick}
    before = dict(obs)
    ret = rng.random() < .5
    kw = dict(return_state=ret)
    info = f"obs_vs_time(n={n}, {state}, {nt} times, {kw}, seed={seed})"
    st, arg = {"ed": (pt, (psi, E, V)), "ed_dm": (rt, (rho, E, V)), "array": (pt, pt), "many": (mt, mt), "dm": (rt, rt),
               "gen": (pt, (x for x in np.moveaxis(pt, -1, 0))), "gen_many": (mt, (x for x in np.moveaxis(mt, -1, 0))),
               "gen_dm": (rt, (x for x in np.moveaxis(rt, -1, 0)))}[state]
    if state in ("many", "gen_many") or (state == "array" and (n == nt or rng.random() < .3)):
        kw["enforce_pure"] = True
    pure = state in ("ed", "array", "gen", "many", "gen_many")
    got = obs_vs_time(arg, times if rng.random() < .8 else list(times), obs, **kw)
    if any(obs[k] is not before[k] for k in before) or set(obs) != set(before):
        raise Bad(info + ": the dictionary of the caller is changed")
    for k in obs:
        if state in ("many", "gen_many"):
            want = np.array([np.einsum("ik,ij,jk->k", mt[..., i].conj(), mats[k](t), mt[..., i]) for i, t in enumerate(times)])
            g = np.asarray(got[k])
            if g.shape != want.shape and g.shape == want.T.shape:
                g = g.T
            elif g.shape == want.shape == want.T.shape and np.abs(g - want).max() > np.abs(g.T - want).max():
                g = g.T
            g = g.reshape(want.shape) if g.size == want.size and 1 in want.shape else g
        else:
            want = np.array([(np.vdot(pt[:, i], mats[k](t) @ pt[:, i]) if pure else np.trace(rt[..., i] @ mats[k](t))) for i, t in enumerate(times)])
            g = np.asarray(got[k]).reshape(-1) if np.size(got[k]) == len(times) else np.asarray(got[k])
        check(f"{info}: {k}", g, want, 1e-9)
    if ret:
        g = np.asarray(got["psi_t"])
        check(f"{info}: psi_t", g.reshape(st.shape) if g.size == st.size and 1 in st.shape else g, st, 1e-9)
    elif set(got) != set(obs):
        raise Bad(f"{info}: keys {sorted(got)}")
    # ED_state_vs_time itself
    x, y = rng.choice([(psi, pt), (rho, rt)])
    check(info + ": ED_state_vs_time", ED_state_vs_time(x, E, V, times), y, 1e-9)
    check(info + ": ED_state_vs_time, iterate", np.moveaxis(np.array([z.copy() for z in ED_state_vs_time(x, E, V, times, iterate=True)]), 0, -1), y, 1e-9)
    return n > 1


def f_cos(t, w):
    return np.cos(w * t)


class Sub:
    """a sector, a subsystem and the reduced density matrices of random states"""
    def __init__(self, d, seed):
        self.rs, self.rng = np.random.RandomState(seed), random.Random(seed)
        self.s = sec.sector(d)
        if self.s.b.Ns == 0:
            raise Skip()
        n, self.sps = d["N"], self.s.S.sps
        self.n = n
        self.A = sorted(self.rng.sample(range(n), self.rng.randint(1, n - 1)))
        self.B = [i for i in range(n) if i not in self.A]

    def lift(self, x):
        out = np.zeros((self.sps ** self.n,) + x.shape[1:], dtype=np.complex128)
        out[self.s.full_index] = self.s.V @ x
        return out

    def rdms(self, psi):
        M = self.lift(psi).reshape((self.sps,) * self.n).transpose(self.A + self.B).reshape(self.sps ** len(self.A), -1)
        return M @ M.conj().T, M.T @ M.conj()


def case_entropy(d, seed):
    """the deprecated function ent_entropy"""
    from quspin.tools.measurements import ent_entropy
    q = Sub(d, seed)
    Ns = q.s.b.Ns
    form = q.rng.choice(["pure", "mixed", "eig", "states"])
    x = q.rs.normal(size=(Ns, 3)) + 1j * q.rs.normal(size=(Ns, 3))
    x /= np.linalg.norm(x, axis=0)
    if form == "pure":
        arg, w = x[:, 0], [(1, x[:, 0])]
    elif form == "states":
        arg, w = {"V_states": x}, None
    else:
        rho = x @ x.conj().T / 3
        e, W = la.eigh(rho)
        e = np.abs(e) / np.abs(e).sum()
        arg, w = rho if form == "mixed" else {"V_rho": W, "rho_d": e}, [(1 / 3, x[:, i]) for i in range(3)]
        if form == "mixed" and Ns == 1:
            raise Skip()
    DM = q.rng.choice([False, "chain_subsys", "other_subsys", "both"])
    sv = [False, q.rng.random() < .3 and form == "pure" and DM in (False, "chain_subsys"), False]
    alpha = q.rng.choice([1.0, 2.0])
    density = q.rng.random() < .5
    got = ent_entropy(arg, q.s.b, chain_subsys=list(q.A), DM=DM, svd_return_vec=sv, alpha=alpha, density=density)
    info = f"ent_entropy({d}, {form}, {q.A}, DM={DM}, alpha={alpha}, density={density}, seed={seed})"
    one = lambda ws: [sum(c * r for c, r in zip([c for c, _ in ws], rs)) for rs in zip(*[q.rdms(v) for _, v in ws])]
    sets = [w] if w is not None else [[(1, x[:, i])] for i in range(3)]
    res = [one(ws) for ws in sets]
    side = 1 if DM == "other_subsys" else 0
    S = np.array([renyi(la.eigvalsh(r[side]), alpha) for r in res]) / ((len(q.B) if side else len(q.A)) if density else 1)
    g = np.asarray(got["Sent"], float)
    check(info + ": Sent", g.reshape(-1), S, 1e-6)
    if DM in ("chain_subsys", "both"):
        check(info + ": DM_chain_subsys", np.asarray(got["DM_chain_subsys"]).reshape((len(res),) + res[0][0].shape), np.array([r[0] for r in res]), 1e-9)
    if DM in ("other_subsys", "both"):
        g = np.asarray(got["DM_other_subsys"]).reshape((len(res),) + res[0][1].shape)
        want = np.array([r[1] for r in res])
        if np.abs(g.conj() - want).max() < 1e-9 < np.abs(g - want).max():
            note("rdm_B_conjugate", info + ": the complex conjugate of the reduced density matrix of subsystem B")
        else:
            check(info + ": DM_other_subsys", g, want, 1e-9)
    if sv[1]:
        lam = np.sort(np.asarray(got["lmbda"]).ravel() ** 2)[::-1]
        e = np.sort(np.abs(la.eigvalsh(res[0][0])))[::-1]
        m = min(len(lam), len(e))
        check(info + ": lmbda", lam[:m], e[:m], 1e-9)
    return Ns > 1


def case_srdm(d, seed):
    from quspin.tools.measurements import diag_ensemble
    q = Sub(d, seed)
    Ns = q.s.b.Ns
    E2, V2 = la.eigh(hermitian(q.rs, Ns, True))
    alpha, density = q.rng.choice([1.0, 2.0]), q.rng.random() < .5
    args = {"basis": q.s.b}
    key = q.rng.choice(["chain_subsys", "sub_sys_A", "default"])
    if Ns == 1:
        raise Skip()
    if key == "default":
        if d["fam"] != "one_d":
            raise Skip()
        q.A = list(range(q.n // 2))
        q.B = [i for i in range(q.n) if i not in q.A]
    else:
        args[key] = list(q.A)
    R = [q.rdms(V2[:, n])[0] for n in range(Ns)]
    S = lambda p: renyi(la.eigvalsh(sum(c * r for c, r in zip(p, R))), alpha) / (len(q.A) if density else 1)
    state = q.rng.choice(["pure", "DM", "thermal"])
    kw = dict(density=density, alpha=alpha, Srdm_Renyi=True, Srdm_args=args)
    if state == "pure":
        psi = vector(q.rs, Ns, True)
        psi /= np.linalg.norm(psi)
        arg, want = psi, S(abs(V2.conj().T @ psi) ** 2)
    elif state == "DM":
        x = q.rs.normal(size=(Ns, 2)) + 1j * q.rs.normal(size=(Ns, 2))
        arg = x @ x.conj().T
        arg /= np.trace(arg).real
        want = S(np.einsum("in,ij,jn->n", V2.conj(), arg, V2).real)
    else:
        E1, V1 = la.eigh(hermitian(q.rs, Ns, True))
        arg = dict(V1=V1, E1=E1, f_args=[[.3, 1.1]])
        P = abs(V2.conj().T @ V1) ** 2
        W = np.exp(-np.outer(E1 - E1[0], [.3, 1.1]))
        want = np.array([S(P[:, j]) for j in range(Ns)]) @ (W / W.sum(axis=0))
    got = diag_ensemble(q.n, arg, E2, V2, **kw)
    info = f"diag_ensemble({d}, Srdm, {state}, {key}, {q.A}, alpha={alpha}, density={density}, seed={seed})"
    if set(args) != {"basis"} | ({key} if key != "default" else set()):
        raise Bad(info + ": Srdm_args changed")
    check(info, got[("Srdm_" if alpha == 1.0 else "Srdm_Renyi_") + state], want, 1e-8)
    return Ns > 1


def case_sent_time(d, seed):
    from quspin.tools.measurements import obs_vs_time
    q = Sub(d, seed)
    Ns = q.s.b.Ns
    if Ns == 1:
        raise Skip()
    E, V = la.eigh(hermitian(q.rs, Ns, True))
    times = np.linspace(0, 2, q.rng.choice([2, 3, min(Ns, 6) if Ns > 1 else 2]))
    psi = vector(q.rs, Ns, True)
    psi /= np.linalg.norm(psi)
    pt = (V @ (np.exp(-1j * np.outer(E, times)) * (V.conj().T @ psi)[:, None]))
    O = hermitian(q.rs, Ns, True)
    form = q.rng.choice(["ed", "gen", "array"])
    arg = {"ed": (psi, E, V), "gen": (x for x in pt.T), "array": pt}[form]
    args = {"basis": q.s.b}
    old = q.rng.random() < .4
    args["chain_subsys" if old else "sub_sys_A"] = list(q.A)
    if q.rng.random() < .4:
        args.update({"DM": "chain_subsys"} if old else {"return_rdm": "A"})
    kw = dict(return_state=q.rng.random() < .5, Sent_args=args)
    if form == "array" and Ns == len(times):
        kw["enforce_pure"] = True
        args["enforce_pure"] = True
    keep = dict(args)
    got = obs_vs_time(arg, times, {"O": O}, **kw)
    if args != keep:
        raise Bad("obs_vs_time changes Sent_args")
    info = f"obs_vs_time({d}, {form}, {len(times)} times, {sorted(args)}, {kw['return_state']}, seed={seed})"
    S = np.array([renyi(la.eigvalsh(q.rdms(pt[:, i])[0]), 1.0) for i in range(len(times))]) / 1
    S1 = np.asarray(got["Sent_time"]["Sent" if old else "Sent_A"]).reshape(-1)
    dens = q.s.b.ent_entropy(psi, sub_sys_A=list(q.A))["Sent_A"]          # the default of 'density' is that of the method
    ratio = len(q.A) if abs(float(dens) * len(q.A) - renyi(la.eigvalsh(q.rdms(psi)[0]), 1.0)) < 1e-8 else 1
    check(info + ": Sent", S1, S / ratio, 1e-7)
    check(info + ": O", np.asarray(got["O"]).reshape(-1), np.einsum("it,ij,jt->t", pt.conj(), O, pt), 1e-9)
    if "DM" in args or "return_rdm" in args:
        g = np.asarray(got["Sent_time"]["DM_chain_subsys" if old else "rdm_A"])
        check(info + ": rdm", g.reshape((len(times),) + g.shape[-2:]), np.array([q.rdms(pt[:, i])[0] for i in range(len(times))]), 1e-9)
    return Ns > 1


def sq(t, Omega):
    return np.sign(np.cos(Omega * t))


def cosine(t, Omega, ph):
    return np.cos(Omega * t + ph)


def case_floquet(n, how, degenerate, seed):
    from quspin.tools.Floquet import Floquet
    from quspin.operators import hamiltonian
    rs, rng = np.random.RandomState(seed), random.Random(seed)
    cplx = rng.random() < .7
    if degenerate and n > 1:
        def herm():
            h = np.kron(np.eye(2), hermitian(rs, max(1, n // 2), cplx))
            return W @ h @ W.conj().T
        n = 2 * max(1, n // 2)
        W = la.qr(vector(rs, n * n, cplx).reshape(n, n))[0]
    else:
        herm = lambda: hermitian(rs, n, cplx)
    Omega = rs.uniform(1, 6)
    T = 2 * np.pi / Omega
    A, B = herm(), herm()
    A, B = (A + A.conj().T) / 2, (B + B.conj().T) / 2
    dtype = np.result_type(A.dtype, float)
    tol = 1e-8
    jobs = rng.choice([1, 1, 1, 2])
    if how == "cont":
        ph = rs.uniform(0, 2)
        H = hamiltonian([A], [[B, cosine, [Omega, ph]]], dtype=dtype)
        evo = {"H": H, "T": T}
        if rng.random() < .5:
            evo["atol"] = 1e-12
        if rng.random() < .5:
            evo["rtol"] = 1e-12
        U = np.eye(n, dtype=np.complex128)
        k = 400
        c1, c2, al = .5 - np.sqrt(3) / 6, .5 + np.sqrt(3) / 6, np.sqrt(3) / 12
        h = T / k
        for i in range(k):                                          # fourth-order Magnus
            H1, H2 = (A + np.cos(Omega * (i + c) * h + ph) * B for c in (c1, c2))
            U = la.expm(-.5j * h * (H1 + H2) - al * h * h * (H2 @ H1 - H1 @ H2)) @ U
        tol = 1e-6
    elif how == "steps":
        H = hamiltonian([A], [[B, sq, [Omega]]], dtype=dtype)
        dts = [T / 4, T / 2, T / 4]
        ts = [T / 8, T / 2, 7 * T / 8]
        evo = {"H": H, "t_list": np.array(ts), "dt_list": np.array(dts)}
        if rng.random() < .3:
            evo["t_list"], evo["dt_list"] = ts, dts
        U = np.eye(n)
        for t, x in zip(ts, dts):
            U = la.expm(-1j * x * (A + sq(t, Omega) * B)) @ U
    else:
        k = rng.choice([1, 2, 3])
        Hs, dts = [herm() for _ in range(k)], rs.uniform(.1, 1, size=k)
        Hs = [(x + x.conj().T) / 2 for x in Hs]
        evo = {"H_list": [hamiltonian([x], [], dtype=dtype) for x in Hs], "dt_list": dts}
        if rng.random() < .3:
            evo["H_list"] = tuple(evo["H_list"])
        T = dts.sum()
        U = np.eye(n)
        for x, h in zip(Hs, dts):
            U = la.expm(-1j * h * x) @ U
    if how != "cont" and rng.random() < .4:
        T = T * 1.3
        evo["T"] = T
    opt = {k: rng.random() < .7 for k in ("HF", "UF", "thetaF", "VF")}
    F = Floquet(evo, n_jobs=jobs, **opt)
    info = f"Floquet(n={n}, {how}, {opt}, degenerate={degenerate}, n_jobs={jobs}, seed={seed})"
    if abs(F.T - T) > 1e-12:
        raise Bad(f"{info}: T = {F.T} instead of {T}")
    if (np.diff(F.EF) < 0).any():
        raise Bad(info + ": quasi-energies are not in order")
    ph = np.exp(-1j * F.EF * T)
    check(info + ": quasi-energies", np.array([np.abs(ph - e).min() for e in la.eigvals(U)]), np.zeros(n), tol)
    check(info + ": tr U from the quasi-energies", ph.sum(), np.trace(U), tol)
    check(info + ": tr U^2 from the quasi-energies", (ph ** 2).sum(), np.trace(U @ U), tol)
    if (np.abs(F.EF) > np.pi / T + 1e-9).any():
        raise Bad(info + ": quasi-energies outside of the zone")
    for k, v in opt.items():
        if hasattr(F, k) != v:
            raise Bad(f"{info}: attribute {k}")
    if opt["UF"]:
        check(info + ": UF", F.UF, U, tol)
    if opt["HF"]:
        check(info + ": exp(-i T HF)", la.expm(-1j * T * F.HF), U, tol * 10)
        near = np.abs(np.abs(F.EF) * T - np.pi).min()
        if near > 1e-4:
            check(info + ": HF eigenvalues", np.sort(la.eigvals(F.HF).real), F.EF, tol * 1e3)
    if opt["thetaF"]:
        check(info + ": thetaF", F.thetaF, ph, 1e-9 if how != "cont" else tol)
    if opt["VF"]:
        check(info + ": VF orthonormal", F.VF.conj().T @ F.VF, np.eye(n), 1e-6)
        check(info + ": U VF = VF theta", U @ F.VF, F.VF * ph, tol * 10)
    return n > 1


def case_tvec(seed):
    from quspin.tools.Floquet import Floquet_t_vec
    rng = random.Random(seed)
    Om, nc, lT, nu, nd = rng.uniform(.1, 20), rng.randint(1, 60), rng.randint(1, 101), rng.choice([0, 0, 1, 4]), rng.choice([0, 0, 1, 3])
    t = Floquet_t_vec(Om, nc, len_T=lT, N_up=nu, N_down=nd)
    info = f"Floquet_t_vec({Om}, {nc}, len_T={lT}, N_up={nu}, N_down={nd})"
    T = 2 * np.pi / Om
    N = nu + nc + nd
    v = T * (np.arange(N * lT + 1) / lT - nu)
    check(info + ": vals", t.vals, v, 1e-11)
    if (t.N, t.len_T, t.len, len(t), t.shape) != (N, lT, N * lT + 1, N * lT + 1, (N * lT + 1,)):
        raise Bad(info + f": {(t.N, t.len_T, t.len, len(t), t.shape)}")
    check(info + ": T dt i f tot", np.array([t.T, t.dt, t.i, t.f, t.tot]), np.array([T, T / lT, -nu * T, (nc + nd) * T, N * T]), 1e-11)
    check(info + ": t[::2], 2 t, t/2", np.concatenate([t[::2], t * 2.0, t / 2.0, list(t)]), np.concatenate([v[::2], 2 * v, v / 2, v]), 1e-11)
    check(info + ": strobo.inds", t.strobo.inds, np.arange(N + 1) * lT, 0)
    check(info + ": strobo.vals", t.strobo.vals, T * (np.arange(N + 1) - nu), 1e-11)
    if nu or nd:
        parts = ([(t.up, nu, 0)] if nu else []) + [(t.const, nc, nu * lT)] + ([(t.down, nd, (nu + nc) * lT)] if nd else [])
        check(info + ": parts", np.concatenate([x.vals for x, _, _ in parts]), v, 1e-11)
        for x, n, _ in parts:
            if x.N != n or x.len != len(x.vals) or len(x) != x.len:
                raise Bad(f"{info}: part with N={x.N}, len={x.len}")
            check(info + ": part i, f, tot", [x.i, x.f, x.tot], [x.vals[0], x.vals[-1], n * T], 1e-11)
            check(info + ": part strobo", x.strobo.vals, v[x.strobo.inds], 1e-11)
            check(info + ": part strobo.inds are periods", x.strobo.inds % lT, 0 * x.strobo.inds, 0)
        ii = np.concatenate([x.strobo.inds for x, _, _ in parts])
        check(info + ": all periods", ii, np.arange(N + 1) * lT, 0)
    for a in ("up",) * (nu == 0) + ("down",) * (nd == 0):
        if hasattr(t, a):
            raise Bad(f"{info}: has {a}")
    for i in [0, N * lT, lT, -1] + [rng.randrange(N * lT + 1) for _ in range(20)]:
        g = t.get_coordinates(i)
        if tuple(int(x) for x in g) != divmod(i % (N * lT + 1), lT):
            raise Bad(f"{info}: get_coordinates({i}) = {g}")
    return True


def case_misc(seed):
    from quspin.tools.misc import project_op, KL_div, mean_level_spacing
    from quspin.operators import hamiltonian
    rs, rng = np.random.RandomState(seed), random.Random(seed)
    n = rng.choice([2, 3, 6, 20])
    p, q = rs.rand(n) + .01, rs.rand(n) + .01
    p, q = p / p.sum(), q / q.sum()
    if abs(sum(p) - 1) < 5e-14 and abs(sum(q) - 1) < 5e-14:
        check(f"KL_div (seed {seed})", KL_div(p, q), (p * np.log(p / q)).sum(), 1e-12)
    E = np.sort(rs.normal(size=max(n, 3)))
    if np.diff(E).min() > 0:
        g = np.diff(E)
        r = np.minimum(g[1:], g[:-1]) / np.maximum(g[1:], g[:-1])
        check(f"mean_level_spacing (seed {seed})", mean_level_spacing(E if rng.random() < .5 else list(E), verbose=False), r.mean(), 1e-12)
        E[1] = E[0]
        if not np.isnan(mean_level_spacing(E, verbose=False)):
            raise Bad(f"mean_level_spacing of degenerate energies (seed {seed})")
    m = rng.randint(1, n)
    P = vector(rs, n * m, True).reshape(n, m)
    if rng.random() < .5:
        P = P.real.copy()
    down = rng.random() < .5 or n == m
    O = hermitian(rs, n if down else m, rng.random() < .5)
    want = P.conj().T @ O @ P if down else P @ O @ P.conj().T
    form = rng.choice(["array", "ham", "sparse"])
    proj = sp.csr_matrix(P) if rng.random() < .3 else P
    if rng.random() < .3:
        from quspin.basis import spin_basis_1d
        proj = spin_basis_1d(4, **rng.choice([{}, {"Nup": 2}, {"kblock": 0, "pblock": 1}, {"kblock": 1}, {"zblock": -1, "Nup": 2}]))
        P = proj.get_proj(np.complex128).toarray()
        n, m = P.shape
        down = rng.random() < .5 or n == m
        O = hermitian(rs, n if down else m, rng.random() < .5)
        want = P.conj().T @ O @ P if down else P @ O @ P.conj().T
    O0 = O.copy()
    X = project_op({"array": O, "ham": hamiltonian([O], [], dtype=np.complex128), "sparse": sp.csr_matrix(O)}[form], proj)["Proj_Obs"]
    X = X.toarray() if hasattr(X, "toarray") else np.asarray(X)
    check(f"project_op({form}, {n}x{m}, down={down}, seed={seed})", X, want, 1e-10)
    if (O != O0).any():
        raise Bad("project_op changes its argument")
    return True
