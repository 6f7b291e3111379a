"""C14 bounded part: reduced density matrices and entanglement entropies of the lattice bases against the definition, applied to
the state lifted to the full tensor-product space by the oracle."""
import random
import numpy as np
import scipy.sparse as sp
from bounded import oracle, sec
from bounded.harness import Bad, Skip, note

RULE = "a case is (sector, random states, subsystem, storage form, options); non-trivial when the state is entangled between the parts"

FORMS = ["pure", "pure", "many", "many", "square", "mixed", "mixed", "mixed3", "csr1", "csc1", "coo1", "csrn", "cscn", "dense1s", "densens"]


def cases(tier, rng):
    k = 1 if tier == "quick" else 6
    ds = [d for d in sec.descriptions(tier, rng) if full_dim(d) <= 2048]
    rng.shuffle(ds)
    out = []
    for d in ds[:450 * k]:
        out.append(dict(name="trace", d=d, seed=rng.randrange(1 << 30)))
        out.append(dict(name="entropy", d=d, seed=rng.randrange(1 << 30)))
    plain = []
    for fam in ("one_d", "general"):
        for kind, sps, N in (("hcb", 2, 9), ("hcb", 2, 10), ("spin12", 2, 11), ("fermion", 2, 10), ("boson", 3, 6), ("spin", 3, 6), ("boson", 4, 5),
                             ("spinful", 2, 3), ("spinful", 2, 5), ("hcb", 2, 4), ("fermion", 2, 5), ("spin", 4, 3), ("boson", 2, 6)):
            d = dict(fam=fam, kind=kind, N=N, sps=sps)
            plain += [d] * (3 * k)
            n = (rng.randint(0, N), rng.randint(0, N)) if kind == "spinful" else rng.randint(1, N)
            plain += [dict(d, Np=n)] * k
    for d in plain:
        out.append(dict(name="trace", d=d, seed=rng.randrange(1 << 30)))
        out.append(dict(name="entropy", d=d, seed=rng.randrange(1 << 30)))
    return out


def full_dim(d):
    return (4 if d["kind"] == "spinful" else d.get("sps", 2)) ** d["N"]


def subsystem(s, rng):
    """-> (argument for the package, ordered list of modes, number of modes)"""
    d, n = s.d, s.S.N
    if rng.random() < 0.12:
        if d["kind"] == "spinful":
            L = n // 2
            return None, list(range(L // 2)) + [L + i for i in range(L // 2)], n
        return None, list(range(n // 2)), n
    k = rng.randint(1, n - 1)
    if rng.random() < 0.3:
        i = rng.randint(0, n - k)
        modes = list(range(i, i + k))
    else:
        modes = rng.sample(range(n), k)
    if d["kind"] == "spinful" and s.simple:
        L = n // 2
        up, dn = [i for i in modes if i < L], [i - L for i in modes if i >= L]
        return (up, dn), up + [L + i for i in dn], n
    return (tuple(modes) if rng.random() < 0.5 else list(modes)), modes, n


def vecs(rs, n, k, dt):
    v = rs.randn(n, k) + (1j * rs.randn(n, k) if np.dtype(dt).kind == "c" else 0)
    v[rs.rand(n, k) < rs.choice([0.0, 0.3, 0.8])] = 0
    v[rs.randint(0, n, size=k), np.arange(k)] += 1.0
    return (v / np.linalg.norm(v, axis=0)).astype(dt)


class Setup:
    def __init__(self, d, seed):
        self.rng, self.rs = random.Random(seed), np.random.RandomState(seed)
        self.s = s = sec.sector(d)
        if s.b.Ns == 0 or sec.finding_key(d):
            raise Skip()
        self.form = self.rng.choice(FORMS)
        self.dt = self.rng.choice([np.complex128, np.complex128, np.float64, np.complex64, np.float32])
        self.tol = 1e-10 if np.dtype(self.dt).itemsize // (2 if np.dtype(self.dt).kind == "c" else 1) == 8 else 2e-4
        self.arg, modes, n = subsystem(s, self.rng)
        self.ordering = self.rng.random() < 0.6
        if not modes:
            raise Skip()
        self.A = sorted(modes) if self.ordering else modes
        self.B = [i for i in range(n) if i not in self.A]
        self.n, self.sps = n, s.S.sps
        Ns = s.b.Ns
        V = s.V
        if np.dtype(self.dt).kind != "c" and np.abs(V.imag).max() > 1e-12:
            self.dt = np.complex128
            self.tol = 1e-10
        if self.form in ("mixed", "mixed3") and Ns > 600:
            self.form = "pure"
        f = self.form
        one = f in ("pure", "csr1", "csc1", "coo1", "dense1s")
        k = 1 if one else (Ns if f == "square" and Ns <= 40 else self.rng.choice([2, 3, 5, 18] if f in ("csrn", "cscn", "densens") else [2, 3, 5]))
        self.pure = f not in ("mixed", "mixed3")
        self.single = one or f == "mixed"
        self.enforce = f == "square"
        if self.pure:
            self.psi = psi = vecs(self.rs, Ns, k, self.dt)
            self.enforce = self.enforce or k == Ns or self.rng.random() < 0.2
            self.rhos = None
            full = self.lift(V, psi)
            self.full = full
            self.state = (psi[:, 0] if f in ("pure", "dense1s") else psi if f in ("many", "square", "densens") else
                          {"csr1": sp.csr_matrix, "csc1": sp.csc_matrix, "coo1": sp.coo_matrix, "csrn": sp.csr_matrix, "cscn": sp.csc_matrix}[f](psi))
            if f in ("many", "square") and self.rng.random() < 0.4:
                self.state = np.asfortranarray(self.state)
        else:
            m = 1 if f == "mixed" else self.rng.choice([1, 2, 3])
            rhos = []
            for _ in range(m):
                x = vecs(self.rs, Ns, self.rng.choice([1, 2, 4]), self.dt)
                r = x.dot(x.conj().T)
                rhos.append((r / np.trace(r)).astype(self.dt))
            self.rhos = rhos
            self.state = rhos[0] if f == "mixed" else np.array(rhos).transpose(1, 2, 0)
            self.fullr = [self.lift(V, self.lift(V, r).conj().T).conj().T for r in rhos]
        self.sparse_out = f in ("csr1", "csc1", "coo1", "csrn", "cscn", "dense1s", "densens")
        self.sparse_arg = f in ("dense1s", "densens") or (self.sparse_out and self.rng.random() < 0.5)

    def lift(self, V, x):
        """full tensor-product space, index 0 = all sites in the highest state, site 0 most significant"""
        out = np.zeros((self.sps ** self.n, x.shape[1]), dtype=complex)
        out[self.s.full_index] = V @ x
        return out

    def split(self, x):
        """vector -> (A,B) matrix"""
        return x.reshape((self.sps,) * self.n).transpose(self.A + self.B).reshape(self.sps ** len(self.A), -1)

    def want(self):
        """-> stacks (rdm_A, rdm_B)"""
        dA, dB = self.sps ** len(self.A), self.sps ** len(self.B)
        ra, rb = [], []
        if self.pure:
            for x in self.full.T:
                m = self.split(x)
                ra.append(m @ m.conj().T)
                rb.append(m.T @ m.conj())
        else:
            t = self.A + self.B
            for r in self.fullr:
                r4 = r.reshape((self.sps,) * (2 * self.n)).transpose(t + [self.n + i for i in t]).reshape(dA, dB, dA, dB)
                ra.append(np.einsum("abcb->ac", r4))
                rb.append(np.einsum("abad->bd", r4))
        return np.array(ra), np.array(rb)

    def describe(self):
        return f"{self.s.d} {self.form} {np.dtype(self.dt).char} sub_sys_A={self.arg} ordering={self.ordering}"


def stack(x, m, dim):
    """package result -> (m,dim,dim)"""
    if sp.issparse(x):
        return oracle.dense(x).reshape(1, dim, dim)
    x = np.asarray(x)
    if x.dtype == object:
        return np.array([oracle.dense(y) for y in x.ravel()])
    if x.size != m * dim * dim:
        raise Bad(f"reduced density matrix of shape {x.shape}, expected {m} of dimension {dim}")
    return x.reshape(m, dim, dim)


def snapshot(x):
    return x.copy()


def unchanged(a, b):
    if sp.issparse(a):
        return a.shape == b.shape and a.nnz == b.nnz and abs(a - b).max() == 0 if a.nnz else b.nnz == 0
    return np.array_equal(a, b)


def compare(what, got, want, q):
    m, dim = len(want), want.shape[1]
    g = stack(got, m, dim)
    if g.shape != want.shape:
        raise Bad(f"{what}: {q.describe()}: shape {g.shape} instead of {want.shape}")
    e = np.abs(g - want).max()
    if what.endswith("rdm_B") and not e <= q.tol and np.abs(g.conj() - want).max() <= q.tol:
        return note("rdm_B_conjugate", f"{what}: {q.describe()}: the complex conjugate of the reduced density matrix of subsystem B")
    if not e <= q.tol:
        raise Bad(f"{what}: {q.describe()}: off by {e:.3g}")


def unsupported(q, e):
    return q.sparse_out and q.s.d["fam"] == "general" and not str(e)


def case_trace(d, seed):
    q = Setup(d, seed)
    ra, rb = q.want()
    which = q.rng.choice(["A", "B", "both"])
    keep = snapshot(q.state)
    kw = {}
    if which != "A" or q.rng.random() < 0.5:
        kw["return_rdm"] = which
    if q.arg is not None or q.rng.random() < 0.5:
        kw["sub_sys_A"] = q.arg
    try:
        out = q.s.b.partial_trace(q.state, subsys_ordering=q.ordering, enforce_pure=q.enforce, sparse=q.sparse_arg, **kw)
    except ValueError as e:
        if unsupported(q, e):
            raise Skip()
        raise
    out = {"A": (out, None), "B": (None, out), "both": out}[which]
    if out[0] is not None:
        compare("rdm_A", out[0], ra, q)
    if out[1] is not None:
        compare("rdm_B", out[1], rb, q)
    if not unchanged(keep, q.state):
        raise Bad(f"partial_trace changed the caller's state: {q.describe()}")
    return int(entangled(ra))


def entangled(r):
    return any(np.linalg.eigvalsh(x)[-1] < 1 - 1e-6 for x in r if len(x) > 1)


def entropy(r, alpha, tol):
    p = np.linalg.eigvalsh(r)
    p = p[p > 1e-13]
    return -np.sum(p * np.log(p)) if alpha == 1 else np.log(np.sum(p ** alpha)) / (1 - alpha)


def case_entropy(d, seed):
    q = Setup(d, seed)
    ra, rb = q.want()
    rng = q.rng
    alpha = rng.choice([1.0, 1.0, 2.0, 3, 1])
    if q.tol < 1e-8 and alpha == 2.0 and rng.random() < 0.5:
        alpha = 0.5
    density = rng.random() < 0.5
    which = rng.choice([None, "A", "B", "both"])
    evs = rng.random() < 0.5
    kw = {}
    if q.arg is not None or rng.random() < 0.5:
        kw["sub_sys_A"] = q.arg
    if q.pure and not q.sparse_out and rng.random() < 0.3:
        import scipy.linalg as la
        kw["svd_solver"] = rng.choice([np.linalg.svd, la.svd])
        kw["svd_kwargs"] = dict(full_matrices=False) if which else dict(compute_uv=False)
        if kw["svd_solver"] is np.linalg.svd:
            kw.pop("svd_kwargs")
    if q.sparse_out:
        kw["sparse_diag"] = rng.random() < 0.5
        if alpha == 0.5:
            alpha = 2.0
    keep = snapshot(q.state)
    try:
        out = q.s.b.ent_entropy(q.state, density=density, subsys_ordering=q.ordering, return_rdm=which, enforce_pure=q.enforce,
                                return_rdm_EVs=evs, sparse=q.sparse_arg, alpha=alpha, **kw)
    except ValueError as e:
        if unsupported(q, e):
            raise Skip()
        raise
    tol = max(q.tol * 100, 1e-3 if alpha == 0.5 else 0)
    if alpha == 0.5:
        tol = max(tol, 3e-8 * max(ra.shape[1], rb.shape[1]) * 4)
    for X, r, n in (("A", ra, len(q.A)), ("B", rb, len(q.B))):
        if X == "B" and which not in ("B", "both"):
            continue
        if X == "A" and not q.pure and which == "B":
            continue                                    # only B is computed for mixed states
        w = np.array([entropy(x, alpha, tol) for x in r]) / (n if density else 1)
        g = np.asarray(out["Sent_" + X]).ravel()
        if g.shape != w.shape or not np.abs(g - w).max() <= tol * max(1, np.abs(w).max()):
            raise Bad(f"Sent_{X}: {q.describe()} alpha={alpha} density={density} return_rdm={which} {kw}: {g} instead of {w}")
        if which in (X, "both"):
            if "rdm_" + X not in out:
                raise Bad(f"rdm_{X} missing from {sorted(out)}")
            compare("ent_entropy rdm_" + X, out["rdm_" + X], r, q)
        if evs and "p_" + X in out:
            p = np.asarray(out["p_" + X])
            p = np.sort(p.reshape(len(r), -1), axis=1)[:, ::-1]
            for i, x in enumerate(r):
                e = np.sort(np.linalg.eigvalsh(x))[::-1]
                k = max(len(e), p.shape[1])
                e, pp = np.pad(e, (0, k - len(e))), np.pad(p[i], (0, k - p.shape[1]))
                if np.abs(e - pp).max() > max(q.tol, 1e-10):
                    raise Bad(f"p_{X}: {q.describe()}: {p[i]} instead of {e}")
    if evs and "p_A" not in out and (q.pure or which != "B"):
        raise Bad(f"p_A missing from {sorted(out)}")
    if not unchanged(keep, q.state):
        raise Bad(f"ent_entropy changed the caller's state: {q.describe()}")
    return int(entangled(ra))
