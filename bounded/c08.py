"""C08 bounded part: every transformation between a sector and its parent space is the same isometry."""
import numpy as np
import random
import scipy.sparse as sp
from bounded import oracle, sec
from bounded.harness import Bad, Skip

RULE = "a case is one symmetry sector; non-trivial when it has a block and a state"


def cases(tier, rng):
    long = sec.long_descriptions(rng, 300 if tier == "quick" else 2000)
    return [dict(name="sector", d=d, seed=rng.randrange(1 << 30)) for d in sec.descriptions(tier, rng) + long]


def rand(rs, shape, real):
    v = rs.standard_normal(shape)
    return v if real else v + 1j * rs.standard_normal(shape)


def case_sector(d, seed):
    s = sec.sector(d)
    f = sec.finding_key(d)
    try:
        return body(s, d, seed)
    except Bad as e:
        raise Bad(str(e), f)


def body(s, d, seed):
    b, n = s.b, len(s.states)
    P = s.P
    if b.Ns == 0:
        if s.reps:
            raise Bad("the sector has states, the basis has none")
        return 0
    small = s.S.sps ** s.S.N <= 1 << 16
    full = s.S.sps ** s.S.N
    W = s.isometry()
    oracle.expect(W.conj().T @ W, np.eye(b.Ns), 1e-9, "V^dagger V")
    oracle.expect(W @ W.conj().T, P, 1e-9, "V V^dagger")
    V = s.V
    oracle.expect(W, V, 1e-9, "columns of get_proj against the normalised projections of the representatives")
    rs = np.random.RandomState(seed % (1 << 31))
    Np = d.get("Np")
    single = Np is not None and (isinstance(Np, int) or (d["kind"] == "spinful" and not isinstance(Np[0], (list, tuple))))
    if d.get("kw", {}).get("double_occupancy", True) is False:
        single = False  # the particle-conserving space is that with double occupancies
    realsec = np.abs(V.imag).max(initial=0) < 1e-12
    for real in ((True, False) if realsec else (False,)):
        for k in (None, 1, 3):
            shape = (b.Ns,) if k is None else (b.Ns, k)
            v = rand(rs, shape, real)
            v0 = v.copy()
            want = V @ v
            if small:
                for sparse in (True, False):
                    for name in ("project_from", "get_vec"):
                        u = getattr(b, name)(v, sparse=sparse)
                        if sparse and not sp.issparse(u):
                            raise Bad(f"{name}(sparse=True) returned {type(u)}")
                        u = oracle.dense(u)
                        if k is None and sparse:
                            u = u.reshape(-1)
                        if u.shape != (full,) + shape[1:]:
                            raise Bad(f"{name}(sparse={sparse}) shape {u.shape} for input {shape}")
                        uu = s.rows(u.reshape(full, -1)).reshape((n,) + shape[1:])
                        oracle.expect(uu, want, 1e-9, f"{name}(sparse={sparse})")
                if not np.array_equal(v, v0):
                    raise Bad("project_from changed its input")
            if d["fam"] == "general":
                # project_to is the adjoint
                if small:
                    x = rand(rs, (full,) + shape[1:], real)
                    x0 = x.copy()
                    down = V.conj().T @ x[s.full_index]
                    for sparse in (True, False):
                        u = oracle.dense(b.project_to(x, sparse=sparse))
                        if k is None and sparse:
                            u = u.reshape(-1)
                        oracle.expect(u, down if not (k is None and b.Ns == 1 and u.ndim == 0) else down.reshape(()), 1e-9,
                                      f"project_to(sparse={sparse})")
                    if not np.array_equal(x, x0):
                        raise Bad("project_to changed its input")
                    up = b.project_from(v, sparse=False)
                    oracle.expect(np.asarray(b.project_to(up, sparse=False)).reshape(shape), v, 1e-9, "project_to(project_from(v))")
                if single:
                    u = np.asarray(b.project_from(v, sparse=False, pcon=True)).reshape((n,) + shape[1:])
                    oracle.expect(u, want, 1e-9, "project_from(pcon=True)")
                    u = oracle.dense(b.project_from(v, sparse=True, pcon=True)).reshape((n,) + shape[1:])
                    oracle.expect(u, want, 1e-9, "project_from(pcon=True, sparse=True)")
                    x = rand(rs, (n,) + shape[1:], real)
                    u = np.asarray(b.project_to(x, sparse=False, pcon=True)).reshape((b.Ns,) + shape[1:])
                    oracle.expect(u, V.conj().T @ x, 1e-9, "project_to(pcon=True)")
                    u = oracle.dense(b.project_to(x, sparse=True, pcon=True)).reshape((b.Ns,) + shape[1:])
                    oracle.expect(u, V.conj().T @ x, 1e-9, "project_to(pcon=True, sparse=True)")
    if single and small:
        u = oracle.dense(b.get_proj(np.complex128, pcon=True))
        oracle.expect(u, V, 1e-9, "get_proj(pcon=True)")
    if realsec:
        try:
            oracle.expect(oracle.dense(b.get_proj(np.float64)) if small else W.real, full_rows(s, V.real, full) if small else V.real,
                          1e-9, "get_proj(float64)")
        except TypeError:
            pass
    if d["fam"] == "general" and d.get("kw", {}).get("double_occupancy", True):
        amps(s, V)
    return 1 if s.ob else 0


def full_rows(s, V, full):
    out = np.zeros((full, V.shape[1]))
    out[s.full_index] = V
    return out


def amps(s, V):
    """get_amp(mode='full_basis'): psi_s = C psi_r  for every state of the parent space; mode='representative' for the representatives"""
    b = s.b
    dt = b.states.dtype
    pos = {x: i for i, x in enumerate(s.listed)}
    st = np.array(s.states, dtype=dt)
    C = np.atleast_1d(b.get_amp(st.copy(), mode="full_basis"))
    for i, x in enumerate(s.states):
        r = max(s.S.orbit(s.ob, x))
        want = V[i, pos[r]] if r in pos else 0.0
        if abs(C[i] - want) > 1e-6:
            raise Bad(f"get_amp(full_basis) of state {x} is {C[i]}, the amplitude of the normalised symmetry state is {want}")
    C = np.atleast_1d(b.get_amp(np.array(s.listed, dtype=dt), mode="representative"))
    ind = {x: i for i, x in enumerate(s.states)}
    for i, x in enumerate(s.listed):
        if abs(C[i] - V[ind[x], i]) > 1e-6:
            raise Bad(f"get_amp(representative) of {x} is {C[i]} instead of {V[ind[x], i]}")
