"""C06 bounded part: sector matrices against V^dagger H V with H the Kronecker/Jordan-Wigner matrix."""
import numpy as np
from bounded import oracle, sec
from bounded.harness import Bad, Skip

RULE = "a case is (sector, symmetrised random operator list); non-trivial when the expected matrix is non-zero"


def cases(tier, rng):
    long = sec.long_descriptions(rng, 300 if tier == "quick" else 2000)
    ds = sec.descriptions(tier, rng) + long
    out = [dict(name="matrix", d=d, seed=rng.randrange(1 << 30)) for d in ds]
    if tier == "thorough":
        out += [dict(name="matrix", d=d, seed=rng.randrange(1 << 30)) for d in ds]
    for kind, sps, N in (("spin12", 2, 6), ("boson", 3, 4), ("fermion", 2, 6), ("spin", 3, 4)):
        for s in range(4):
            out.append(dict(name="spectrum", kind=kind, sps=sps, N=N, seed=rng.randrange(1 << 30)))
    return out


def case_matrix(d, seed):
    from quspin.operators import hamiltonian
    s = sec.sector(d)
    f = sec.finding_key(d)
    pauli_fix = d.get("pauli", 0)
    terms = s.terms(seed, hermitian=bool(seed % 2))
    if s.b.Ns == 0:
        if len(s.reps):
            raise Bad("empty basis", f)
        raise Skip()
    s.P
    H = s.H(terms)
    V = s.V
    want = V.conj().T @ (H @ V)
    static = s.static(terms)
    h = hamiltonian(static, [], basis=s.b, dtype=np.complex128, check_herm=False, check_symm=False, check_pcon=False)
    try:
        oracle.expect(oracle.dense(h.tocsr()), want, 1e-9, "hamiltonian matrix")
        # single terms through Op, summed
        acc = np.zeros_like(want)
        for op, lst in static:
            for t in lst:
                ME, r, c = s.b.Op(op, t[1:], t[0], np.complex128)
                np.add.at(acc, (np.asarray(r, dtype=np.intp), np.asarray(c, dtype=np.intp)), ME)
        oracle.expect(acc, want, 1e-9, "sum of Op() matrix elements")
        if np.abs(want.imag).max(initial=0) < 1e-12 and all(np.imag(J) == 0 for _, _, J in terms) and "y" not in "".join(t[0] for t in terms):
            dt = np.float64 if seed % 3 else np.float32
            if not has_complex(s):
                try:
                    h = hamiltonian(static, [], basis=s.b, dtype=dt, check_herm=False, check_symm=False, check_pcon=False)
                except TypeError as e:      # refuses a real type when a character is not exactly real: no wrong matrix
                    if "real type" in str(e):
                        return 1
                    raise
                oracle.expect(oracle.dense(h.tocsr()), want.real, 1e-9 if dt == np.float64 else 2e-5, f"{dt.__name__} matrix")
    except Bad as e:
        raise Bad(str(e), f)
    return 1 if np.abs(want).max() > 1e-9 else 0


def has_complex(s):
    for m, q in s.ob:
        p = s.S.period(m)
        for x in (q if isinstance(q, list) else [q]):
            if (2 * x) % p:
                return True
    return False


def case_spectrum(kind, sps, N, seed):
    """the spectra of all momentum sectors make up the full spectrum"""
    from quspin.operators import hamiltonian
    from bounded import sectors
    full = sec.sector(dict(fam="general", kind=kind, sps=sps, N=N))
    T = sectors.shift(N)
    s0 = sec.Sector(dict(fam="general", kind=kind, sps=sps, N=N, blocks={"T": [T, 0]}))
    terms = s0.terms(seed)
    kw = dict(check_herm=False, check_symm=False, check_pcon=False)
    st = s0.static(terms)
    E = np.sort(np.linalg.eigvalsh(hamiltonian(st, [], basis=full.b, dtype=np.complex128, **kw).toarray()))
    out = []
    for q in range(N):
        s = sec.Sector(dict(fam="general", kind=kind, sps=sps, N=N, blocks={"T": [T, q]}))
        if s.b.Ns:
            out += list(np.linalg.eigvalsh(hamiltonian(st, [], basis=s.b, dtype=np.complex128, **kw).toarray()))
    oracle.expect(np.sort(out), E, 1e-8, "union of the sector spectra")
    return 1
