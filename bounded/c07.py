"""C07 bounded part: action of an operator on vectors without building its matrix (inplace_Op, Op_bra_ket, Op_shift_sector)."""
import random
import numpy as np
from bounded import oracle, sec, sectors
from bounded.harness import Bad, Skip

RULE = "a case is (sector, operator list, flags, dtypes, shape); non-trivial when the operator does not vanish in the sector"


def cases(tier, rng):
    frac = 0.5 if tier == "quick" else 1.0
    ds = sec.descriptions(tier, rng, frac) + sec.long_descriptions(rng, 200 if tier == "quick" else 1500)
    out = []
    for d in ds:
        out.append(dict(name="action", d=d, seed=rng.randrange(1 << 30)))
        if d["fam"] == "general":
            out.append(dict(name="bra_ket", d=d, seed=rng.randrange(1 << 30)))
    # pairs of sectors of the same symmetries
    for d in sec.descriptions(tier, rng) + ds[-200:]:
        if d["fam"] == "general" and d.get("blocks"):
            b2 = {k: [m, rng.randrange(64)] for k, (m, q) in d["blocks"].items()}
            out.append(dict(name="shift", d=d, blocks2=b2, dNp=rng.choice([0, 0, 1, -1]), seed=rng.randrange(1 << 30)))
    return out


def vectors(rs, n, k, dtype, order):
    v = rs.randn(n, k)
    if np.dtype(dtype).kind == "c":
        v = v + 1j * rs.randn(n, k)
    return np.array(v, dtype=dtype, order=order)


def is_real(s, terms):
    from bounded.c06 import has_complex
    return not has_complex(s) and all(np.imag(J) == 0 for _, _, J in terms) and "y" not in "".join(t[0] for t in terms)


def case_action(d, seed):
    s = sec.sector(d)
    f = sec.finding_key(d)
    rng = random.Random(seed)
    rs = np.random.RandomState(seed)
    terms = s.terms(seed, hermitian=False, real=rng.random() < 0.5)
    if s.b.Ns == 0:
        raise Skip()
    V = s.V
    A = V.conj().T @ (s.H(terms) @ V)
    flat = [[o, t[1:], t[0]] for o, lst in s.static(terms) for t in lst]
    single = rng.random() < 0.3
    real = is_real(s, terms) and np.abs(A.imag).max(initial=0) < 1e-12
    dts = [np.complex128, np.complex64] + ([np.float64, np.float32] if real else [])
    hit = 0
    for tr in (False, True):
        for cj in (False, True):
            M = A.T if tr else A
            M = M.conj() if cj else M
            dt = np.complex64 if single and not real else rng.choice(dts)
            vd = rng.choice([np.float32, np.float64, np.complex64, np.complex128])
            k = rng.choice([0, 1, 2, 3])
            order = rng.choice("CF")
            v = vectors(rs, s.b.Ns, max(k, 1), vd, order)
            v = v[:, 0] if k == 0 else v
            if rng.random() < 0.2 and s.b.Ns > 1:      # strided view
                big = np.zeros((2 * s.b.Ns,) + v.shape[1:], dtype=v.dtype)
                big[::2] = v
                v = big[::2]
            keep = v.copy()
            want = M @ v
            res_t = np.result_type(vd, dt)
            tol = 1e-9 if res_t in (np.float64, np.complex128) and dt in (np.float64, np.complex128) else 3e-5
            what = f"inplace_Op(transposed={tr}, conjugated={cj}, dtype={np.dtype(dt)}, v {np.dtype(vd)} {v.shape})"
            try:
                try:
                    if rng.random() < 0.3 :
                        base = np.ascontiguousarray(vectors(rs, s.b.Ns, max(k, 1), res_t, "C"))
                        base = base[:, 0].copy() if k == 0 else base
                        out = base.copy()
                        r = s.b.inplace_Op(v, flat, dt, transposed=tr, conjugated=cj, v_out=out)
                        want = want + base                      # every basis class adds to v_out
                        if not np.shares_memory(r, out):
                            raise Bad(what + ": v_out is not what is returned", f)
                        oracle.expect(out.reshape(want.shape), want, tol * 10, what + " into v_out")
                    else:
                        r = s.b.inplace_Op(v, flat, dt, transposed=tr, conjugated=cj)
                except TypeError as e:
                    if "real" in str(e) and res_t.kind == "f":
                        continue
                    raise
                r = np.asarray(r)
                if r.dtype != res_t:
                    raise Bad(f"{what}: result has dtype {r.dtype} instead of {res_t}")
                oracle.expect(r.reshape(want.shape), want, tol * 10, what)
            except Bad as e:
                raise Bad(str(e), f)
            if not np.array_equal(keep, v):
                raise Bad(what + " changed its input", f)
            hit |= int(np.abs(want).max(initial=0) > 1e-9)
    return hit


def case_bra_ket(d, seed):
    s = sec.sector(d)
    rng = random.Random(seed)
    if not d.get("kw", {}).get("double_occupancy", True):
        raise Skip()
    terms = s.terms(seed, hermitian=False)
    if s.b.Ns == 0:
        raise Skip()
    V = s.V
    if len(set(s.listed)) != len(s.listed):
        raise Skip()
    ind = {t: i for i, t in enumerate(s.listed)}
    A = np.zeros((s.b.Ns, s.b.Ns), complex)
    want = V.conj().T @ (s.H(terms) @ V)
    kets = s.b.states.copy()
    perm = np.random.RandomState(seed).permutation(len(kets))
    kets = kets[perm]
    for o, lst in s.static(terms):
        for t in lst:
            oo, ii = o, list(t[1:])
            ME, bra, ket = s.b.Op_bra_ket(oo, ii, t[0], np.complex128, kets, reduce_output=bool(seed % 2))
            if not seed % 2:
                if len(ME) != len(kets) or not all(int(a) == int(b) for a, b in zip(ket, kets)):
                    raise Bad("Op_bra_ket(reduce_output=False) does not return one entry per ket")
                if np.isnan(ME).any():
                    raise Bad("nan matrix element")
            for m, b, k in zip(ME, bra, ket):
                if m == 0:
                    continue
                if int(b) not in ind:
                    if abs(m) > 1e-9:
                        raise Bad(f"Op_bra_ket({oo}, {ii}): bra {int(b)} (matrix element {m}) is not in the sector")
                    continue
                A[ind[int(b)], ind[int(k)]] += m
    oracle.expect(A, want, 1e-9, "sum of Op_bra_ket matrix elements")
    return int(np.abs(want).max(initial=0) > 1e-9)


def case_shift(d, blocks2, dNp, seed):
    rng = random.Random(seed)
    if d.get("kw", {}).get("double_occupancy") is False:
        raise Skip()
    s1 = sec.sector(d)
    S = s1.S
    d2 = dict(d)
    d2["blocks"] = {k: [m, q2 % S.period(m1)] for (k, (m, q2)), (m1, q1) in zip(blocks2.items(), s1.ob)}
    conserving = d.get("Np") is not None
    step = None
    if conserving:
        step = 0
        if isinstance(d["Np"], int) and 0 <= d["Np"] + dNp <= d["N"] * (S.sps - 1):
            step = dNp
            d2["Np"] = d["Np"] + dNp
    s2 = sec.sector(d2)
    if s1.b.Ns == 0 or s2.b.Ns == 0 or s1.b.Ns * len(s1.states) > 2e6:
        raise Skip()
    V1, V2 = s1.V, s2.V
    L = s1.letters()
    if any(x < 0 for m, _ in s1.ob for x in m):
        L = L.replace("n", "")
    hit = 0
    for _ in range(6):
        op, idx = rand_string(rng, L, d, S.N, step)
        ph = rng.choice([1, -1])
        terms = orbit_terms(s1, s2, op, idx, ph)
        if not terms or len(terms) > 200:
            continue
        O = rect(S, terms, s1.states, s2.states)
        if O.nnz == 0 or abs(O).max() < 1e-9:
            continue
        OV = O @ V1
        want = V2.conj().T @ OV
        # contract's precondition: the operator transforms with the ratio of the characters (it moves sector 1 into sector 2)
        if any(dist(S.gen_matrix(m, s2.states) @ O, np.exp(2j * np.pi * (q2 - q1) / S.period(m)) * (O @ S.gen_matrix(m, s1.states)))
               > 1e-9 for (m, q1), (_, q2) in zip(s1.ob, s2.ob)):
            continue
        if np.abs(OV - V2 @ want).max(initial=0) > 1e-9:
            raise AssertionError("oracle: the image is not in the target sector")
        flat = [[o, t[1:], t[0]] for o, lst in s1.static(terms) for t in lst]
        k = rng.choice([1, 1, 3])
        v = vectors(np.random.RandomState(seed), s1.b.Ns, k, np.complex128, "C")
        if k == 1 and rng.random() < 0.5:
            v = v[:, 0]
        keep = v.copy()
        w = want @ v.reshape(-1, k)
        if rng.random() < 0.5:
            out = np.zeros((s2.b.Ns, k), complex)
            s2.b.Op_shift_sector(s1.b, flat, v, v_out=out, dtype=np.complex128)
            oracle.expect(out, w, 1e-9, "Op_shift_sector v_out")
        else:
            r = s2.b.Op_shift_sector(s1.b, flat, v, dtype=np.complex128)
            oracle.expect(np.asarray(r).reshape(-1, k), w, 1e-9, "Op_shift_sector")
        if not np.array_equal(keep, v):
            raise Bad("Op_shift_sector changed its input")
        hit |= int(np.abs(want).max(initial=0) > 1e-9)
    if not hit:
        raise Skip()
    return hit


def dist(A, B):
    D = A - B
    return abs(D).max() if D.nnz else 0.0


def rand_string(rng, letters, d, M, step):
    """a random operator string; step: change of the particle number, None = not conserved"""
    if step is None:
        n = rng.randrange(1, 4)
        op = "".join(rng.choice(letters) for _ in range(n))
        return op, [rng.randrange(M) for _ in range(n)]
    op = {1: "+", -1: "-", 0: rng.choice(["", "+-", "-+"])}[step]
    idx = [rng.randrange(M) for _ in op]
    if d["kind"] == "spinful" and len(op) == 2:
        o = rng.choice([0, d["N"]])
        idx = [o + rng.randrange(d["N"]), o + rng.randrange(d["N"])]
    for _ in range(rng.randrange(3) if op else 1):
        op += rng.choice([c for c in letters if c in "zn"])
        idx.append(rng.randrange(M))
    return op, idx


def orbit_terms(s1, s2, op, idx, sign):
    """sum of the images of an operator string weighted with the ratio of the two sectors' characters"""
    terms = [(op, idx, 1.0)]
    for (m, q1), (_, q2) in zip(s1.ob, s2.ob):
        p = s1.S.period(m)
        new, cur = [], terms
        for g in range(p):
            ph = np.exp(sign * 2j * np.pi * ((q2 - q1) * g % p) / p)
            if len(new) > 400:
                return None
            new += [(o, i, J * ph) for o, i, J in cur]
            cur = [sectors.image(t, m, s1.S.kind) for t in cur]
            if any(t is None for t in cur):
                return None
        terms = new
    return terms


def rect(S, terms, cols, rows):
    import scipy.sparse as sp
    ind = {t: i for i, t in enumerate(rows)}
    R, C, D = [], [], []
    for op, idx, J in terms:
        for c, s in enumerate(cols):
            x = S.apply(op, list(idx), s, J)
            if x is None or x[0] == 0:
                continue
            if x[1] not in ind:
                return sp.csr_matrix((len(rows), len(cols)))
            R.append(ind[x[1]])
            C.append(c)
            D.append(x[0])
    return sp.csr_matrix((D, (R, C)), shape=(len(rows), len(cols)), dtype=complex)
