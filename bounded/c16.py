"""C16 bounded part: tensor-product and particle-photon bases against Kronecker products of the oracle's factors."""
import random
import numpy as np
import scipy.sparse as sp
from bounded import c14, oracle, sec, sectors
from bounded.harness import Bad, Skip, note

RULE = "a case is (factors, operator lists, states, subsystem, storage form); non-trivial when at least two factors have more than one state"


def cases(tier, rng):
    k = 1 if tier == "quick" else 6
    ds = [d for d in sec.descriptions(tier, rng) if c14.full_dim(d) <= 300 and not sec.finding_key(d)]
    plain = [dict(fam=f, kind=kind, N=N, sps=sps) for f in ("one_d", "general")
             for kind, sps, N in (("hcb", 2, 1), ("spin12", 2, 2), ("fermion", 2, 2), ("fermion", 2, 3), ("boson", 3, 1), ("boson", 3, 2), ("spin", 3, 2),
                                  ("spinful", 2, 1), ("spinful", 2, 2), ("spin12", 2, 4), ("boson", 5, 1))]
    plain += [dict(d, Np=(1, 1) if d["kind"] == "spinful" else rng.randint(0, d["N"])) for d in plain]
    pool = [(d, 1) for d in ds] + [(d, 6) for d in plain]
    ds, w = [d for d, _ in pool], [x for _, x in pool]
    out = []
    for i in range(900 * k):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        fs = []
        for j in range(n):
            if rng.random() < 0.2:
                fs.append({"ho": rng.choice([0, 1, 2, 3, 5])})
                continue
            d = rng.choices(ds, w)[0]
            if d["kind"] == "spinful" and d.get("kw", {}).get("simple_symm", True) and j < n - 1:
                d = rng.choice([x for x in plain if x["kind"] != "spinful"])    # the bar of a spinful string is the product's bar
            fs.append(d)
        out.append(dict(name=rng.choice(["matrix", "matrix", "project", "trace", "entropy", "lists"]), fs=fs, seed=rng.randrange(1 << 30)))
    for nph in (126, 127, 128):
        out.append(dict(name="matrix", fs=[{"ho": nph}, plain[0]], seed=rng.randrange(1 << 30)))
    wide = [d for d in ds if d["kind"] != "spinful"]
    for i in range(700 * k):
        d = rng.choice(wide)
        conserve = rng.random() < 0.55
        if conserve:
            if any(x < 0 for m, _ in sectors_blocks(d) for x in m):
                continue
            d = {a: b for a, b in d.items() if a != "Np"}
            tot = rng.choice([0, 1, 2, 3, 5, d["N"] * (d.get("sps", 2) - 1), d["N"] * (d.get("sps", 2) - 1) + rng.randint(1, 3)])
            out.append(dict(name=rng.choice(["matrix", "matrix", "project", "trace", "entropy", "lists"]), fs=[d], ntot=tot, seed=rng.randrange(1 << 30)))
        else:
            if d.get("Np") is not None:
                d = {a: b for a, b in d.items() if a != "Np"}
            out.append(dict(name=rng.choice(["matrix", "matrix", "project", "trace", "entropy", "lists"]), fs=[d], nph=rng.choice([0, 1, 2, 3, 4, 7]),
                            seed=rng.randrange(1 << 30)))
    return out


def sectors_blocks(d):
    if d["fam"] == "general":
        return list(d.get("blocks", {}).values())
    return sectors.one_d_blocks(d["kind"], d["N"], d.get("blocks", {}))


# ---- factors ---------------------------------------------------------------------------------------
class Osc:
    """harmonic oscillator with the states 0..Np; strings act in the untruncated space"""
    sites = 1
    spinful = False

    def __init__(self, Np):
        from quspin.basis import ho_basis
        self.b, self.Np, self.Ns = ho_basis(Np), Np, Np + 1
        self.V, self.N, self.simple = np.eye(Np + 1, dtype=complex), (1,), True
        self.blocks = False

    def op(self, opstr, idx=None):
        M = np.zeros((self.Ns, self.Ns), dtype=complex)
        for n in range(self.Ns):
            a, m = 1.0, n
            for c in reversed(opstr):
                if c == "n":
                    a *= m
                elif c == "+":
                    a, m = a * np.sqrt(m + 1.0), m + 1
                elif c == "-":
                    a, m = a * np.sqrt(float(m)), m - 1
                if a == 0:
                    break
            if a and 0 <= m < self.Ns:
                M[m, n] += a
        return M

    def matrix(self, terms):
        return sum((J * self.op(o) for o, i, J in terms), np.zeros((self.Ns, self.Ns), dtype=complex))

    def terms(self, seed, real=False):
        r = random.Random(seed)
        out = []
        for _ in range(r.randint(1, 2)):
            op = "".join(r.choice("I+-n+-") for _ in range(r.randint(1, 3)))
            J = r.choice([1.0, -0.5, 0.3])
            out += [(op, (0,) * len(op), J), (hc(op), (0,) * len(op), J)]
        return out

    def index_pairs(self):
        return [((n,), n) for n in range(self.Ns)]


def hc(op):
    return op[::-1].translate(str.maketrans("+-", "-+"))


class Lat:
    def __init__(self, d):
        self.d, self.s = d, sec.sector(d)
        self.b, self.Ns, self.N = self.s.b, self.s.b.Ns, (d["N"],)
        if self.Ns == 0:
            raise Skip()
        V = np.zeros((self.s.S.sps ** self.s.S.N, self.Ns), dtype=complex)
        V[self.s.full_index] = self.s.V
        self.V = V
        self.blocks = bool(self.s.ob)

    def matrix(self, terms):
        """terms in the package's form"""
        S, out = self.s.S, []
        for o, i, J in terms:
            out.append((o.replace("|", ""), S.sites(o, i), J))
        V = self.s.V
        return V.conj().T @ (self.s.H(out, check=False) @ V)

    def terms(self, seed, real=False):
        t = self.s.terms(seed, hermitian=True, nterms=1, real=real)
        self.s.H(t)                                             # skips when the symmetrised list does not commute with the blocks
        out = []
        for o, lst in self.s.static(t):
            for x in lst:
                out.append((o, tuple(x[1:]), x[0]))
        return out

    def index_pairs(self):
        r = self.s.listed
        if len(set(r)) != len(r):
            return []
        n = self.d["N"]
        return [((s >> n, s & (1 << n) - 1) if self.d["kind"] == "spinful" else (s,), i) for i, s in enumerate(r)]


class Product:
    """the package's product basis with its factors"""

    def __init__(self, fs, nph=None, ntot=None):
        from quspin.basis import tensor_basis, photon_basis
        self.ntot, self.photon = ntot, nph is not None or ntot is not None
        if ntot is not None:
            self.conserving(fs[0], ntot)
            return
        self.f = [Osc(d["ho"]) if "ho" in d else Lat(d) for d in fs] + ([Osc(nph)] if self.photon else [])
        self.Ns = int(np.prod([f.Ns for f in self.f]))
        if self.Ns > 700 or np.prod([f.V.shape[0] for f in self.f]) > 40000:
            raise Skip()
        if self.photon:
            self.b = photon(fs[0], Nph=nph)
        else:
            self.b = tensor_basis(*[f.b for f in self.f])
        self.left, self.right = self.f[0].Ns, self.Ns // self.f[0].Ns
        self.lift = None

    def conserving(self, d, ntot):
        top = d["N"] * (d.get("sps", 2) - 1)
        lst = list(range(min(ntot, top) + 1))
        self.f = [Lat(dict(d, Np=lst)), Osc(ntot)]
        self.b = photon(d, Ntot=ntot)
        L = self.f[0]
        if self.b.particle_basis.Ns != L.Ns:
            raise Bad(f"{d} Ntot={ntot}: {self.b.particle_basis.Ns} particle states instead of {L.Ns}")
        # order of the states is the package's choice: align the oracle
        got = [int(x) for x in self.b.particle_basis.states]
        want = L.s.listed
        if sorted(got) != sorted(want):
            raise Bad(f"{d} Ntot={ntot}: particle states {got} instead of {want}")
        if len(set(got)) != len(got):
            raise Skip()
        pos = [want.index(x) for x in got]
        self.Ns = L.Ns
        self.W = L.s.V[:, pos]
        self.FW = L.V[:, pos]
        digits = [sum(L.s.S.digits(x)) for x in got]
        self.ph = [ntot - n for n in digits]
        if min(self.ph) < 0:
            raise Bad("more particles than Ntot")
        # lift: particle sector (x) photon number
        self.left, self.right = L.Ns, ntot + 1
        self.lift = np.zeros((L.Ns * (ntot + 1), L.Ns))
        for i, m in enumerate(self.ph):
            self.lift[i * (ntot + 1) + m, i] = 1

    def describe(self):
        return "(x)".join(str(getattr(f, "d", getattr(f, "Np", None))) for f in self.f) + (f" Ntot={self.ntot}" if self.ntot is not None else "")

    def full(self, flags=None, nph=None):
        """isometry to the product of the full factor spaces"""
        if self.ntot is not None:
            n = self.ntot if nph is None else nph
            V = self.FW if flags is None or flags[0] else np.eye(self.Ns)
            out = np.zeros((V.shape[0] * (n + 1), self.Ns), dtype=complex)
            for i, m in enumerate(self.ph):
                out[m::n + 1, i] = V[:, i]
            return out
        V = np.ones((1, 1))
        for j, f in enumerate(self.f):
            keep = flags is None or flags[0 if j == 0 else 1]
            V = np.kron(V, f.V if keep else np.eye(f.Ns))
        return V

    def terms(self, seed):
        """[(factor terms)...] products of factor operators: list of (opstr, idx, J) in the package's form and the matrix"""
        r = random.Random(seed)
        if self.ntot is not None:
            return self.conserved_terms(r)
        out, M = [], np.zeros((self.Ns, self.Ns), dtype=complex)
        for _ in range(r.randint(1, 3)):
            c = r.choice([1.0, -0.4, 0.7])
            per = []
            for f in self.f:
                if r.random() < 0.25:
                    bar = isinstance(f, Lat) and f.d["kind"] == "spinful" and f.s.simple
                    per.append([("|" if bar else "", (), 1.0)])
                else:
                    per.append(f.terms(r.randrange(1 << 30), real=r.random() < 0.3))
            A = np.ones((1, 1))
            for f, t in zip(self.f, per):
                A = np.kron(A, f.matrix(t))
            M = M + c * A
            todo = [("", (), c)]
            for j, t in enumerate(per):
                todo = [((o + "|" if j else "") + o2, i + (() if self.photon and j == len(per) - 1 else tuple(i2)), J * J2)
                        for o, i, J in todo for o2, i2, J2 in t]
            out += todo
        return out, M

    def conserved_terms(self, r):
        L, n = self.f[0], self.ntot
        out, M = [], np.zeros((self.Ns, self.Ns), dtype=complex)
        S = L.s.S
        letters = [c for c in L.s.letters() if c in "zn+-I"]
        G = sectors.group([m for m, _ in L.s.ob]) if L.s.ob else [tuple(range(S.N))]
        if G is None:
            raise Skip()
        for _ in range(r.randint(1, 3)):
            k = r.randint(1, 3)
            op = "".join(r.choice(letters + ["+", "-"]) for _ in range(k))
            idx = [r.randrange(S.N) for _ in range(k)]
            dn = op.count("+") - op.count("-")
            ph = list(("-" * dn if dn > 0 else "+" * (-dn)) + r.choice(["", "", "n", "+-", "-+", "I"]))
            r.shuffle(ph)
            ph = "".join(ph)
            J = r.choice([1.0, -0.6, 0.35])
            both = [(op, idx, ph, J), (hc(op), idx[::-1], hc(ph), J)]
            for o, i, p, J in both:
                for g in G:
                    im = sectors.image((o, i, J), g, S.kind)
                    if im is None:
                        raise Skip()
                    out.append((im[0] + "|" + p, tuple(im[1]), im[2]))
        states = L.s.states
        num = [sum(S.digits(x)) for x in states]
        for o, i, J in out:
            a, p = o.split("|")
            H = oracle.dense(sectors.full_matrix(S, [(a, i, J)], states))
            amp = []
            for m in num:
                x, q = 1.0, n - m
                for c in reversed(p):
                    if c == "n":
                        x *= q
                    elif c == "+":
                        x, q = x * np.sqrt(q + 1.0), q + 1
                    elif c == "-":
                        x, q = (x * np.sqrt(float(q)) if q > 0 else 0.0), q - 1
                amp.append(x)
            H = H * np.array(amp)[None, :]
            M = M + self.W.conj().T @ (H @ self.W)
        return out, M


def photon(d, **kw):
    """photon_basis around the constructor of the description"""
    from quspin.basis import photon_basis
    import quspin.basis as qb
    from bounded import bases
    k = d["kind"]
    kw.update(d.get("kw", {}))
    gen = d["fam"] == "general"
    blocks = {a: (np.array(m), q) for a, (m, q) in d.get("blocks", {}).items()} if gen else dict(d.get("blocks", {}))
    end = "_general" if gen else "_1d"
    if k == "spin12":
        kw["pauli"] = d.get("pauli", 0)
    if k == "spin":
        kw.update(S=bases.spin_name(d["sps"]), pauli=False)
    if k in ("hcb", "boson"):
        kw["sps"] = d.get("sps", 2)
    cls = getattr(qb, {"spin12": "spin_basis", "spin": "spin_basis", "hcb": "boson_basis", "boson": "boson_basis",
                       "fermion": "spinless_fermion_basis"}[k] + end)
    return photon_basis(cls, d["N"], **kw, **blocks)


def make(fs, nph, ntot):
    p = Product(fs, nph, ntot)
    if int(p.b.Ns) != p.Ns:
        raise Bad(f"{p.describe()}: Ns = {p.b.Ns} instead of {p.Ns}")
    return p


def weight(p):
    return int(sum(f.Ns > 1 for f in p.f) > 1)


def static_list(terms, r):
    """terms -> [[opstr, [[J, ...], ...]], ...], grouped at random"""
    out = {}
    for o, i, J in terms:
        out.setdefault(o, []).append([J] + list(i))
    l = [[o, x] for o, x in out.items()]
    r.shuffle(l)
    return l


# ---- cases -----------------------------------------------------------------------------------------
def case_matrix(fs, seed, nph=None, ntot=None):
    from quspin.operators import hamiltonian
    p = make(fs, nph, ntot)
    r = random.Random(seed)
    terms, M = p.terms(seed)
    st = static_list(terms, r)
    from bounded.c15 import quiet
    with quiet():
        H = hamiltonian(st, [], basis=p.b, dtype=np.complex128, check_herm=False, check_symm=False, check_pcon=False)
    oracle.expect(H.toarray(), M, 1e-9, f"{p.describe()} {st}")
    # single strings through Op; without symmetry blocks each one is a matrix on its own
    if not any(f.blocks for f in p.f):
        for o, i, J in r.sample(terms, min(3, len(terms))):
            idx = list(i)
            keep = list(idx)
            ME, row, col = p.b.Op(o, idx, J, np.complex128)
            if idx != keep:
                raise Bad(f"{p.describe()}: Op changed the caller's index list {keep} -> {idx}")
            A = np.zeros((p.Ns, p.Ns), dtype=complex)
            np.add.at(A, (np.asarray(row, dtype=int), np.asarray(col, dtype=int)), ME)
            with quiet():
                H1 = hamiltonian([[o, [[J] + list(i)]]], [], basis=p.b, dtype=np.complex128, check_herm=False, check_symm=False, check_pcon=False)
            oracle.expect(H1.toarray(), A, 1e-9, f"{p.describe()} Op {o} {i}")
    if p.ntot is None:
        if p.b.N != tuple(f.b.N for f in p.f):
            raise Bad(f"{p.describe()}: N = {p.b.N}")
        # lookup
        pairs = [f.index_pairs() for f in p.f]
        if all(pairs) and not any(isinstance(f, Lat) and f.d["kind"] == "spinful" for f in p.f[:-1]):
            for _ in range(10):
                pick = [r.choice(x) for x in pairs]
                want = 0
                for (s, i), f in zip(pick, p.f):
                    want = want * f.Ns + i
                args = sum((s for s, _ in pick), ())
                got = p.b.index(*args)
                if int(got) != want:
                    raise Bad(f"{p.describe()}: index{args} = {got} instead of {want}")
    str(p.b)
    return weight(p)


def case_project(fs, seed, nph=None, ntot=None):
    p = make(fs, nph, ntot)
    r, rs = random.Random(seed), np.random.RandomState(seed)
    kws, flags, n2 = [{}], [None], [None]
    if ntot is not None:
        for extra in (ntot, ntot + r.randint(1, 3)):
            for fp in (True, False):
                kws.append(dict(Nph=extra, full_part=fp)), flags.append((fp,)), n2.append(extra)
    elif nph is not None:
        for fp in (True, False):
            kws.append(dict(full_part=fp)), flags.append((fp, True)), n2.append(None)
    else:
        for l in (True, False):
            for q in (True, False):
                kws.append(dict(full_left=l, full_right=q)), flags.append((l, q)), n2.append(None)
    for kw, fl, m in zip(kws, flags, n2):
        V = p.full(fl, m)
        real = np.abs(V.imag).max() < 1e-12
        G = p.b.get_proj(np.complex128, **kw)
        oracle.expect(oracle.dense(G), V, 1e-9, f"{p.describe()} get_proj{kw}")
        if real:
            oracle.expect(oracle.dense(p.b.get_proj(np.float64, **kw)), V, 1e-9, f"{p.describe()} get_proj{kw} float64")
        for k in (None, 1, 3):
            v = rs.randn(*((p.Ns,) if k is None else (p.Ns, k)))
            if not (real and r.random() < 0.4):
                v = v + 1j * rs.randn(*v.shape)
            if r.random() < 0.3:
                v[rs.rand(*v.shape) < 0.5] = 0
            keep = v.copy()
            for sparse in (True, False):
                for name in ("project_from", "get_vec"):
                    u = getattr(p.b, name)(v, sparse=sparse, **kw)
                    if sparse != sp.issparse(u):
                        raise Bad(f"{p.describe()} {name}(sparse={sparse}) returned {type(u)}")
                    u = oracle.dense(u)
                    if sparse and k is None:
                        u = u.reshape(-1)
                    oracle.expect(u, V @ v, 1e-9, f"{p.describe()} {name}(sparse={sparse}, {kw}) of shape {v.shape}")
            if not np.array_equal(v, keep):
                raise Bad(f"{p.describe()}: project_from changed its input")
            if k:
                vs = r.choice([sp.csr_matrix, sp.csc_matrix])(v)
                oracle.expect(oracle.dense(p.b.project_from(vs, **kw)), V @ v, 1e-9, f"{p.describe()} project_from sparse input")
    return weight(p)


class Q(c14.Setup):
    """states of a product basis split into left and right"""

    def __init__(self, p, seed):
        self.p = p
        self.rng, self.rs = rng, rs = random.Random(seed), np.random.RandomState(seed)
        self.form = f = rng.choice(c14.FORMS)
        self.dt = rng.choice([np.complex128, np.complex128, np.float64, np.complex64, np.float32])
        self.tol = 1e-10 if np.dtype(self.dt).itemsize // (2 if np.dtype(self.dt).kind == "c" else 1) == 8 else 2e-4
        Ns = p.Ns
        one = f in ("pure", "csr1", "csc1", "coo1", "dense1s")
        if Ns == 1 and f in ("square", "mixed", "mixed3", "many"):
            f = self.form = "pure"
        if f in ("mixed", "mixed3") and Ns > 200:
            f = self.form = "pure"
        k = 1 if f == "pure" or one else (Ns if f == "square" and Ns <= 40 else rng.choice([2, 3, 5]))
        self.pure = f not in ("mixed", "mixed3")
        lift = p.lift if p.lift is not None else np.eye(Ns)
        if self.pure:
            psi = c14.vecs(rs, Ns, k, self.dt)
            self.enforce = f == "square" or k == Ns or rng.random() < 0.2
            self.full = lift @ psi
            self.state = (psi[:, 0] if f in ("pure", "dense1s") else psi if f in ("many", "square", "densens") else
                          {"csr1": sp.csr_matrix, "csc1": sp.csc_matrix, "coo1": sp.coo_matrix, "csrn": sp.csr_matrix, "cscn": sp.csc_matrix}[f](psi))
            if f in ("many", "square") and rng.random() < 0.4:
                self.state = np.asfortranarray(self.state)
        else:
            self.enforce = False
            m = 1 if f == "mixed" else rng.choice([1, 2, 3])
            rhos = []
            for _ in range(m):
                x = c14.vecs(rs, Ns, rng.choice([1, 2, 4]), self.dt)
                x = x.dot(x.conj().T)
                rhos.append((x / np.trace(x)).astype(self.dt))
            self.state = rhos[0] if f == "mixed" else np.array(rhos).transpose(1, 2, 0)
            self.fullr = [lift @ x @ lift.T for x in rhos]
        self.sparse_out = f in ("csr1", "csc1", "coo1", "csrn", "cscn", "dense1s", "densens")
        self.sparse_arg = f in ("dense1s", "densens") or (self.sparse_out and rng.random() < 0.5)
        self.side = rng.choice(["left", "right", None])
        self.arg = self.side
        if p.photon and self.side and rng.random() < 0.6:
            self.arg = {"left": "particles", "right": "photons"}[self.side]
        self.ordering = None

    def want(self):
        a, b = self.p.left, self.p.right
        ra, rb = [], []
        if self.pure:
            for x in self.full.T:
                m = x.reshape(a, b)
                ra.append(m @ m.conj().T), rb.append(m.T @ m.conj())
        else:
            for x in self.fullr:
                t = x.reshape(a, b, a, b)
                ra.append(np.einsum("abcb->ac", t)), rb.append(np.einsum("abad->bd", t))
        ra, rb = np.array(ra), np.array(rb)
        return (rb, ra) if self.side == "right" else (ra, rb)

    def describe(self):
        return f"{self.p.describe()} {self.form} {np.dtype(self.dt).char} sub_sys_A={self.arg}"


def case_trace(fs, seed, nph=None, ntot=None):
    p = make(fs, nph, ntot)
    q = Q(p, seed)
    ra, rb = q.want()
    which = q.rng.choice(["A", "B", "both"])
    keep = c14.snapshot(q.state)
    kw = dict(return_rdm=which)
    if q.arg is not None or q.rng.random() < 0.5:
        kw["sub_sys_A"] = q.arg
    out = p.b.partial_trace(q.state, enforce_pure=q.enforce, sparse=q.sparse_arg, **kw)
    out = {"A": (out, None), "B": (None, out), "both": out}[which]
    for X, o, w in (("rdm_A", out[0], ra), ("rdm_B", out[1], rb)):
        if o is not None:
            c14.compare(X, o, w, q)
    if not c14.unchanged(keep, q.state):
        raise Bad(f"partial_trace changed the caller's state: {q.describe()}")
    return int(c14.entangled(ra))


def case_entropy(fs, seed, nph=None, ntot=None):
    p = make(fs, nph, ntot)
    q = Q(p, seed)
    ra, rb = q.want()
    rng = q.rng
    alpha = rng.choice([1.0, 1.0, 2.0, 3, 1])
    which = rng.choice([None, "A", "B", "both"])
    evs = rng.random() < 0.5
    kw = {}
    if q.arg is not None or rng.random() < 0.5:
        kw["sub_sys_A"] = q.arg
    if q.sparse_out:
        kw["sparse_diag"] = rng.random() < 0.5
    keep = c14.snapshot(q.state)
    out = p.b.ent_entropy(q.state, return_rdm=which, enforce_pure=q.enforce, return_rdm_EVs=evs, sparse=q.sparse_arg, alpha=alpha, **kw)
    tol = q.tol * 100
    for X, x, n in (("A", ra, 1), ("B", rb, 1)):
        if X == "B" and which not in ("B", "both") or X == "A" and not q.pure and which == "B":
            continue
        w = np.array([c14.entropy(y, alpha, tol) for y in x])
        g = np.asarray(out["Sent_" + X]).ravel()
        if g.shape != w.shape or not np.abs(g - w).max() <= tol * max(1, np.abs(w).max()):
            raise Bad(f"Sent_{X}: {q.describe()} alpha={alpha} return_rdm={which} {kw}: {g} instead of {w}")
        if which in (X, "both"):
            if "rdm_" + X not in out:
                raise Bad(f"rdm_{X} missing from {sorted(out)}")
            c14.compare("ent_entropy rdm_" + X, out["rdm_" + X], x, q)
        if evs and "p_" + X in out:
            pr = np.sort(np.asarray(out["p_" + X]).reshape(len(x), -1), axis=1)[:, ::-1]
            for i, y in enumerate(x):
                e = np.sort(np.linalg.eigvalsh(y))[::-1]
                k = max(len(e), pr.shape[1])
                if np.abs(np.pad(e, (0, k - len(e))) - np.pad(pr[i], (0, k - pr.shape[1]))).max() > max(q.tol, 1e-10):
                    raise Bad(f"p_{X}: {q.describe()}: {pr[i]} instead of {e}")
    if evs and "p_A" not in out and (q.pure or which != "B"):
        raise Bad(f"p_A missing from {sorted(out)}")
    if not c14.unchanged(keep, q.state):
        raise Bad(f"ent_entropy changed the caller's state: {q.describe()}")
    return int(c14.entangled(ra))


def case_lists(fs, seed, nph=None, ntot=None):
    """Hermiticity check, symmetry check and expanded_form of operator lists with bars"""
    from quspin.operators import hamiltonian
    from bounded.c15 import quiet, accepts
    p = make(fs, nph, ntot)
    r = random.Random(seed)
    terms, M = p.terms(seed)
    st = static_list(terms, r)
    if not accepts(p.b.check_hermitian, st, []):
        raise Bad(f"{p.describe()}: check_hermitian refuses the Hermitian list {st}")
    if not accepts(p.b.check_symm, st, []):
        raise Bad(f"{p.describe()}: check_symm refuses the symmetric list {st}")
    if ntot is not None and not accepts(p.b.check_pcon, st, []):
        raise Bad(f"{p.describe()}: check_pcon refuses the conserving list {st}")
    with quiet():
        es, ed = p.b.expanded_form(st, [])
        H = hamiltonian(es, ed, basis=p.b, dtype=np.complex128, check_herm=False, check_symm=False, check_pcon=False)
    oracle.expect(H.toarray(), M, 1e-9, f"{p.describe()} expanded form of {st}")
    # a list whose matrix is not Hermitian has to be refused
    bad = [(o, i, J) for o, i, J in terms if r.random() < 0.6]
    if bad and not any(f.blocks for f in p.f):
        with quiet():
            B = hamiltonian(static_list(bad, r), [], basis=p.b, dtype=np.complex128, check_herm=False, check_symm=False, check_pcon=False).toarray()
        if np.abs(B - B.conj().T).max() > 1e-8 and accepts(p.b.check_hermitian, static_list(bad, r), []):
            raise Bad(f"{p.describe()}: check_hermitian accepts {bad}, whose matrix is not Hermitian")
    if bad and p.photon and p.f[0].blocks:
        L = p.f[0].s
        if not (L.kind in ("fermion",) and any(x < 0 for m, _ in L.ob for x in m)):
            ho = Osc(9)
            A = 0
            for o, i, J in bad:
                a, b = o.split("|")
                A = A + sp.kron(sectors.full_matrix(L.S, [(a, list(i), J)], L.states), sp.csr_matrix(ho.op(b)))
            broken = any(abs(D).max() > 1e-8 for m, _ in L.ob for G in [sp.kron(L.S.gen_matrix(m, L.states), sp.identity(ho.Ns))]
                         for D in [G @ A - A @ G] if D.nnz)
            if broken and accepts(p.b.check_symm, static_list(bad, r), []):
                raise Bad(f"{p.describe()}: check_symm accepts {bad}, which breaks a symmetry of the blocks")
    return weight(p)
