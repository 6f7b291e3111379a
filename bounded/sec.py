"""One symmetry sector, package side and oracle side, cached: used by C04-C08."""
import functools, json, random
import numpy as np
import scipy.sparse as sp
from bounded import bases, oracle, sectors
from bounded.harness import Bad, Skip

_cache = {}


def sector(d):
    k = json.dumps(d, sort_keys=True)
    if k not in _cache:
        if len(_cache) > 30:
            _cache.clear()
        _cache[k] = Sector(d)
    return _cache[k]


def finding_key(d):
    b = d.get("blocks", {})
    if d["fam"] == "one_d" and d["kind"] == "spin" and d["sps"] % 2 == 1 and all(x in b for x in ("zAblock", "zBblock", "kblock")):
        return "integer_spin_zA_zB_kblock"
    return None


class Sector:
    def __init__(self, d):
        self.d = d
        self.b, self.S, self.ob, self.pred = sectors.make(d)
        self.N, self.kind = d["N"], d["kind"]
        self.simple = d.get("kw", {}).get("simple_symm", True)

    @functools.cached_property
    def states(self):
        Np = self.d.get("Np")
        if Np is None:
            if self.S.sps ** self.S.N > 1 << 16:
                raise Skip()
            return self.S.pcon_states(self.pred)
        N, sps = self.N, self.S.sps
        if self.kind == "spinful":
            nps = [Np] if not isinstance(Np[0], (list, tuple)) else Np
            out = {(u << N) | v for nu, nd in {tuple(x) for x in nps} for u in sums(N, nu, 2) for v in sums(N, nd, 2)}
            return [s for s in sorted(out, reverse=True) if self.pred(self.S.digits(s))]
        return sorted({x for n in ({Np} if isinstance(Np, int) else set(Np)) for x in sums(N, n, sps)}, reverse=True)

    @functools.cached_property
    def P(self):
        P = self.S.projector(self.ob, self.states)
        if P is None:
            raise Skip()
        return np.asarray(P if not sp.issparse(P) else P.todense())

    @functools.cached_property
    def listed(self):
        """the package's states as ints"""
        return [int(s) for s in self.b.states]

    @functools.cached_property
    def reps(self):
        """oracle: representatives (largest of the orbit) with multiplicity = rank of the projector on the orbit, decreasing"""
        P, ind, done, out = self.P, {s: i for i, s in enumerate(self.states)}, set(), []
        for s in self.states:
            if s in done:
                continue
            o = sorted(self.S.orbit(self.ob, s))
            done |= set(o)
            ii = [ind[x] for x in o]
            rank = int(round(np.trace(P[np.ix_(ii, ii)]).real))
            out += [max(o)] * rank
        return sorted(out, reverse=True)

    @functools.cached_property
    def V(self):
        """isometry sector -> particle space.  Columns from the oracle where the convention fixes them (P|rep> normalised), from
        get_proj for semi-momentum bases (several states per representative)."""
        reps = self.listed
        ind = {s: i for i, s in enumerate(self.states)}
        if len(set(reps)) == len(reps) and all(r in ind and abs(self.P[ind[r], ind[r]]) > 1e-10 for r in reps) and not self.mixed:
            cols = [self.P[:, ind[r]] / np.sqrt(self.P[ind[r], ind[r]].real) for r in reps]
            return np.array(cols).T.reshape(len(self.states), len(reps))
        return self.isometry()

    @functools.cached_property
    def mixed(self):
        return any(isinstance(q, list) for _, q in self.ob)

    @functools.cached_property
    def full_index(self):
        top = self.S.sps ** self.S.N - 1
        return [top - s for s in self.states]

    def rows(self, A):
        """restrict full-space rows to the particle space; everything else has to vanish"""
        A = oracle.dense(A)
        full = self.S.sps ** self.S.N
        if A.shape[0] != full:
            raise Bad(f"full-space object has {A.shape[0]} rows instead of {full}")
        mask = np.ones(full, bool)
        mask[self.full_index] = False
        if np.any(np.abs(A[mask]) > 1e-12):
            raise Bad("non-zero amplitude outside the particle sector")
        return A[self.full_index]

    def isometry(self):
        """the package's projector, rows = particle space"""
        Np = self.d.get("Np")
        if self.S.sps ** self.S.N <= 1 << 16:
            return self.rows(self.b.get_proj(np.complex128))
        single = isinstance(Np, int) or (self.kind == "spinful" and not isinstance(Np[0], (list, tuple)))
        if not single:
            raise Skip()        # the package offers this projector for a single particle sector only
        V = oracle.dense(self.b.get_proj(np.complex128, pcon=True))
        if V.shape[0] != len(self.states):
            raise Bad(f"projector has {V.shape[0]} rows, the particle space has {len(self.states)} states")
        return V

    def letters(self):
        L = bases.LETTERS[self.kind]
        if self.kind == "spin12":
            L = L.replace("n", "")
        if self.d["fam"] == "one_d" and self.kind == "hcb":
            L = L.replace("x", "").replace("y", "")
        return L

    def terms(self, seed, hermitian=True, symmetric=True, nterms=2, real=False):
        rng = random.Random(seed)
        cons = sectors.conserved_groups(self.d) if self.d.get("Np") is not None or not self.d.get("kw", {}).get(
            "double_occupancy", True) else None
        L = self.letters()
        if cons:
            L = L.replace("x", "").replace("y", "")
        if not self.d.get("kw", {}).get("double_occupancy", True):
            # operators are projected onto singly occupied sites
            pass
        for k in range(12):
            t = sectors.op_list(self.S, self.ob if symmetric else [], rng, L, hermitian=hermitian, conserve=cons, nterms=nterms)
            if t is not None:
                if real:
                    t = [(o, i, float(np.real(J))) for o, i, J in t]
                return t
        raise Skip()

    def static(self, terms):
        return sectors.to_static(terms, self.d["fam"], self.kind, self.N, self.simple)

    def H(self, terms, check=True):
        H = sectors.full_matrix(self.S, terms, self.states)
        if check:
            for m, _ in self.ob:
                G = self.S.gen_matrix(m, self.states)
                D = G @ H - H @ G
                if D.nnz and abs(D).max() > 1e-9:
                    raise Skip()
        return H


def sums(N, n, sps):
    """all N-digit integers in base sps with digit sum n"""
    if n < 0 or n > N * (sps - 1):
        return []
    if N == 0:
        return [0]
    out = []
    for d in range(min(n, sps - 1), -1, -1):
        out += [d * sps ** (N - 1) + r for r in sums(N - 1, n - d, sps)]
    return out


def long_descriptions(rng, n):
    """chains too long for the full space: one or two particles or holes, random symmetry blocks"""
    sh, rf, iv, cp = sectors.shift, sectors.refl, sectors.inv, sectors.compose
    out = []
    while len(out) < n:
        kind, sps = rng.choice([("spin12", 2), ("hcb", 2), ("boson", 3), ("spin", 3), ("spin", 4), ("fermion", 2), ("spinful", 2)])
        fam = rng.choice(["general", "one_d"])
        if sps > 2:
            N = rng.choice([6, 8, 12, 16, 20])
            if sps == 3:
                N = rng.choice([6, 10, 15, 20, 24, 32, 36])
        elif kind == "spinful":
            N = rng.choice([5, 8, 10, 15, 16] if fam == "one_d" else [5, 10, 15, 16, 17, 24, 30, 31])
        else:
            N = rng.choice([12, 16, 20, 24, 30, 31, 32, 33, 36, 40, 48, 62, 63])
        if (sps ** (2 * N if kind == "spinful" else N)).bit_length() > 63:
            continue
        few = 1 if N > 24 else rng.choice([1, 2])
        if fam == "general" and N == 32 and kind in ("fermion",):
            few = rng.choice([1, 2])
        if kind == "spinful":
            Np = rng.choice([[1, 1], [1, 0], [0, 1]] + ([[2, 1], [1, 2], [N - 1, 1]] if N <= 10 else [[N, 1], [1, N]]))
        else:
            top = (sps - 1) * N
            Np = rng.choice([few, few, top - few, [0, few]] + ([[few, 3]] if N <= 12 else []))
        base = dict(fam=fam, kind=kind, sps=sps, N=N, Np=Np)
        if fam == "general":
            ev = N % 2 == 0
            opts = [{}, {"T": [sh(N), rng.randrange(N)]}, {"P": [rf(N), rng.randrange(2)]},
                    {"T": [sh(N), 0], "P": [rf(N), rng.randrange(2)]}]
            if ev:
                opts += [{"T": [sh(N), N // 2], "P": [rf(N), rng.randrange(2)]},
                         {"X": [[i ^ 1 for i in range(N)], rng.randrange(2)], "T2": [sh(N, 2), rng.randrange(N // 2)]}]
            p = list(range(N))
            for _ in range(rng.randrange(1, N // 2)):
                i, j = rng.randrange(N), rng.randrange(N)
                if p[i] == i and p[j] == j:
                    p[i], p[j] = j, i
            opts.append({"R": [p, rng.randrange(2)]})
            a, b = (6, N // 6) if N % 6 == 0 else (5, N // 5) if N % 5 == 0 else (4, N // 4) if N % 4 == 0 else (1, N)
            X = [(i // a) * a + (i % a + 1) % a for i in range(N)]
            Y = [(i + a) % N for i in range(N)]
            if a > 1 and b > 1:
                opts.append({"kx": [X, rng.randrange(a)], "ky": [Y, rng.randrange(b)]})
            d = dict(base, blocks=rng.choice(opts))
            d["blocks"] = {k: v for k, v in d["blocks"].items() if k != "R" or v[0] != list(range(N))}
        else:
            opts = [{}, {"kblock": rng.randrange(N)}, {"pblock": rng.choice([1, -1])},
                    {"kblock": rng.choice([0, N // 2 if N % 2 == 0 else 0, rng.randrange(N)]), "pblock": rng.choice([1, -1])}]
            for a in (2, 3, 5):
                if N % a == 0 and N > a:
                    opts.append({"kblock": rng.randrange(N // a), "a": a})
            d = dict(base, blocks=rng.choice(opts))
        out.append(d)
    return out


def descriptions(tier, rng, fraction=1.0, pick=None):
    out = [d for d in sectors.small(tier, rng) if pick is None or pick(d)]
    if fraction < 1:
        out = [d for d in out if rng.random() < fraction]
    return out
