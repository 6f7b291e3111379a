"""Sector descriptions shared by the bounded parts of C02-C08: a description is a JSON-able dict, from which the package's
basis and the oracle's symmetry blocks are made."""
import numpy as np
from bounded import bases
from bounded.oracle import Sys


def shift(N, d=1):
    return [(i + d) % N for i in range(N)]


def refl(N):
    return list(range(N))[::-1]


def inv(N, pred=lambda i: True):
    return [-(i + 1) if pred(i) else i for i in range(N)]


def compose(m1, m2):
    """apply m1, then m2"""
    out = []
    for i in range(len(m1)):
        j, f = (m1[i], 0) if m1[i] >= 0 else (-(m1[i] + 1), 1)
        k, g = (m2[j], 0) if m2[j] >= 0 else (-(m2[j] + 1), 1)
        out.append(-(k + 1) if f ^ g else k)
    return out


def spinful_map(m, N):
    """simple map of N sites -> map of 2N modes (negative = exchange the two spin species)"""
    if len(m) == 2 * N:
        return list(m)
    i = [x if x >= 0 else -(x + 1) + N for x in m]
    return i + [(x + N) % (2 * N) for x in i]


def make(d):
    """-> (package basis, oracle system, oracle blocks [(map, q)], particle predicate)"""
    d = dict(d)
    fam, kind, N = d["fam"], d["kind"], d["N"]
    sps, pauli = d.get("sps", 2), d.get("pauli", 0)
    S = bases.system(kind, N, sps, pauli)
    kw = dict(d.get("kw", {}))
    Np = d.get("Np")
    if Np is not None:
        if kind == "spinful":
            Np = tuple(Np) if not isinstance(Np[0], (list, tuple)) else [tuple(x) for x in Np]
        kw[bases.PKEY[kind]] = Np
    blocks = d.get("blocks", {})
    if fam == "general":
        b = bases.general(kind, N, sps=sps, pauli=pauli, blocks={k: (m, q) for k, (m, q) in blocks.items()}, **kw)
        ob = [(spinful_map(m, N) if kind == "spinful" else m, q) for m, q in blocks.values()]
    else:
        b = bases.one_d(kind, N, sps=sps, pauli=pauli, **kw, **blocks)
        ob = one_d_blocks(kind, N, blocks)
    return b, S, ob, pred(d)


def one_d_blocks(kind, L, bl):
    a = bl.get("a", 1)
    out = []
    lift = (lambda m: spinful_map(m, L)) if kind == "spinful" else (lambda m: m)
    q = lambda s: 0 if s == 1 else 1
    if bl.get("kblock") is not None:
        k = bl["kblock"]
        mixed = any(bl.get(x) is not None for x in ("pblock", "pzblock", "psblock", "pcblock"))
        # reflection maps k to -k: such a sector is the parity eigenspace of the k and -k sectors together
        out.append((lift(shift(L, -a)), [k, -k] if mixed else -k))
    if bl.get("pblock") is not None:
        out.append((lift(refl(L)), q(bl["pblock"])))
    z = inv(L) if kind != "spinful" else spinful_map(inv(L), L)
    for key in ("zblock", "sblock", "cblock"):
        if bl.get(key) is not None:
            out.append((z, q(bl[key])))
    for key in ("pzblock", "psblock", "pcblock"):
        if bl.get(key) is not None:
            out.append((compose(lift(refl(L)), z), q(bl[key])))
    for key in ("zAblock", "cAblock"):
        if bl.get(key) is not None:
            out.append((inv(L, lambda i: i % 2 == 0), q(bl[key])))
    for key in ("zBblock", "cBblock"):
        if bl.get(key) is not None:
            out.append((inv(L, lambda i: i % 2 == 1), q(bl[key])))
    return out


def pred(d):
    """predicate on digit tuples: the particle sector"""
    kind, N, Np = d["kind"], d["N"], d.get("Np")
    docc = d.get("kw", {}).get("double_occupancy", True)
    if kind == "spinful":
        sets = None if Np is None else {tuple(Np)} if not isinstance(Np[0], (list, tuple)) else {tuple(x) for x in Np}

        def p(ds):
            if not docc and any(ds[i] and ds[i + N] for i in range(N)):
                return False
            return sets is None or (sum(ds[:N]), sum(ds[N:])) in sets
        return p
    if Np is None:
        return lambda ds: True
    s = {Np} if isinstance(Np, int) else set(Np)
    return lambda ds: sum(ds) in s


def group(maps, limit=200):
    """closure of the given signed site maps"""
    n = len(maps[0]) if maps else 0
    seen = [tuple(range(n))] if maps else []
    i = 0
    while i < len(seen):
        for m in maps:
            g = tuple(compose(seen[i], m))
            if g not in seen:
                seen.append(g)
                if len(seen) > limit:
                    return None
        i += 1
    return seen


def image(term, g, kind):
    """conjugate an operator term (string over modes, modes, J) with a signed site map; None if it has no such form"""
    op, idx, J = term
    out, sites = "", []
    for ch, i in zip(op, idx):
        j = g[i]
        if j < 0:
            j = -(j + 1)
            if ch == "n":
                return None
            if ch in "zy":
                J = -J
            if ch in "+-":
                if kind == "fermion" and i % 2:
                    J = -J
                ch = "-" if ch == "+" else "+"
        out += ch
        sites.append(j)
    return out, sites, J


def conj_term(term):
    op, idx, J = term
    sw = {"+": "-", "-": "+"}
    return "".join(sw.get(c, c) for c in op[::-1]), list(idx)[::-1], np.conj(J)


def op_list(S, ob, rng, letters, hermitian=True, conserve=None, nterms=2, spread=True):
    """random operator list over the modes of S, symmetrised over the group generated by the blocks' maps;
    conserve: list of mode groups in which particles are conserved"""
    maps = [m for m, _ in ob]
    G = group(maps) if maps else [tuple(range(S.N))]
    if G is None:
        return None
    terms = []
    inverted = any(x < 0 for g in G for x in g)
    for _ in range(nterms):
        n = rng.randrange(1, 4)
        lt = letters.replace("n", "") if inverted else letters
        if conserve:
            diag = "".join(c for c in lt if c in "Izn")
            op, idx = "", []
            for grp in conserve:
                if rng.random() < 0.8:
                    op += rng.choice(["+-", "-+"])
                    idx += [rng.choice(grp), rng.choice(grp)]
            for _ in range(rng.randrange(2)):
                op += rng.choice(diag)
                idx.append(rng.randrange(S.N))
            if not op:
                op, idx = rng.choice(diag), [rng.randrange(S.N)]
        else:
            op = "".join(rng.choice(lt) for _ in range(n))
            idx = [rng.randrange(S.N) for _ in range(n)]
            if S.kind == "fermion" and sum(c in "+-" for c in op) % 2:
                op += rng.choice("+-")
                idx.append(rng.randrange(S.N))
        J = rng.choice([1.0, -0.6, 0.35, complex(0.5, rng.choice([-0.8, 0.3]))])
        ts = [(op, idx, J)]
        if hermitian:
            ts.append(conj_term(ts[0]))
        for t in ts:
            for g in G:
                im = image(t, g, S.kind)
                if im is None:
                    return None
                terms.append(im)
    return terms


def to_static(terms, fam, kind, N, simple=True):
    """operator terms over modes -> package operator list; for spinful bases with the bar"""
    out = []
    for op, idx, J in terms:
        if kind == "spinful" and simple:
            l = [i for i, s in enumerate(idx) if s < N]
            r = [i for i, s in enumerate(idx) if s >= N]
            # moving the up operators to the left of the down ones: sign of reordering the fermion operators
            order = l + r
            sg = 1
            ferm = [i for i in order if op[i] in "+-"]
            for a in range(len(ferm)):
                for b in range(a):
                    if ferm[b] > ferm[a]:
                        sg = -sg
            out.append(["".join(op[i] for i in l) + "|" + "".join(op[i] for i in r),
                        [[sg * J] + [idx[i] for i in l] + [idx[i] - N for i in r]]])
        else:
            out.append([op, [[J] + list(idx)]])
    return out


def conserved_groups(d):
    if d["kind"] == "spinful":
        return [list(range(d["N"])), list(range(d["N"], 2 * d["N"]))]
    return [list(range(d["N"]))]


def full_matrix(S, terms, states):
    import scipy.sparse as sp
    ind = {s: i for i, s in enumerate(states)}
    R, C, V = [], [], []
    for op, idx, J in terms:
        for c, s in enumerate(states):
            r = S.apply(op, idx, s, J)
            if r is not None and r[1] in ind:
                R.append(ind[r[1]]), C.append(c), V.append(r[0])
    return sp.csr_matrix((np.array(V, dtype=complex), (R, C)), shape=(len(states),) * 2)


def small(tier, rng, kinds=None):
    """a list of sector descriptions with full dimension below about 1000"""
    out = []

    def add(**d):
        out.append(d)
    G = [("spin12", 2), ("hcb", 2), ("boson", 3), ("spin", 3), ("spin", 4), ("fermion", 2), ("spinful", 2)]
    for kind, sps in G:
        sizes = {"spin12": [4, 5, 6, 8], "hcb": [4, 6, 7], "boson": [3, 4, 5], "spin": [4, 5] if sps == 3 else [3, 4],
                 "fermion": [4, 5, 6, 8], "spinful": [2, 3, 4]}[kind]
        for N in sizes:
            nps = {"spinful": [None, [1, 1], [N // 2, 1], [[0, 1], [1, 1]], [N, 0], [[1, 0], [0, 1]]]}.get(
                kind, [None, N // 2, 1, [0, 2], N if sps > 2 else N - 1, 0])
            for Np in nps:
                base = dict(fam="general", kind=kind, sps=sps, N=N, **({} if Np is None else {"Np": Np}))
                add(**base)
                syms = {"T": shift(N), "P": refl(N)}
                if N % 2 == 0 and N > 2:
                    syms["T2"] = shift(N, 2)
                    syms["X"] = [i ^ 1 for i in range(N)]
                for nm, m in syms.items():
                    per = Sys("hcb", N).period(m)
                    for q in range(per) if tier == "thorough" else sorted({0, 1 % per, per // 2, per - 1}):
                        add(**base, blocks={nm: [m, q]})
                # composite: T2 & X commute when N even; T with q in {0, pi} & P
                for qt in (0, N // 2) if N % 2 == 0 else (0,):
                    for qp in (0, 1):
                        add(**base, blocks={"T": [shift(N), qt], "P": [refl(N), qp]})
                balanced = Np is None or (kind != "spinful" and isinstance(Np, int) and 2 * Np == (sps - 1) * N)
                if kind == "spinful":
                    if Np is None or (isinstance(Np[0], int) and Np[0] == Np[1]) or (not isinstance(Np[0], int)):
                        if Np is None or not (not isinstance(Np[0], int) and [0, 1] in Np and [1, 0] not in Np):
                            for q in (0, 1):
                                add(**base, blocks={"Z": [inv(N), q]})
                                add(**base, blocks={"Z": [inv(N), q], "T": [shift(N), 1 % N]})
                elif balanced and kind != "fermion":
                    for q in (0, 1):
                        add(**base, blocks={"Z": [inv(N), q]})
                        add(**base, blocks={"Z": [inv(N), q], "T": [shift(N), N - 1]})
                        add(**base, blocks={"Z": [inv(N), q], "P": [refl(N), 1 - q]})
                        add(**base, blocks={"Z": [inv(N), q], "P": [refl(N), q], "T": [shift(N), 0]})
                        add(**base, blocks={"PZ": [compose(refl(N), inv(N)), q]})
                elif kind == "fermion" and balanced:
                    for q in (0, 1):
                        add(**base, blocks={"PH": [inv(N), q]})
                if Np is None and kind not in ("fermion", "spinful"):
                    for q in (0, 1):
                        add(**base, blocks={"ZA": [inv(N, lambda i: i % 2 == 0), q]})
                        add(**base, blocks={"ZA": [inv(N, lambda i: i % 2 == 0), q], "ZB": [inv(N, lambda i: i % 2), 1 - q]})
                        add(**base, blocks={"Z0": [inv(N, lambda i: i == 0), q], "Z1": [inv(N, lambda i: i == N - 1), q]})
        # random site permutation with its own period
        for _ in range(3):
            N = sizes[-1]
            p = list(range(N))
            rng.shuffle(p)
            per = Sys("hcb", N).period(p)
            if per > 1:
                add(fam="general", kind=kind, sps=sps, N=N, blocks={"R": [p, rng.randrange(per)]})
        if kind == "spinful":
            for N in (2, 3):
                add(fam="general", kind=kind, N=N, kw={"double_occupancy": False})
                add(fam="general", kind=kind, N=N, Np=[1, 1], kw={"double_occupancy": False})
                add(fam="general", kind=kind, N=N, Np=[1, 1], kw={"double_occupancy": False}, blocks={"T": [shift(N), 0]})
                adv = [(i + 1) % N for i in range(N)] + [N + (i + 1) % N for i in range(N)]
                add(fam="general", kind=kind, N=N, kw={"simple_symm": False}, blocks={"T": [adv, 1]})
                add(fam="general", kind=kind, N=N, kw={"simple_symm": False}, blocks={"U": [[(i + 1) % N for i in range(N)] +
                                                                                     list(range(N, 2 * N)), 1]})
    # one-dimensional bases
    for kind, sps in [("spin12", 2), ("hcb", 2), ("boson", 3), ("spin", 3), ("spin", 4), ("fermion", 2), ("spinful", 2)]:
        sizes = {"spin12": [4, 5, 6, 8], "hcb": [4, 6], "boson": [3, 4, 5], "spin": [4] if sps == 3 else [3, 4],
                 "fermion": [4, 5, 6, 8], "spinful": [2, 3, 4]}[kind]
        for N in sizes:
            nps = {"spinful": [None, [1, 1], [N // 2, 1], [[0, 1], [1, 1]]]}.get(
                kind, [None, N // 2, 1, [0, 2], N if sps > 2 else N - 1])
            for Np in nps:
                base = dict(fam="one_d", kind=kind, sps=sps, N=N, **({} if Np is None else {"Np": Np}))
                add(**base)
                zk, pzk = ("sblock", "psblock") if kind == "spinful" else ("zblock", "pzblock") if kind in ("spin12", "spin") \
                    else ("cblock", "pcblock")
                zA, zB = ("zAblock", "zBblock") if kind in ("spin12", "spin") else ("cAblock", "cBblock")
                ks = range(N) if N <= 4 or tier == "thorough" else sorted({0, 1, N // 2, N - 1})
                for k in ks:
                    add(**base, blocks={"kblock": k})
                if N % 2 == 0 and N > 2:
                    for k in range(min(N // 2, 3)):
                        add(**base, blocks={"kblock": k, "a": 2})
                for p in (1, -1):
                    add(**base, blocks={"pblock": p})
                    for k in ks:
                        add(**base, blocks={"kblock": k, "pblock": p})
                    if N == 8:
                        add(**base, blocks={"kblock": 1, "pblock": p, "a": 2})
                zok = (Np is None or (isinstance(Np, int) and 2 * Np == (sps - 1) * N)) if kind != "spinful" else \
                    (Np is None or (isinstance(Np[0], int) and Np[0] == Np[1] and 2 * Np[0] == N))
                if zok and kind not in ("fermion", "boson") and not (Np is not None and (sps - 1) * N % 2):
                    for z in (1, -1):
                        add(**base, blocks={zk: z})
                        add(**base, blocks={pzk: z})
                        for p in (1, -1):
                            add(**base, blocks={zk: z, "pblock": p})
                        for k in ks:
                            add(**base, blocks={zk: z, "kblock": k})
                            add(**base, blocks={pzk: z, "kblock": k})
                            for p in (1, -1):
                                add(**base, blocks={zk: z, "kblock": k, "pblock": p})
                        if N == 4:
                            add(**base, blocks={zk: z, "kblock": 1, "a": 2})
                    if Np is None and N % 2 == 0 and kind not in ("spinful",):
                        for z in (1, -1):
                            add(**base, blocks={zA: z})
                            add(**base, blocks={zB: z})
                            add(**base, blocks={zA: z, zB: -z})
                            for k in range(N // 2):
                                add(**base, blocks={zA: z, "kblock": k, "a": 2})
                                add(**base, blocks={zB: z, "kblock": k, "a": 2})
                                add(**base, blocks={zA: z, zB: z, "kblock": k, "a": 2})
    return out
