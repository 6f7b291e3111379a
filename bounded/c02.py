"""C02 bounded part: symmetry maps act as declared, at every chain length (32/64-bit words and wide integers)."""
import numpy as np
from bounded import bases, sec, sectors
from bounded.harness import Bad, Skip

RULE = "a case is one site map (or pair of commuting maps) on one basis; non-trivial when some state moves"


def cases(tier, rng):
    out = []
    n = 900 if tier == "quick" else 8000
    for _ in range(n):
        kind, sps = rng.choice([("spin12", 2), ("hcb", 2), ("boson", 3), ("boson", 4), ("boson", 7), ("spin", 3), ("spin", 5),
                                ("fermion", 2), ("fermion", 2), ("spinful", 2), ("spinful", 2)])
        if sps == 2:
            N = rng.choice([2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 20, 31, 32, 33, 40, 48, 63, 64] + [65, 100, 128, 200, 256, 300])
            if kind == "spinful":
                N = max(2, N // 2)
        else:
            N = rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 24, 32, 40])
        if sps > 2 and sps ** N >= 1 << 64:
            N = rng.randrange(2, 20)
        style = rng.choice(["perm", "inv", "mixed", "shift", "refl", "all", "sub", "pair"])
        if kind == "spinful":
            mode = rng.choice(["simple", "adv"])
        else:
            mode = ""
        out.append(dict(name="map", kind=kind, sps=sps, N=N, style=style, mode=mode, seed=rng.randrange(1 << 30)))
    for _ in range(60):
        out.append(dict(name="reject", kind=rng.choice(["spin12", "boson", "fermion", "spinful"]), N=rng.randrange(2, 8),
                        seed=rng.randrange(1 << 30)))
    # one-dimensional bases: single generators
    for kind, sps, Ls in (("spin12", 2, range(2, 13)), ("hcb", 2, range(2, 11)), ("boson", 3, range(2, 7)), ("spin", 3, range(2, 7)),
                          ("spin", 4, range(2, 6)), ("fermion", 2, range(2, 12)), ("spinful", 2, range(2, 6))):
        for L in Ls:
            blocks = [{"pblock": s} for s in (1, -1)] + [{"kblock": k} for k in {0, 1, L // 2, L - 1}]
            blocks += [{"kblock": k, "a": a} for a in range(2, L) if L % a == 0 for k in {0, 1}]
            if kind == "spin12" or kind == "spin":
                blocks += [{x: s} for x in ("zblock", "pzblock") for s in (1, -1)]
                blocks += [{x: s} for x in ("zAblock", "zBblock") for s in (1, -1) if L % 2 == 0]
            if kind == "hcb":
                blocks += [{x: s} for x in ("cblock", "pcblock") for s in (1, -1)]
                blocks += [{x: s} for x in ("cAblock", "cBblock") for s in (1, -1) if L % 2 == 0]
            for b in blocks:
                out.append(dict(name="one_d", d=dict(fam="one_d", kind=kind, sps=sps, N=L, blocks=b)))
            if kind == "spinful":
                for x in ("sblock", "psblock"):
                    for s in (1, -1):
                        for n in range(1, L + 1):
                            out.append(dict(name="one_d", d=dict(fam="one_d", kind=kind, sps=2, N=L, Np=[n, n], blocks={x: s})))
            else:
                for Np in {1, 2, L - 1}:
                    for b in blocks[:6]:
                        out.append(dict(name="one_d", d=dict(fam="one_d", kind=kind, sps=sps, N=L, Np=Np, blocks=b)))
    for d in sec.long_descriptions(rng, 150 if tier == "quick" else 1000):
        if d["fam"] == "one_d":
            out.append(dict(name="one_d", d=d))
    return out


def site_map(rs, n, style, flip=True):
    p = list(rs.permutation(n))
    p = [int(x) for x in p]
    if style == "perm":
        pass
    elif style == "inv":                     # random pair swaps
        p = list(range(n))
        q = [int(x) for x in rs.permutation(n)]
        for i in range(0, n - 1, 2):
            if rs.rand() < 0.7:
                p[q[i]], p[q[i + 1]] = q[i + 1], q[i]
    elif style == "shift":
        d = int(rs.randint(1, n))
        p = [(i + d) % n for i in range(n)]
    elif style == "refl":
        p = list(range(n))[::-1]
    elif style in ("all", "sub"):
        p = list(range(n))
    m = list(p)
    if flip and style in ("mixed", "all", "sub"):
        for i in range(n):
            if style == "all" or (rs.rand() < 0.5):
                m[i] = -(p[i] + 1)
    return m


def case_map(kind, sps, N, style, mode, seed):
    rs = np.random.RandomState(seed % (1 << 31))
    S = bases.system(kind, N, sps, 0)
    M = S.N
    if mode == "adv":
        n = 2 * N
        kw = dict(simple_symm=False)
    else:
        n = N
        kw = {}
    maps = [site_map(rs, n, style)]
    if style == "pair":
        a = next((a for a in range(2, n) if n % a == 0), 1)
        maps = [[(i + a) % n for i in range(n)], list(range(n))[::-1]] if rs.rand() < 0.5 else \
               [[(i // a) * a + (i + 1) % a for i in range(n)], [(i + a) % n for i in range(n)]]
    maps = [m for m in maps if m != list(range(n))]
    full = [sectors.spinful_map(m, N) if kind == "spinful" and mode != "adv" else m for m in maps]
    pers = [S.period(m) for m in full]
    if not maps or np.prod([float(p) for p in pers]) > 400:
        raise Skip()
    blocks = {f"g{i}": (m, 0) for i, m in enumerate(maps)}
    try:
        b = bases.general(kind, N, sps=sps, pauli=0, blocks=blocks, make_basis=False, block_order=list(blocks), **kw)
    except ValueError as e:
        if "cyclic" in str(e) or "map" in str(e) or "period" in str(e):
            raise Skip()
        raise
    wide = M > 64 and sps == 2
    k = 24
    if sps ** M <= 4096:
        st = list(range(sps ** M))
    else:
        st = []
        for _ in range(k):
            dens = rs.choice([0.05, 0.5, 0.95])
            st.append(S.number([int(x) for x in (rs.randint(0, sps, M) if sps > 2 else rs.rand(M) < dens)]))
        st += [0, sps ** M - 1, 1, sps ** (M - 1)]
    if wide:
        from quspin.basis.basis_general._basis_general_core.general_basis_utils import (python_int_to_basis_int,
                                                                                         basis_int_to_python_int)
        arr = np.concatenate([np.atleast_1d(python_int_to_basis_int(s, b._basis.dtype)) for s in st])
        back = lambda a: [int(basis_int_to_python_int(x)) for x in a]
    else:
        arr = np.array(st, dtype=b._basis.dtype)
        back = lambda a: [int(x) for x in a]
    a0 = arr.copy()
    r, g, sg = b.representative(arr, return_g=True, return_sign=True)
    if arr.tobytes() != a0.tobytes():
        raise Bad("representative() changed its input")
    R = back(r)
    if back(b.representative(arr)) != R:
        raise Bad("representative() depends on return_g/return_sign")
    moved = 0
    for s, t, gg, s1 in zip(st, R, np.asarray(g).tolist(), np.asarray(sg).tolist()):
        o = orbit(S, full, s)
        if t != max(o):
            raise Bad(f"representative of {s} is {t} instead of {max(o)} (maps {maps}, N={N})")
        for mm, cc in ((full, gg), (full, gg[::-1]), (full[::-1], gg), (full[::-1], gg[::-1])):
            x, sign = s, 1                   # the columns of g and the generators may be listed in either order
            for m, c in zip(mm, cc):
                for _ in range(c):
                    q, x = S.move(m, x)
                    sign *= q
            if x == t and sign == s1:
                break
        if x != t:
            raise Bad(f"g={gg} does not take {s} to its representative {t} (maps {maps})")
        if sign != s1:
            raise Bad(f"sign of {s} -> {t} under g={gg} is {s1} instead of {sign} (maps {maps})")
        moved += len(o) > 1
    return int(moved > 0)


def orbit(S, full, s):
    seen, todo = {s}, [s]
    while todo:
        x = todo.pop()
        for m in full:
            y = S.move(m, x)[1]
            if y not in seen:
                seen.add(y)
                todo.append(y)
                if len(seen) > 5000:
                    raise Skip()
    return seen


def case_reject(kind, N, seed):
    """a map that is no signed permutation of the sites is refused"""
    rs = np.random.RandomState(seed % (1 << 31))
    m = list(range(N))
    i, j = rs.choice(N, 2, replace=False)
    m[i] = m[j] if rs.rand() < 0.7 or kind == "spinful" else N + int(rs.randint(0, 3))
    if rs.rand() < 0.2:
        m = list(range(N - 1))[::-1]
    try:
        bases.general(kind, N, sps=3 if kind == "boson" else 2, pauli=0, blocks={"g": (m, 0)})
    except Exception:
        return 1
    raise Bad(f"the map {m} on {N} sites was accepted")


def case_one_d(d):
    try:
        s = sec.sector(d)
    except ValueError as e:
        if "half" in str(e):
            raise Skip()      # documented refusal
        raise
    if sec.finding_key(d):
        raise Skip()
    if list(s.reps) != s.listed:
        a, b = set(s.reps), set(s.listed)
        raise Bad(f"states {sorted(b - a)[:4]} should not, {sorted(a - b)[:4]} should be listed under the map {s.ob}")
    if not s.listed:
        return 0
    W = s.isometry()
    for m, q in s.ob:
        G = s.S.gen_matrix(m, s.states)
        p = s.S.period(m)
        if isinstance(q, list):
            continue
        D = G @ W - np.exp(2j * np.pi * q / p) * W
        if np.abs(D).max() > 1e-9:
            i, j = np.unravel_index(int(np.argmax(np.abs(D))), D.shape)
            raise Bad(f"state {s.listed[j]} is no eigenvector of the map {m} with eigenvalue exp(2 pi i {q}/{p})")
    return 1
