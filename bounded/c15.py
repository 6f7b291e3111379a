"""C15 bounded part: expanded_form and the Hermiticity, particle-number and symmetry checks against dense matrices."""
import builtins, contextlib, io, random, warnings
import numpy as np
from bounded import oracle, sec, sectors
from bounded.harness import Bad, Skip, note

RULE = "a case is (sector, operator lists); non-trivial when the operator is non-zero"


def cases(tier, rng):
    k = 1 if tier == "quick" else 5
    ds = [d for d in sec.descriptions(tier, rng) if (4 if d["kind"] == "spinful" else d.get("sps", 2)) ** d["N"] <= 1100
          and d.get("kw", {}).get("double_occupancy", True)]
    rng.shuffle(ds)
    out = []
    for d in ds[:700 * k]:
        for name in ("expanded", "herm", "pcon", "symm"):
            n = (3 if name == "symm" else 1) if d.get("blocks") else (0 if name == "symm" else 1)
            if name == "pcon" and not single_sector(d):
                continue
            out += [dict(name=name, d=d, seed=rng.randrange(1 << 30)) for _ in range(n)]
    return out


def single_sector(d):
    """the package checks particle conservation for bases of one particle number only"""
    Np = d.get("Np")
    if Np is None:
        return False
    if d["kind"] == "spinful":
        return d["fam"] == "one_d" and not isinstance(Np[0], (list, tuple))
    return not isinstance(Np, (list, tuple))


def f1(t, a):
    return np.cos(a * t)


def f2(t, a):
    return 1.0 + a * t


@contextlib.contextmanager
def quiet():
    """the checks report on stdout and ask whether to list the terms"""
    old = builtins.input
    builtins.input = lambda *a: "n"
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        builtins.input = old


def accepts(check, static, dynamic):
    with quiet():
        try:
            check(static, dynamic)
        except TypeError as e:
            if "Hamiltonian" in str(e):
                return False
            raise
    return True


def group_static(s, terms, rng):
    """package operator list, terms of equal operator string sometimes in one entry"""
    flat = s.static(terms)
    if rng.random() < 0.5:
        return flat
    out = {}
    for op, lst in flat:
        out.setdefault(op, []).extend(lst)
    return [[k, v] for k, v in out.items()]


def matrix(s, terms):
    states = s.S.full_states()
    return oracle.dense(sectors.full_matrix(s.S, terms, states)) if terms else np.zeros((len(states),) * 2)


def from_static(s, static):
    """package operator list -> oracle terms"""
    out = []
    for op, lst in static:
        for t in lst:
            idx = [int(i) for i in t[1:]]
            o = op
            if s.kind == "spinful" and s.simple:
                i = op.index("|")
                idx = idx[:i] + [j + s.N for j in idx[i:]]
                o = op.replace("|", "")
            out.append((o, tuple(idx), t[0]))
    return out


def rand_terms(s, rng, hermitian, conserve=None, n=2, symmetric=False):
    L = s.letters()
    t = sectors.op_list(s.S, s.ob if symmetric else [], rng, L.replace("x", "").replace("y", "") if conserve else L, hermitian=hermitian,
                        conserve=conserve, nterms=n)
    if t is None:
        raise Skip()
    return t


def shuffle_sites(t, S, rng):
    """reorder factors on different sites, with the fermion sign"""
    op, idx, J = t
    p = list(range(len(op)))
    for _ in range(4):
        if len(p) < 2:
            break
        i = rng.randrange(len(p) - 1)
        a, b = p[i], p[i + 1]
        if idx[a] != idx[b]:
            p[i], p[i + 1] = b, a
            if S.kind == "fermion" and op[a] in "+-" and op[b] in "+-":
                J = -J
    return "".join(op[i] for i in p), tuple(idx[i] for i in p), J


def case_expanded(d, seed):
    s, rng = sec.sector(d), random.Random(seed)
    terms = rand_terms(s, rng, False, n=3)
    static = group_static(s, terms, rng)
    drives = [(f1, (0.7,)), (f2, (0.3,)), (f1, (1.3,))]
    dterms = [(rand_terms(s, rng, False, n=rng.randrange(1, 3)), rng.choice(drives)) for _ in range(rng.randrange(3))]
    if dterms and rng.random() < 0.5:       # the same operators under another drive
        dterms.append((dterms[0][0], drives[(drives.index(dterms[0][1]) + 1) % 3]))
    dynamic = [[op, lst, f, a] for ts, (f, a) in dterms for op, lst in s.static(ts)]
    with quiet():
        es, ed = s.b.expanded_form(static, dynamic)
    for op, lst in es:
        if "x" in op or "y" in op:
            raise Bad(f"expanded_form({static}) contains {op} ({d})")
    oracle.expect(matrix(s, from_static(s, es)), matrix(s, terms), 1e-10, f"expanded_form of the static list {static} ({d})")
    for t in (0.37, 1.9):
        want = sum((f(t, *a) * matrix(s, ts) for ts, (f, a) in dterms), 0 * matrix(s, terms))
        got = sum((f(t, *a) * matrix(s, from_static(s, [[op, lst]])) for op, lst, f, a in ed), 0 * want)
        oracle.expect(got, want, 1e-10, f"expanded_form of the dynamic list {dynamic} ({d}) at t={t}")
    return 1 if np.abs(matrix(s, terms)).max() > 1e-9 else 0


def herm_lists(s, rng):
    """-> (terms, expected to be accepted)"""
    kind = rng.choice(["closed", "closed", "open", "dup", "split", "conj", "random"])
    t = rand_terms(s, rng, True, n=rng.randrange(1, 3))
    ok = True
    if kind == "open":
        t, ok = t[::2], None
    elif kind == "dup":
        i = rng.randrange(len(t))
        t, ok = t + [t[i]], None
    elif kind == "split":
        i = rng.randrange(len(t))
        op, idx, J = t[i]
        t = t[:i] + t[i + 1:] + [(op, idx, 0.5 * J), (op, idx, 0.5 * J)]
    elif kind == "conj":
        i = rng.randrange(len(t))
        op, idx, J = t[i]
        t, ok = t[:i] + [(op, idx, complex(J).conjugate() * rng.choice([1, -1, 1j]))] + t[i + 1:], None
    elif kind == "random":
        t, ok = rand_terms(s, rng, False), None
    return [shuffle_sites(x, s.S, rng) for x in t], ok


def case_herm(d, seed):
    s, rng = sec.sector(d), random.Random(seed)
    terms, ok = herm_lists(s, rng)
    dterms, dok = herm_lists(s, rng)
    static = group_static(s, terms, rng)
    nodyn = rng.random() < 0.4
    dynamic = [] if nodyn else [[op, lst, f1, (0.7,)] for op, lst in s.static(dterms)]
    got = accepts(s.b.check_hermitian, static, dynamic)
    M = matrix(s, terms)
    D = 0 * M if nodyn else matrix(s, dterms)
    herm = all(np.abs(X - X.conj().T).max() < 1e-10 for X in (M, D))
    if got and not herm:
        raise Bad(f"check_hermitian accepts the non-Hermitian lists {static} {dynamic} ({d})")
    if not got and ok and (nodyn or dok):
        raise Bad(f"check_hermitian refuses {static} {dynamic}, whose terms come with their conjugates ({d})")
    return 1 if np.abs(M).max() > 1e-9 else 0


def case_pcon(d, seed):
    s, rng = sec.sector(d), random.Random(seed)
    groups = sectors.conserved_groups(d)
    kind = rng.choice(["con", "free", "xx", "one"])
    ok = None
    if kind == "con":
        terms, ok = rand_terms(s, rng, False, conserve=groups, n=3), True
    elif kind == "xx" and "x" in s.letters() and s.N > 1:
        i, j = rng.sample(range(s.N), 2)
        J = rng.choice([1.0, -0.3])
        sg = rng.choice([1, 1, -1])
        terms = [("xx", (i, j), J), ("yy", (i, j), sg * J)]
        ok = True if sg == 1 else None
    elif kind == "one":
        L = s.letters()
        n = rng.randrange(2, 4)
        i = rng.randrange(s.S.N)
        terms = [("".join(rng.choice(L) for _ in range(n)), tuple(i if rng.random() < 0.6 else rng.randrange(s.S.N) for _ in range(n)), 1.0)]
        if s.S.kind == "fermion" and sum(c in "+-" for c in terms[0][0]) % 2:
            terms = [(terms[0][0] + "+", terms[0][1] + (rng.randrange(s.S.N),), 1.0)]
    else:
        terms = rand_terms(s, rng, rng.random() < 0.5, n=rng.randrange(1, 3))
    static = group_static(s, terms, rng)
    dyn = rng.random() < 0.4
    got = accepts(s.b.check_pcon, [] if dyn else static, [[op, lst, f1, (0.7,)] for op, lst in static] if dyn else [])
    M = matrix(s, terms)
    con = True
    for g in groups:
        n = np.array([sum(s.S.digits(x)[i] for i in g) for x in s.S.full_states()])
        con = con and not np.any(np.abs(M[n[:, None] != n[None, :]]) > 1e-10)
    if got and not con:
        raise Bad(f"check_pcon accepts {static}, which does not conserve the particle number ({d})")
    if not got and ok:
        raise Bad(f"check_pcon refuses {static}, every term of which conserves the particle number ({d})")
    return 1 if np.abs(M).max() > 1e-9 else 0


def same_up_to_sign(s, H):
    states = s.S.full_states()
    for m, _ in s.ob:
        G = s.S.gen_matrix(m, states)
        if abs(abs(G @ H @ G.conj().T) - abs(H)).max() > 1e-9:
            return False
    return True


def case_symm(d, seed):
    s, rng = sec.sector(d), random.Random(seed)
    if not s.ob:
        raise Skip()
    kind = rng.choice(["closed", "closed", "drop", "dup", "one", "sub", "swap"])
    ok = None
    if kind == "closed":
        terms, ok = rand_terms(s, rng, rng.random() < 0.5, symmetric=True), True
    elif kind == "sub":         # symmetric under some of the maps only
        sub = [b for b in s.ob if rng.random() < 0.5]
        t = sectors.op_list(s.S, sub, rng, s.letters(), hermitian=rng.random() < 0.5)
        if t is None:
            raise Skip()
        terms = t
    elif kind == "one":
        terms = rand_terms(s, rng, rng.random() < 0.5, n=1)
    else:
        terms = rand_terms(s, rng, rng.random() < 0.5, symmetric=True)
        i = rng.randrange(len(terms))
        op, idx, J = terms[i]
        if kind == "drop":
            terms = terms[:i] + terms[i + 1:]
        elif kind == "dup":
            terms = terms + [terms[i]]
        else:
            terms = terms[:i] + [(op, idx, -J)] + terms[i + 1:]
    if not terms or len(terms) > 400:
        raise Skip()
    terms = [shuffle_sites(x, s.S, rng) for x in terms]
    static = group_static(s, terms, rng)
    dyn = rng.random() < 0.4
    got = accepts(s.b.check_symm, [] if dyn else static, [[op, lst, f1, (0.7,)] for op, lst in static] if dyn else [])
    states = s.S.full_states()
    H = sectors.full_matrix(s.S, terms, states)
    com = True
    for m, _ in s.ob:
        G = s.S.gen_matrix(m, states)
        D = G @ H - H @ G
        com = com and not (D.nnz and abs(D).max() > 1e-9)
    if got and not com and d["kind"] in ("fermion", "spinful") and any(k < 0 for m, _ in s.ob for k in m) and same_up_to_sign(s, H):
        note("fermion_particle_hole_sign", f"check_symm accepts {static}, which is mapped to itself up to signs only ({d})")
    elif got and not com:
        raise Bad(f"check_symm accepts {static}, which does not commute with the symmetries ({d})")
    closed = not (s.kind == "boson" and d.get("sps", 2) > 2 and any(k < 0 for m, _ in s.ob for k in m))
    if not got and ok and com and closed:
        raise Bad(f"check_symm refuses {static}, which contains the image of each of its terms ({d})")
    return 1 if len(H.data) and np.abs(H.data).max() > 1e-9 else 0
