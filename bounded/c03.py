"""C03 bounded part: particle-number sectors without other symmetries, against an independent enumeration."""
import random
import numpy as np
from math import comb
from bounded import bases
from bounded.harness import Bad, Skip
from bounded.sec import sums

RULE = "a case is (basis class, chain length, local dimension, particle numbers or density); non-trivial when the sector has >= 2 states"
KINDS = [("spin12", 2), ("hcb", 2), ("boson", 2), ("boson", 3), ("boson", 4), ("boson", 6), ("spin", 3), ("spin", 4), ("spin", 6),
         ("fermion", 2)]


def cases(tier, rng):
    out = []
    top = 9 if tier == "quick" else 12
    for fam in ("general", "one_d"):
        for kind, sps in KINDS:
            if kind == "boson" and sps == 2:
                continue
            for N in range(1, top + 1):
                if sps ** N > (3000 if tier == "quick" else 60000):
                    break
                M = N * (sps - 1)
                out.append(dict(name="sector", fam=fam, kind=kind, sps=sps, N=N, Np=None))
                for n in range(M + 1):
                    out.append(dict(name="sector", fam=fam, kind=kind, sps=sps, N=N, Np=n))
                    out.append(dict(name="density", fam=fam, kind=kind, sps=sps, N=N, n=n))
                for _ in range(4):
                    out.append(dict(name="sector", fam=fam, kind=kind, sps=sps, N=N,
                                    Np=sorted(rng.sample(range(M + 1), rng.randrange(1, min(M, 4) + 1)), key=lambda _: rng.random())))
                if kind in ("spin12", "spin"):
                    out.append(dict(name="sector", fam=fam, kind=kind, sps=sps, N=N, Np=-1))
                    if M > 1:
                        out.append(dict(name="sector", fam=fam, kind=kind, sps=sps, N=N, Np=[-2, 0]))
        for N in range(1, 6 if tier == "quick" else 7):
            out.append(dict(name="spinful", fam=fam, N=N, Np=None))
            for a in range(N + 1):
                for b in range(N + 1):
                    out.append(dict(name="spinful", fam=fam, N=N, Np=[a, b]))
            for _ in range(6):
                al = [(a, b) for a in range(N + 1) for b in range(N + 1)]
                out.append(dict(name="spinful", fam=fam, N=N, Np=[list(x) for x in rng.sample(al, rng.randrange(1, 5))]))
            for Np in (None, [1, 1], [N - 1, 1], [[1, 0], [0, 1], [1, 1]] if N > 1 else [1, 0]):
                if Np is None or (isinstance(Np[0], int) and sum(Np) <= N) or not isinstance(Np[0], int):
                    out.append(dict(name="spinful", fam=fam, N=N, Np=Np, docc=False))
    # long chains, few particles or holes
    for _ in range(250 if tier == "quick" else 2500):
        fam = rng.choice(["general", "one_d"])
        kind, sps = rng.choice(KINDS)
        lim = 63 if fam == "one_d" else 64 if sps > 2 else rng.choice([63, 64, 200, 1000])
        N = rng.randrange(10, 1 + max(int(63 / np.log2(sps)) if sps > 2 else lim, 10))
        if fam == "one_d":
            N = min(N, int(62 / np.log2(sps)))
        if kind == "fermion" and fam == "general":
            N = min(N, 64 if rng.random() < 0.5 else 1000)
        few = rng.choice([0, 1, 1, 2, 2, 3] if N <= 40 else [1, 2] if N <= 130 else [0, 1])
        M = N * (sps - 1)
        Np = rng.choice([few, M - few, [few, M - 1], [1, 0]])
        out.append(dict(name="sector", fam=fam, kind=kind, sps=sps, N=N, Np=Np))
    for _ in range(60 if tier == "quick" else 600):
        fam = rng.choice(["general", "one_d"])
        N = rng.choice([7, 8, 12, 15, 16, 17, 24, 30, 31] + ([32, 33, 40, 60] if fam == "general" else []))
        Np = rng.choice([[1, 1], [2, 1], [N, 1], [1, N - 1], [0, 1], [[1, 0], [0, 1]], [[N, 0], [0, N]], [0, N]])
        out.append(dict(name="spinful", fam=fam, N=N, Np=Np))
    # the boson basis with sps implied by the particle number; random medium sectors
    for fam in ("general", "one_d"):
        for N in range(1, 7):
            for n in range(1, 6):
                out.append(dict(name="implied", fam=fam, N=N, n=n))
    for _ in range(60 if tier == "quick" else 400):
        kind, sps = rng.choice(KINDS)
        N = rng.randrange(5, 25)
        M = N * (sps - 1)
        n = rng.randrange(M + 1)
        if count(N, n, sps) <= 30000 and sps ** N < 2 ** 62:
            out.append(dict(name="sector", fam=rng.choice(["general", "one_d"]), kind=kind, sps=sps, N=N, Np=n))
    return out


def count(N, n, sps):
    c = [1]
    for _ in range(N):
        c = [sum(c[max(0, i - sps + 1):i + 1]) for i in range(len(c) + sps - 1)]
    return c[n] if 0 <= n < len(c) else 0


def to_ints(st):
    if st.dtype.kind in "ui":
        return [int(x) for x in st]
    from quspin.basis.basis_general._basis_general_core.general_basis_utils import basis_int_to_python_int
    return [int(basis_int_to_python_int(x)) for x in st]


def compare(b, want, what, M, sps):
    got = to_ints(b.states)
    if got != want:
        g, w = set(got), set(want)
        if g == w and len(got) == len(want):
            raise Bad(f"{what}: the states are not listed in decreasing order")
        if len(g) != len(got):
            raise Bad(f"{what}: a state is listed twice ({len(got)} entries, {len(g)} different, {len(want)} expected)")
        raise Bad(f"{what}: {len(got)} states instead of {len(want)}; missing {sorted(w - g)[:3]}, unexpected {sorted(g - w)[:3]}")
    if b.Ns != len(want):
        raise Bad(f"{what}: Ns is {b.Ns} instead of {len(want)}")


def build(fam, kind, N, sps, **kw):
    if fam == "general":
        return bases.general(kind, N, sps=sps, pauli=0, **kw)
    return bases.one_d(kind, N, sps=sps, pauli=0, **kw)


def case_sector(fam, kind, sps, N, Np):
    kw = {} if Np is None else {bases.PKEY[kind]: Np}
    b = build(fam, kind, N, sps, **kw)
    M = N * (sps - 1)
    if Np is None:
        want = list(range(sps ** N - 1, -1, -1))
    else:
        ns = {n if n >= 0 else M + 1 + n for n in ([Np] if isinstance(Np, int) else Np)}
        want = sorted((x for n in ns for x in sums(N, n, sps)), reverse=True)
        if len(want) != sum(count(N, n, sps) for n in ns):
            raise AssertionError("oracle")
    compare(b, want, f"{fam} {kind} N={N} sps={sps} particles {Np}", N, sps)
    return int(len(want) > 1)


def case_density(fam, kind, sps, N, n):
    """the same sector through the density keyword"""
    if kind in ("spin12", "spin"):
        S = (sps - 1) / 2
        for m in {n / N - S, (n - S * N) / N}:
            compare(build(fam, kind, N, sps, m=m), sums(N, n, sps)[:], f"{fam} {kind} N={N} sps={sps} m={m!r} (Nup={n})", N, sps)
    elif kind == "fermion":
        compare(build(fam, kind, N, sps, nf=n / N), sums(N, n, sps), f"{fam} fermion N={N} nf={n / N!r} (Nf={n})", N, sps)
    else:
        compare(build(fam, kind, N, sps, nb=n / N), sums(N, n, sps), f"{fam} boson N={N} sps={sps} nb={n / N!r} (Nb={n})", N, sps)
    return 1


def case_implied(fam, N, n):
    from quspin.basis import boson_basis_general, boson_basis_1d
    b = (boson_basis_general if fam == "general" else boson_basis_1d)(N, Nb=n)
    compare(b, sums(N, n, n + 1), f"{fam} boson N={N}, Nb={n} without sps", N, n + 1)
    if b.sps != n + 1:
        raise Bad(f"sps is {b.sps} instead of {n + 1}")
    return 1


def case_spinful(fam, N, Np, docc=True):
    kw = {} if docc else {"double_occupancy": False}
    if Np is not None:
        kw["Nf"] = tuple(Np) if isinstance(Np[0], int) else [tuple(x) for x in Np]
    b = build(fam, "spinful", N, 2, **kw)
    if Np is None:
        want = range(4 ** N - 1, -1, -1)
    else:
        prs = {tuple(Np)} if isinstance(Np[0], int) else {tuple(x) for x in Np}
        want = sorted(((u << N) | v for nu, nd in prs for u in sums(N, nu, 2) for v in sums(N, nd, 2)), reverse=True)
        if len(want) != sum(comb(N, a) * comb(N, c) for a, c in prs):
            raise AssertionError("oracle")
    if not docc:
        want = [s for s in want if not ((s >> N) & s)]
    compare(b, list(want), f"{fam} spinful N={N} particles {Np} double occupancy {docc}", 2 * N, 2)
    return int(len(list(want)) > 1)
