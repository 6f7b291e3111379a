"""C04 bounded part: the listed representatives, their number and their normalisation against brute-force orbits and projectors."""
import numpy as np
from bounded import oracle, sec
from bounded.harness import Bad, Skip

RULE = "a case is one symmetry sector (family, size, particle numbers, blocks); non-trivial when it has at least one block and a state"


def cases(tier, rng):
    long = sec.long_descriptions(rng, 300 if tier == "quick" else 2000)
    out = [dict(name="sector", d=d) for d in sec.descriptions(tier, rng) + long]
    out += [dict(name="sum_rule", kind=k, sps=s, N=N, what=w) for k, s, N in (("spin12", 2, 8), ("spin12", 2, 10), ("boson", 3, 5),
            ("boson", 3, 6), ("spin", 4, 4), ("fermion", 2, 8), ("fermion", 2, 9), ("hcb", 2, 12), ("spinful", 2, 4))
            for w in ("T", "TP", "XY") ]
    return out


def case_sector(d):
    s = sec.sector(d)
    f = sec.finding_key(d)
    want, got = s.reps, s.listed
    if got != want:
        miss = sorted(set(want) - set(got))[:4]
        extra = sorted(set(got) - set(want))[:4]
        raise Bad(f"{len(got)} states listed, {len(want)} expected; missing {miss}, unexpected {extra}", f)
    if s.b.Ns != len(want):
        raise Bad(f"Ns is {s.b.Ns}, the sector has {len(want)} states", f)
    if d["fam"] == "general" and want:
        P = s.P
        ind = {x: i for i, x in enumerate(s.states)}
        order = int(np.prod([s.S.period(m) for m, _ in s.ob])) if s.ob else 1
        nn = np.atleast_1d(s.b.normalization(np.array(s.b.states)))
        for x, n in zip(want, nn):
            w = P[ind[x], ind[x]].real * order ** 2
            if abs(float(n) - w) > 1e-9 * max(1, w):
                raise Bad(f"normalisation of state {x} is {n}, the squared norm of the unnormalised group sum is {w}")
        # every other product state: normalisation zero iff its projection vanishes, representative = largest of the orbit
        rs = s.b.representative(np.array(s.states, dtype=s.b.states.dtype))
        for x, r in zip(s.states, rs):
            if int(r) != max(s.S.orbit(s.ob, x)):
                raise Bad(f"representative of {x} is {int(r)}, the largest state of its orbit is {max(s.S.orbit(s.ob, x))}")
        # states that are not listed (not the largest of their orbit, or projected to nothing): documented to give zero
        nn = np.atleast_1d(s.b.normalization(np.array(s.states, dtype=s.b.states.dtype)))
        listed = set(want)
        for x, n in zip(s.states, nn):
            if x not in listed and n != 0:
                raise Bad(f"normalisation of state {x}, which is not in the basis, is {n}")
    return 1 if s.ob and want else 0


def case_sum_rule(kind, sps, N, what):
    """sector dimensions add up to the dimension of the particle sector"""
    from bounded import bases, sectors
    T, P = sectors.shift(N), sectors.refl(N)
    bl = []
    if what == "T":
        bl = [{"k": (T, q)} for q in range(N)]
    elif what == "TP":
        if kind == "spinful":
            raise Skip()
        bl = [{"p": (P, q)} for q in range(2)]
    else:
        if N % 2:
            raise Skip()
        X = [i ^ 1 for i in range(N)]
        T2 = sectors.shift(N, 2)
        bl = [{"x": (X, q), "t": (T2, k)} for q in range(2) for k in range(N // 2)]
    nps = {"spinful": [None, (1, 2), (2, 2)]}.get(kind, [None, 1, N // 2, N // 2 + 1])
    for Np in nps:
        kw = {} if Np is None else {bases.PKEY[kind]: Np}
        full = bases.general(kind, N, sps=sps, **kw).Ns
        tot = sum(bases.general(kind, N, sps=sps, blocks=b, **kw).Ns for b in bl)
        if tot != full:
            raise Bad(f"sector dimensions add up to {tot} instead of {full} (Np={Np})")
    return 1
