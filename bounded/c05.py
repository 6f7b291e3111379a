"""C05 bounded part: looking up a state is the inverse of the listing; the prefix blocks used inside the matrix code change nothing."""
import random
import numpy as np
from bounded import oracle, sec
from bounded.harness import Bad, Skip

RULE = "a case is one basis; non-trivial when it lists at least two states"


def cases(tier, rng):
    long = sec.long_descriptions(rng, 300 if tier == "quick" else 2000)
    ds = sec.descriptions(tier, rng) + long
    out = [dict(name="lookup", d=d, seed=rng.randrange(1 << 30)) for d in ds]
    g = [d for d in ds if d["fam"] == "general"]
    out += [dict(name="prefix", d=d, seed=rng.randrange(1 << 30)) for d in g if d.get("Np") is not None or d.get("blocks")]
    return out


def digits_str(S, s):
    return "".join(str(x) for x in S.digits(s))


def lookup(b, d, S, s, as_str):
    """position(s) the package reports for s, None if it reports absence"""
    N = d["N"]
    try:
        if d["kind"] == "spinful":
            up, dn = s >> N, s & ((1 << N) - 1)
            if as_str:
                up, dn = format(up, f"0{N}b"), format(dn, f"0{N}b")
            r = b.index(up, dn)
        else:
            r = b.index(digits_str(S, s) if as_str else s)
    except (ValueError, KeyError, IndexError, OverflowError):
        return None
    r = np.atleast_1d(r)
    return sorted(int(x) for x in r)


def case_lookup(d, seed):
    s = sec.sector(d)
    b, S = s.b, s.S
    listed = s.listed
    if b.Ns != len(listed):
        raise Bad(f"Ns={b.Ns} but {len(listed)} states are listed")
    pos = {}
    for i, x in enumerate(listed):
        pos.setdefault(x, []).append(i)
    rng = random.Random(seed)
    some = listed if len(listed) <= 40 else [listed[0], listed[-1]] + rng.sample(listed, 38)
    for x in some:
        for as_str in (False, True):
            if as_str and S.sps > 10:
                continue
            r = lookup(b, d, S, x, as_str)
            if r != pos[x]:
                raise Bad(f"index of listed state {x} (position {pos[x]}) given as {'string' if as_str else 'integer'} is {r}")
        if int(b[pos[x][0]]) != x:
            raise Bad(f"basis[{pos[x][0]}] is {b[pos[x][0]]} instead of {x}")
    top = S.sps ** S.N
    absent = set()
    for x in rng.sample(range(top), min(top, 40)) if top < 1 << 62 else [rng.randrange(top) for _ in range(40)]:
        absent.add(x)
    for x in some[:6]:
        for y in (x + 1, x - 1, x ^ 1, top - 1 - x):
            if 0 <= y < top:
                absent.add(y)
        absent |= set(list(S.orbit(s.ob, x))[:6])
    for x in sorted(absent - set(listed)):
        for as_str in (False, True):
            r = lookup(b, d, S, x, as_str)
            if r is not None:
                raise Bad(f"state {x} is not in the basis but index() returns {r}" + (f" (that is {listed[r[0]]})" if r and r[0] < len(listed) else ""))
    if d["kind"] != "spinful" and S.sps <= 10:
        for x in some[:20]:
            t = b.int_to_state(x, bracket_notation=False)
            if S.N <= 64:
                if t != digits_str(S, x):
                    raise Bad(f"int_to_state({x}) is {t!r} instead of {digits_str(S, x)!r}")
                back = b.state_to_int(t)
                if back != x:
                    raise Bad(f"state_to_int({t!r}) is {back} instead of {x}")
                br = b.int_to_state(x)
                if br[0] != "|" or br[-1] != ">" or [int(z) for z in br[1:-1].split()] != list(S.digits(x)):
                    raise Bad(f"int_to_state({x}) is {br!r}")
    it = [int(x) for x in b]
    if it != listed:
        raise Bad("iterating over the basis gives other states than .states")
    return 1 if len(listed) > 1 else 0


def case_prefix(d, seed):
    """the same basis with every prefix length gives the same matrices"""
    s = sec.sector(d)
    b = s.b
    if b.Ns == 0:
        return 0
    terms = s.terms(seed, hermitian=False)
    static = s.static(terms)
    ref = None
    rng = random.Random(seed)
    keep = getattr(b, "_N_p", None)
    try:
        for Np in [0, 1, 2, 3, s.N // 2, s.N - 1, s.N, s.N + 3, None]:
            if Np is not None and s.S.sps ** min(Np, s.N) > 1 << 18:
                continue
            b.make_basis_blocks(N_p=Np)
            M = np.zeros((b.Ns, b.Ns), complex)
            v = np.cos(np.arange(b.Ns) + 1.0).astype(complex)
            for op, lst in static:
                for t in lst:
                    ME, r, c = b.Op(op, list(t[1:]), t[0], np.complex128)
                    if len(r) and (r.min() < 0 or r.max() >= b.Ns or c.min() < 0 or c.max() >= b.Ns):
                        raise Bad(f"Op returned an index outside the basis (N_p={Np})")
                    np.add.at(M, (r, c), ME)
            y = b.inplace_Op(v, [[op, list(t[1:]), t[0]] for op, lst in static for t in lst], np.complex128)
            if ref is None:
                ref = M
            oracle.expect(M, ref, 1e-12, f"matrix with prefix length {Np}")
            oracle.expect(np.asarray(y).reshape(-1), ref @ v, 1e-10, f"inplace_Op with prefix length {Np}")
    finally:
        b.make_basis_blocks(N_p=keep)
    return 1 if b.Ns > 1 else 0
