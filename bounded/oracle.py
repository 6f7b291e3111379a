"""Independent definitions: local operators on digit strings, Kronecker/Jordan-Wigner matrices, symmetry projectors.
A state is a Python int; site 0 is the most significant digit in base sps (the package's documented convention)."""
import itertools
import numpy as np
import scipy.sparse as sp


class Sys:
    """kind: spin12 (pauli=-1,0,1), hcb, boson, spin (higher), fermion.  N counts modes (spinful: 2 per site)."""

    def __init__(self, kind, N, sps=2, pauli=None):
        self.kind, self.N, self.sps, self.pauli = kind, N, sps, pauli

    # local operator: letter, digit -> (amplitude, new digit) or None; independent of the package's own code
    def local(self, ch, d):
        k, sps = self.kind, self.sps
        if ch == "I":
            return 1.0, d
        if k in ("spin12", "hcb"):
            up = d == 1
            pa = self.pauli
            f = 1.0 if (k == "hcb" or pa == 0) else 2.0          # x,y,z
            g = 2.0 if (k == "spin12" and pa == 1) else 1.0       # +,-
            if ch == "x":
                return 0.5 * f, 1 - d
            if ch == "y":
                return (0.5j if up else -0.5j) * f, 1 - d
            if ch == "z":
                return (0.5 if up else -0.5) * f, d
            if ch == "n":
                return ((1.0 if up else 0.0) * f), d
            if ch == "+":
                return None if up else (g, 1)
            if ch == "-":
                return (g, 0) if up else None
        if k == "fermion":
            if ch == "z":
                return d - 0.5, d
            if ch == "n":
                return float(d), d
            if ch == "+":
                return None if d else (1.0, 1)
            if ch == "-":
                return (1.0, 0) if d else None
        if k == "boson":
            if ch == "z":
                return d - (sps - 1) / 2.0, d
            if ch == "n":
                return float(d), d
            if ch == "+":
                return None if d == sps - 1 else (np.sqrt(d + 1.0), d + 1)
            if ch == "-":
                return None if d == 0 else (np.sqrt(float(d)), d - 1)
        if k == "spin":
            S = (sps - 1) / 2.0
            m = d - S
            if ch == "z":
                return m, d
            if ch == "+":
                return None if d == sps - 1 else (np.sqrt(S * (S + 1) - m * (m + 1)), d + 1)
            if ch == "-":
                return None if d == 0 else (np.sqrt(S * (S + 1) - m * (m - 1)), d - 1)
        raise KeyError(ch)

    def digits(self, s):
        return tuple((s // self.sps ** (self.N - 1 - i)) % self.sps for i in range(self.N))

    def number(self, ds):
        r = 0
        for d in ds:
            r = r * self.sps + d
        return r

    def apply(self, opstr, sites, s, J=1.0):
        """J * (product of local operators, rightmost first)|s> -> (amplitude, state) or None if it vanishes"""
        ds = list(self.digits(s))
        a = J
        for ch, i in reversed(list(zip(opstr, sites))):
            r = self.local(ch, ds[i])
            if r is None:
                return None
            if self.kind == "fermion" and ch in "+-":
                if sum(ds[i + 1:]) % 2:
                    a = -a
            a = a * r[0]
            ds[i] = r[1]
        if a == 0:
            return None
        return a, self.number(ds)

    # ---- sectors ----------------------------------------------------------------------------------
    def full_states(self):
        return list(range(self.sps ** self.N - 1, -1, -1))

    def pcon_states(self, pred):
        return [s for s in self.full_states() if pred(self.digits(s))]

    def matrix(self, ops, states=None):
        """sparse matrix of a list [opstr, [[J, i, j, ...], ...]] in the given (or all) product states; components that
        leave the set are dropped (the caller chooses conserving lists)"""
        states = self.full_states() if states is None else states
        ind = {s: i for i, s in enumerate(states)}
        R, C, V = [], [], []
        for opstr, lst in ops:
            op = opstr.replace("|", "")
            for t in lst:
                J, sites = t[0], self.sites(opstr, t[1:])
                for c, s in enumerate(states):
                    r = self.apply(op, sites, s, J)
                    if r is not None and r[1] in ind:
                        R.append(ind[r[1]])
                        C.append(c)
                        V.append(r[0])
        return sp.csr_matrix((np.array(V, dtype=complex), (R, C)), shape=(len(states), len(states)))

    def sites(self, opstr, idx):
        """site list of a (possibly spinful) operator string: right of the bar means the second half of the modes"""
        if "|" in opstr:
            l = opstr.index("|")
            return list(idx[:l]) + [i + self.N // 2 for i in idx[l:]]
        return list(idx)

    # ---- symmetries ---------------------------------------------------------------------------------
    def move(self, mp, s):
        """site map: occupation of site i goes to map[i] (or to -(map[i]+1), complemented) -> (sign, state)"""
        ds = self.digits(s)
        out = [0] * self.N
        sign = 1
        dest = []
        for i, d in enumerate(ds):
            j = mp[i]
            if j < 0:
                j = -(j + 1)
                out[j] = self.sps - 1 - d
                if self.kind == "fermion" and d and i % 2:
                    sign = -sign
            else:
                out[j] = d
            if d:
                dest.append(j)
        if self.kind == "fermion":
            inv = sum(1 for a in range(len(dest)) for b in range(a) if dest[b] > dest[a])
            if inv % 2:
                sign = -sign
        return sign, self.number(out)

    def period(self, mp):
        """smallest p with map^p = identity (as signed site permutation)"""
        from math import lcm
        n, p, done = len(mp), 1, set()
        for i in range(n):
            c, j, f = 0, i, 0
            if i in done:
                continue
            while True:
                done.add(j)
                k = mp[j]
                f ^= k < 0
                j = k if k >= 0 else -(k + 1)
                c += 1
                if j == i:
                    break
            p = lcm(p, 2 * c if f else c)
        return p

    def gen_matrix(self, mp, states):
        ind = {s: i for i, s in enumerate(states)}
        R, C, V = [], [], []
        for c, s in enumerate(states):
            sg, t = self.move(mp, s)
            if t not in ind:
                return None
            R.append(ind[t]), C.append(c), V.append(sg)
        return sp.csr_matrix((np.array(V, dtype=complex), (R, C)), shape=(len(states),) * 2)

    def projector(self, blocks, states):
        """product over the generators of (1/p) sum_k exp(-2 pi i q k/p) G^k (q may be a list: the sum of those sectors);
        None if a generator leaves the set, G^p != 1, or the projectors do not commute"""
        n = len(states)
        P = np.eye(n, dtype=complex)
        gens = []
        for mp, q in blocks:
            G = self.gen_matrix(mp, states)
            if G is None:
                return None
            p = self.period(mp)
            qs = {x % p for x in (q if isinstance(q, (list, tuple)) else [q])}
            acc, X = 0, sp.identity(n, dtype=complex, format="csr")
            for k in range(p):
                acc = acc + sum(np.exp(-2j * np.pi * x * k / p) for x in qs) * X
                X = G @ X
            if abs(X - sp.identity(n)).max() > 1e-9:
                return None
            acc = acc / p
            if any(abs(acc @ H - H @ acc).max() > 1e-9 for H in gens):
                return None
            gens.append(acc)
            P = acc @ P
        return P

    def orbit(self, blocks, s):
        seen = {s}
        todo = [s]
        while todo:
            x = todo.pop()
            for mp, _ in blocks:
                y = self.move(mp, x)[1]
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen


def close(a, b, tol=1e-9, what=""):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"{what}: shape {a.shape} instead of {b.shape}"
    if a.size == 0:
        return None
    if not np.all(np.isfinite(a)):
        return f"{what}: not finite"
    d = np.abs(a - b)
    scale = max(1.0, float(np.max(np.abs(b))))
    if d.max() > tol * scale:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        return f"{what}: entry {tuple(int(x) for x in i)} is {a[i]} instead of {b[i]}"
    return None


def expect(a, b, tol=1e-9, what=""):
    from bounded.harness import Bad
    m = close(a, b, tol, what)
    if m:
        raise Bad(m)


def dense(A):
    return np.asarray(A.todense()) if sp.issparse(A) else np.asarray(A)
