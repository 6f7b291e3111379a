"""C01: contracts of the five op() methods (general bases): a string of local operators applied to a state."""
import z3
from vf import vc
from vf.vc import LoopSpec, bv, simp, i2r, fext, SQRT

HALF = z3.RealVal("1/2")


def popcount_par(x, below, w):
    """parity (Bool) of the set bits of x strictly below bit index `below` (w-bit shift amount < w)"""
    return z3.Extract(0, 0, vc.popc(x & ((bv(1, w) << below) - 1))) == 1


class OpSpec(LoopSpec):
    """ghost: (k, r, state of the matrix element, err): the specification after k operators, rightmost first"""
    name = "ops"

    def __init__(self, kind, w, N, sps, n_op, opstr, indx, r0, m0):
        self.kind, self.w, self.N, self.sps, self.n = kind, w, N, sps, n_op
        self.opstr, self.indx, self.r0, self.m0 = opstr, indx, r0, m0
        self.pw = z3.Function(f"sps_pow{w}", z3.BitVecSort(64), z3.BitVecSort(w))

    def init(self, ex, st):
        g = {"r": self.r0}
        if self.kind in ("boson", "spin"):
            g["D"], g["W"] = z3.RealVal(1), z3.RealVal(1)
        else:
            g["re"], g["im"] = self.m0
        return g

    def at(self, k):
        """(letter, site) of the k-th operator applied"""
        pos = simp(fext(self.n, 64, True) - 1 - k)
        return z3.Select(self.opstr, pos), z3.Select(self.indx, simp(pos * 4))

    def digit(self, r, b, sps):
        st = vc.State()
        return vc.uf_div(st, "urem", vc.uf_div(st, "udiv", r, b), sps)

    def locals(self, g):
        """-> (known letter?, next ghost, vanishes?)"""
        c, site = self.at(g["k"])
        w = self.w
        is_ = lambda ch: c == bv(ord(ch), 8)
        r = g["r"]
        if self.kind in ("hcb", "fermion"):
            pos = self.N - site - 1                      # bit of the site, 32 bit
            p = pos if w == 32 else fext(pos, w, True)
            bit = bv(1, w) << p
            a = (r & bit) != 0
            sg = z3.RealVal(1)
            if self.kind == "fermion":
                sg = z3.If(popcount_par(r, p, w), z3.RealVal(-1), z3.RealVal(1))
            re, im = g["re"], g["im"]
            cases = [("I", r, re, im),
                     ("z", r, z3.If(a, HALF, -HALF) * re, z3.If(a, HALF, -HALF) * im),
                     ("n", r, z3.If(a, re, 0 * re), z3.If(a, im, 0 * im)),
                     ("+", r ^ bit, z3.If(a, 0 * re, sg * re), z3.If(a, 0 * im, sg * im)),
                     ("-", r ^ bit, z3.If(a, sg * re, 0 * re), z3.If(a, sg * im, 0 * im))]
            if self.kind == "hcb":
                h = z3.If(a, HALF, -HALF)
                cases += [("x", r ^ bit, HALF * re, HALF * im),
                          ("y", r ^ bit, -h * im, h * re)]     # (re + i im) * (i h)
            nr, nre, nim = r, re, im
            for ch, a1, a2, a3 in cases:
                nr, nre, nim = z3.If(is_(ch), a1, nr), z3.If(is_(ch), a2, nre), z3.If(is_(ch), a3, nim)
            known = z3.Or([is_(ch) for ch, *_ in cases])
            ng = {"r": nr, "re": nre, "im": nim}
            return known, ng, z3.And(nre == 0, nim == 0)
        # boson / higher spin: digit of r in base sps at weight sps^(N-1-site)
        b = self.pw(fext(self.N - site - 1, 64, True))
        spsw = fext(self.sps, w, True)
        occ = self.digit(r, b, spsw)                     # w bits, < sps
        occ32 = simp(z3.Extract(31, 0, occ)) if w > 32 else occ
        st = vc.State()
        R = lambda e: i2r(e, True)
        D, W = g["D"], g["W"]
        S = (R(self.sps) - 1) / 2
        full = occ32 + 1 >= self.sps
        if self.kind == "boson":
            up = z3.If(full, z3.RealVal(0), R(occ32 + 1))
            dn = R(occ32)
            cases = [("I", r, D, W), ("z", r, D * (R(occ32) - S), W), ("n", r, D * R(occ32), W),
                     ("+", z3.If(full, r, r + b), D, W * up), ("-", z3.If(occ32 > 0, r - b, r), D, W * dn)]
        else:
            # S+ |m> = sqrt((S-m)(S+m+1)) = sqrt((sps-1-occ)(occ+1)),   S- |m> = sqrt((S+m)(S-m+1)) = sqrt(occ(sps-occ))
            up = R(vc.uf_mul(st, occ32 + 1, self.sps - occ32 - 1))
            dn = R(vc.uf_mul(st, occ32, self.sps - occ32))
            self.extra = st.pc
            cases = [("I", r, D, W), ("z", r, D * (R(occ32) - S), W),
                     ("+", z3.If(full, r, r + b), D, W * up), ("-", z3.If(occ32 > 0, r - b, r), D, W * dn)]
        nr, nD, nW = r, D, W
        for ch, a1, a2, a3 in cases:
            nr, nD, nW = z3.If(is_(ch), a1, nr), z3.If(is_(ch), a2, nD), z3.If(is_(ch), a3, nW)
        known = z3.Or([is_(ch) for ch, *_ in cases])
        return known, {"r": nr, "D": nD, "W": nW}, z3.Or(nD == 0, nW == 0)

    def step(self, ex, g, st=None):
        return self.locals(g)[1]

    def facts(self, ex, g):
        """preconditions on the site the k-th operator acts on; ghost range"""
        _, site = self.at(g["k"])
        fs = [z3.Implies(z3.ULT(g["k"], fext(self.n, 64, True)), z3.And(site >= 0, site < self.N))]
        if self.kind in ("boson", "spin"):
            p = fext(self.N - site - 1, 64, True)
            b = self.pw(p)
            spsw = fext(self.sps, self.w, True)
            occ = self.digit(g["r"], b, spsw)
            # digits are below sps; i2r of small non-negative integers vanishes only at zero
            fs += [b != 0, z3.ULT(occ, spsw), self.pw(bv(0)) == 1]
        return fs

    def candidates(self, ex, st, view):
        return [("k <= n", lambda v, g: z3.ULE(g["k"], fext(self.n, 64, True)))]

    def final(self, st, gh):
        """spec result from the ghost state at the last loop header: constants RF, .. constrained by the recursion"""
        known, nx, van = self.locals(gh)
        at_end = gh["k"] == fext(self.n, 64, True)
        return known, nx, van, at_end


class PowLoop(LoopSpec):
    """the constructor's table of powers"""
    name = "powers"

    def __init__(self, spec, region):
        self.s, self.region = spec, region

    def init(self, ex, st):
        return {"p": bv(1, self.s.w)}

    def step(self, ex, g, st=None):
        return {"p": vc.uf_mul(st or vc.State(), g["p"], fext(self.s.sps, self.s.w, True))}

    def facts(self, ex, g):
        pw, sps = self.s.pw, fext(self.s.sps, self.s.w, True)
        st = vc.State()
        return [pw(bv(0)) == 1, pw(simp(g["k"] + 1)) == vc.uf_mul(st, pw(g["k"]), sps)] + st.pc

    def candidates(self, ex, st, view):
        n = fext(self.s.N, 64, True)
        return [("p = sps^k", lambda v, g: g["p"] == self.s.pw(g["k"])),
                ("k < N", lambda v, g: z3.ULT(g["k"], n)), ("k+1 < N", lambda v, g: z3.ULT(g["k"] + 1, n)),
                ("k <= N", lambda v, g: z3.ULE(g["k"], n))]

    def qcandidates(self, ex, st, view):
        return [("M[j] = sps^j for j <= k", self.region,
                 lambda J, v, g: z3.Implies(z3.ULE(J, g["k"]), v == self.s.pw(J)))]
