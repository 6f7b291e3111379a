"""C09: contracts of the serial sparse matrix-vector kernels (csr, csc, dia; contiguous and strided; 32-bit indices):
y[J] = (overwrite ? 0 : old y[J]) + a * sum over the stored entries of row J, in storage order, for every J; nothing else is written.
The sum is a ghost function of the stored entries, defined by its recursion; the loops are cut with it as invariant."""
import z3
from vf import vc, cpp
from vf.vc import bv, simp, fext, LoopSpec

SRC = f"{cpp.build.REPO}/quspin/tools/matvec/_oputils"
CT = {"d": "double", "z": "npy_cdouble_wrapper"}
I64 = z3.BitVecSort(64)


def driver():
    out = ['#include "Python.h"', '#include "numpy/arrayobject.h"', '#include "numpy/ndarraytypes.h"', "#include <algorithm>", "#include <vector>",
           '#include "complex_ops.h"', '#include "csr.h"', '#include "csc.h"', '#include "dia.h"']
    for t, ct in CT.items():
        av = f"{ct} a" if t == "d" else "double ar, double ai"
        mk = "" if t == "d" else f"{ct} a(ar,ai); "
        for f in ("csr", "csc"):
            nc = "" if f == "csr" else "n_col,"
            out.append(f'extern "C" void {f}_c_{t}(bool o,int n_row,int n_col,const int*Ap,const int*Aj,const {ct}*Ax,{av},const {ct}*x,{ct}*y)'
                       f'{{ {mk}{f}_matvec_noomp_contig(o,n_row,{nc}Ap,Aj,Ax,a,x,y); }}')
            out.append(f'extern "C" void {f}_s_{t}(bool o,int n_row,int n_col,const int*Ap,const int*Aj,const {ct}*Ax,{av},npy_intp xs,const {ct}*x,npy_intp ys,{ct}*y)'
                       f'{{ {mk}{f}_matvec_noomp_strided(o,n_row,{nc}Ap,Aj,Ax,a,xs,x,ys,y); }}')
        out.append(f'extern "C" void dia_c_{t}(bool o,int n_row,int n_col,int n_diags,int L,const int*off,const {ct}*Ax,{av},const {ct}*x,{ct}*y)'
                   f'{{ {mk}dia_matvec_noomp_contig(o,n_row,n_col,n_diags,L,off,Ax,a,x,y); }}')
        out.append(f'extern "C" void dia_s_{t}(bool o,int n_row,int n_col,int n_diags,int L,const int*off,const {ct}*Ax,{av},npy_intp xs,const {ct}*x,npy_intp ys,{ct}*y)'
                   f'{{ {mk}dia_matvec_noomp_strided(o,n_row,n_col,n_diags,L,off,Ax,a,xs,x,ys,y); }}')
    return "\n".join(out) + "\n"


class Num:
    """real or complex numbers as tuples of reals"""

    def __init__(self, t, uf):
        self.n = 1 if t == "d" else 2
        self.m = vc.rmul if uf else lambda a, b: a * b

    def add(self, a, b):
        return tuple(x + y for x, y in zip(a, b))

    def mul(self, a, b):
        m = self.m
        if self.n == 1:
            return (m(a[0], b[0]),)
        return (m(a[0], b[0]) - m(a[1], b[1]), m(a[0], b[1]) + m(a[1], b[0]))

    def zero(self):
        return (z3.RealVal(0),) * self.n

    def ite(self, c, a, b):
        return tuple(z3.If(c, x, y) for x, y in zip(a, b))

    def eq(self, a, b):
        return z3.And([x == y for x, y in zip(a, b)])


def outer(ex, st, name):
    """counter of the enclosing loop (unknown while the engine only looks for the variables a body changes)"""
    return st.ghost[name]["k"] if name in st.ghost else ex.fresh(I64, name)


class Ctx:
    """the arrays and the ghost function of one kernel"""

    def __init__(self, ex, st, fmt, strided, t, over):
        self.fmt, self.N, self.over, self.strided, self.ex = fmt, Num(t, ex.uf_fmul), over, strided, ex
        self.es = 8 * self.N.n
        sym = lambda n: simp(z3.ZeroExt(2, z3.BitVec(n, 30)))
        self.n_row, self.n_col = sym("n_row"), sym("n_col")
        R = z3.RealSort()
        cells = lambda n: None if n is None else simp(n * self.N.n)
        w = lambda e: fext(e, 64, True)
        self.J = simp(z3.ZeroExt(34, z3.BitVec("J", 30)))
        args = [z3.BoolVal(over), self.n_row, self.n_col]
        if fmt == "dia":
            self.n_diags, self.L = sym("n_diags"), sym("L")
            self.off = ex.arg_array(st, "off", z3.BitVecSort(32), 4, w(self.n_diags), writable=False)
            ex.arg_array(st, "Ax", R, 8, None, writable=False)
            args += [self.n_diags, self.L, vc.Ptr("off", bv(0)), vc.Ptr("Ax", bv(0))]
        else:
            self.nnz = sym("nnz")
            ex.arg_array(st, "Ap", z3.BitVecSort(32), 4, simp(w(self.n_row if fmt == "csr" else self.n_col) + 1), writable=False)
            ex.arg_array(st, "Aj", z3.BitVecSort(32), 4, w(self.nnz), writable=False)
            ex.arg_array(st, "Ax", R, 8, cells(w(self.nnz)), writable=False)
            args += [vc.Ptr("Ap", bv(0)), vc.Ptr("Aj", bv(0)), vc.Ptr("Ax", bv(0))]
        self.a = tuple(z3.Real(f"a{i}") for i in range(self.N.n))
        args += list(self.a)
        ex.arg_array(st, "x", R, 8, None if strided else cells(w(self.n_col)), writable=False)
        ex.arg_array(st, "y", R, 8, None if strided else cells(w(self.n_row)))
        self.xs = self.ys = None
        if strided:
            self.xs, self.ys = z3.BitVec("xs", 64), z3.BitVec("ys", 64)
            args += [self.xs, vc.Ptr("x", bv(0)), self.ys, vc.Ptr("y", bv(0))]
        else:
            args += [vc.Ptr("x", bv(0)), vc.Ptr("y", bv(0))]
        self.args = args
        self.m = dict(st.mem)
        self.y0 = self.num(self.m["y"], self.at(self.J, self.ys))
        self.G = [z3.Function(f"sum{i}", I64, I64, R) for i in range(self.N.n)]
        self.init = self.N.zero() if (over or fmt == "csr") else self.y0
        st.pc += [z3.ULT(self.J, w(self.n_row))]
        if fmt == "dia":
            # scipy: every offset lies strictly between -n_row and n_col, the rows of data are L >= 0 long
            pass
        else:
            st.pc += [self.ap(bv(0)) == 0]

    def mul(self, i, s):
        return simp(i) if s is None else simp(vc.uf_mul(self.st, simp(i), s))

    def at(self, i, s):
        """byte offset of element i"""
        self.st = vc.State()
        return simp(self.mul(i, s) * self.es)

    def num(self, arr, off):
        return tuple(z3.Select(arr, simp(off + 8 * c)) for c in range(self.N.n))

    def ap(self, j):
        return fext(z3.Select(self.m["Ap"], simp(j * 4)), 64, True)

    def aj(self, p):
        return fext(z3.Select(self.m["Aj"], simp(p * 4)), 64, True)

    def ax(self, p):
        return self.num(self.m["Ax"], simp(p * self.es))

    def x(self, j):
        return self.num(self.m["x"], self.at(j, self.xs))

    def g(self, i, p):
        return tuple(f(simp(i), simp(p)) for f in self.G)

    def y(self, mem):
        return self.num(mem["y"], self.at(self.J, self.ys))

    def distinct(self, i):
        """precondition: elements i and J of y have different addresses unless i = J (no overlap, no wrap around)"""
        if self.ys is None:
            return []
        st = vc.State()
        a, b = vc.uf_mul(st, simp(i), self.ys), vc.uf_mul(st, self.J, self.ys)
        es = self.es
        return st.pc + [z3.Implies(i != self.J, z3.And([simp(a * es + 8 * c) != simp(b * es + 8 * d) for c in range(self.N.n) for d in range(self.N.n)]))]

    def cleared(self, ex):
        """what memset wrote into element J of y"""
        return [fn(simp(fext(self.J, 64, True) * self.N.n + c)) for n, fs in ex.qfacts.items() if n.startswith("mset") for fn in fs
                for c in range(self.N.n)] if self.ys is None else []

    # ---- the ghost sums
    def entry(self, row, p):
        """csr: contribution of stored entry p of the row, csc: of column `row` to element J"""
        N = self.N
        if self.fmt == "csr":
            return N.mul(self.ax(p), self.x(self.aj(p)))
        v = N.mul(N.mul(self.a, self.ax(p)), self.x(row))
        return N.ite(self.aj(p) == self.J, v, N.zero())

    def sum_facts(self, row, p):
        """definition of the ghost sum at entry p, preconditions on the format at entry p and row"""
        fs = [self.ap(row) <= self.ap(simp(row + 1)), self.ap(row) >= 0, self.ap(simp(row + 1)) <= fext(self.nnz, 64, True)]
        bound = self.n_col if self.fmt == "csr" else self.n_row
        inr = z3.And(p >= self.ap(row), p < self.ap(simp(row + 1)))
        fs += [z3.Implies(inr, z3.And(self.aj(p) >= 0, self.aj(p) < fext(bound, 64, True)))]
        key = row if self.fmt == "csr" else bv(0)
        fs += [self.N.eq(self.g(key, simp(p + 1)), self.N.add(self.g(key, p), self.entry(row, p)))]
        if self.fmt == "csr":
            fs += [self.N.eq(self.g(row, self.ap(row)), self.N.zero())]
            fs += self.distinct(row)
        else:
            fs += [self.N.eq(self.g(bv(0), bv(0)), self.init)]
            fs += self.distinct(self.aj(p))
        return fs

    def final(self):
        """csr: value of y[J] at the end"""
        s = self.N.mul(self.a, self.g(self.J, self.ap(self.J + 1)))
        return s if self.over else self.N.add(self.y0, s)


class Zero(LoopSpec):
    name = "zero"

    def __init__(self, c):
        self.c = c

    def facts(self, ex, g):
        return self.c.distinct(g["k"])

    def candidates(self, ex, st, view):
        c = self.c
        n = fext(c.n_row, 64, True)
        return [("k <= n", lambda v, g: z3.ULE(g["k"], n)), ("k < n", lambda v, g: z3.ULT(g["k"], n)),
                ("y[J] = 0 below k", lambda v, g: c.N.eq(c.y(v.mem), c.N.ite(z3.ULT(c.J, g["k"]), c.N.zero(), c.y0)))]


class Rows(LoopSpec):
    """csr: rows, csc: columns"""
    name = "rows"

    def __init__(self, c):
        self.c = c

    def facts(self, ex, g):
        return self.c.sum_facts(g["k"], self.c.ap(g["k"])) + self.c.cleared(ex)

    def candidates(self, ex, st, view):
        c = self.c
        n = fext(c.n_row if c.fmt == "csr" else c.n_col, 64, True)
        out = [("k <= n", lambda v, g: z3.ULE(g["k"], n)), ("k < n", lambda v, g: z3.ULT(g["k"], n)), ("ap(k) >= 0", lambda v, g: c.ap(g["k"]) >= 0)]
        if c.fmt == "csr":
            out.append(("y[J] = result below k", lambda v, g: c.N.eq(c.y(v.mem), c.N.ite(z3.ULT(c.J, g["k"]), c.final(), c.y0))))
        else:
            out.append(("y[J] = sum over the columns before k", lambda v, g: c.N.eq(c.y(v.mem), c.g(bv(0), c.ap(g["k"])))))
        # values carried from one column to the next
        for n_ in view.phis:
            out.append((f"{n_} = Ap[k]", lambda v, g, n_=n_: fext(vc.scal(v.phis[n_]), 64, True) == c.ap(g["k"])))
        return out


class Entries(LoopSpec):
    name = "entries"

    def __init__(self, c):
        self.c = c

    def init(self, ex, st):
        self.row = outer(ex, st, "rows")
        self.y_in = self.c.y(st.mem)
        if self.c.fmt == "csr":
            return {f"s{i}": z for i, z in enumerate(self.c.N.zero())}
        return {}

    def p(self, g):
        return simp(self.c.ap(self.row) + g["k"])

    def step(self, ex, g, st=None):
        if self.c.fmt == "csr":
            s = self.c.N.add(tuple(g[f"s{i}"] for i in range(self.c.N.n)), self.c.entry(self.row, self.p(g)))
            return {f"s{i}": z for i, z in enumerate(s)}
        return {}

    def facts(self, ex, g):
        return self.c.sum_facts(self.row, self.p(g))

    def candidates(self, ex, st, view):
        c = self.c
        out = [("p < end", lambda v, g: self.p(g) < c.ap(simp(self.row + 1))), ("p <= end", lambda v, g: self.p(g) <= c.ap(simp(self.row + 1))),
               ("0 <= p", lambda v, g: z3.And(self.p(g) >= 0, z3.ULE(g["k"], bv(1 << 31))))]
        if c.fmt == "csr":
            out.append(("s = ghost sum", lambda v, g: c.N.eq(tuple(g[f"s{i}"] for i in range(c.N.n)), c.g(self.row, self.p(g)))))
        else:
            out.append(("y[J] = ghost sum", lambda v, g: c.N.eq(c.y(v.mem), c.g(bv(0), self.p(g)))))
        return out


class Diags(LoopSpec):
    name = "diags"

    def __init__(self, c):
        self.c = c

    def facts(self, ex, g):
        return dia_facts(self.c, g["k"], ex) + self.c.cleared(ex)

    def candidates(self, ex, st, view):
        c = self.c
        n = fext(c.n_diags, 64, True)
        return [("k <= n", lambda v, g: z3.ULE(g["k"], n)), ("k < n", lambda v, g: z3.ULT(g["k"], n)),
                ("y[J] = sum over the diagonals before k", lambda v, g: c.N.eq(c.y(v.mem), c.g(bv(0), g["k"])))]


def geometry(c, i):
    """first row, first column and length of diagonal i (32 bit, no overflow for |offset|, sizes < 2^30)"""
    k = z3.Select(c.m["off"], simp(i * 4))
    z = z3.BitVecVal(0, 32)
    mx = lambda a: z3.If(z <= a, a, z)
    mn = lambda a, b: z3.If(a <= b, a, b)
    i0, j0 = mx(-k), mx(k)
    n = mn(mn(c.n_row + k, c.n_col), c.L) - j0
    return fext(simp(i0), 64, False), fext(simp(j0), 64, False), fext(simp(n), 64, True)


def geometry_lemma(k, n_row, n_col, L, J, n):
    """pure arithmetic about one diagonal (proved as an obligation of its own, then used at each instance)"""
    z = z3.BitVecVal(0, 32)
    mx = lambda a: z3.If(z <= a, a, z)
    mn = lambda a, b: z3.If(a <= b, a, b)
    i0, j0 = mx(-k), mx(k)
    N = fext(mn(mn(n_row + k, n_col), L) - j0, 64, True)
    i0, j0, kk = fext(i0, 64, False), fext(j0, 64, False), fext(k, 64, True)
    col = J + kk
    w = lambda a: fext(a, 64, True)
    on = z3.And(col >= 0, col < w(n_col), col < w(L))
    inr = z3.And(n >= 0, n < N)
    return [z3.Implies(inr, z3.And(j0 + n == i0 + n + kk, j0 + n >= 0, j0 + n < w(n_col), j0 + n < w(L), i0 + n < w(n_row), i0 + n >= 0)),
            z3.Implies(z3.And(J >= 0, J < w(n_row)), on == z3.And(J >= i0, J - i0 < N))]


def prove_lemma(ex):
    k, r, c, L = (z3.BitVec(f"l_{x}", 32) for x in ("k", "n_row", "n_col", "L"))
    J, n = z3.BitVec("l_J", 64), z3.BitVec("l_n", 64)
    st = vc.State()
    B = 1 << 30
    st.pc += [z3.And(x >= 0, x < B) for x in (r, c, L)] + [k > -B, k < B]
    for i, g in enumerate(geometry_lemma(k, r, c, L, J, n)):
        ex.obl(f"lemma: geometry of a diagonal, part {i + 1}", st, g)


def dia_facts(c, i, ex):
    """element J on diagonal i: column J + offset, stored at data[i, column]"""
    k = fext(z3.Select(c.m["off"], simp(i * 4)), 64, True)
    col = simp(c.J + k)
    st = vc.State()
    base = vc.uf_mul(st, simp(i), fext(c.L, 64, True))
    v = c.N.mul(c.N.mul(c.a, c.num(c.m["Ax"], simp((base + col) * c.es))), c.x(col))
    on = z3.And(col >= 0, col < fext(c.n_col, 64, True), col < fext(c.L, 64, True))
    fs = st.pc + [c.N.eq(c.g(bv(0), simp(i + 1)), c.N.ite(on, c.N.add(c.g(bv(0), i), v), c.g(bv(0), i))), c.N.eq(c.g(bv(0), bv(0)), c.init)]
    fs += [k > -(1 << 30), k < (1 << 30)]
    return fs


class Diagonal(LoopSpec):
    name = "elements"

    def __init__(self, c):
        self.c = c

    def init(self, ex, st):
        self.i = outer(ex, st, "diags")
        return {}

    def facts(self, ex, g):
        c = self.c
        i0, j0, _ = geometry(c, self.i)
        fs = dia_facts(c, self.i, ex) + c.distinct(simp(i0 + g["k"]))
        fs += [simp(f) for f in geometry_lemma(z3.Select(c.m["off"], simp(self.i * 4)), c.n_row, c.n_col, c.L, fext(c.J, 64, True), g["k"])]
        if c.ys is not None:        # (i0 + n) s = i0 s + n s
            for s, o in ((c.ys, i0), (c.xs, j0)):
                st = vc.State()
                fs += [vc.uf_mul(st, simp(o + g["k"]), s) == vc.uf_mul(st, simp(o), s) + vc.uf_mul(st, simp(g["k"]), s)] + st.pc
                st = vc.State()
                fs += [vc.uf_mul(st, c.J, s) == vc.uf_mul(st, simp(i0), s) + vc.uf_mul(st, simp(c.J - i0), s)] + st.pc
        return fs

    def candidates(self, ex, st, view):
        c = self.c
        i0, j0, n = geometry(c, self.i)

        def val(v, g):
            done = z3.And(c.J >= i0, c.J - i0 < g["k"])
            return c.N.eq(c.y(v.mem), c.N.ite(done, c.g(bv(0), simp(self.i + 1)), c.g(bv(0), self.i)))
        return [("k < n", lambda v, g: z3.And(g["k"] >= 0, g["k"] < n)), ("k <= n", lambda v, g: z3.And(g["k"] >= 0, g["k"] <= n)), ("y[J] updated when passed", val)]


def verify(mod, fmt, strided, t, over, stats, log=None):
    ex = vc.Exec(mod, stats, 40000 if fmt == "dia" else 10000, log)
    fn = f"{fmt}_{'s' if strided else 'c'}_{t}"
    ex.prefix = f"{fn}({'overwrite' if over else 'add'}): "
    ex.uf_div = strided or fmt == "dia"
    ex.uf_fmul = t == "z" or fmt == "dia"
    ex.split_sorts = True
    ex.slow = 40000
    ex.cvc5 = True
    st = vc.State()
    c = Ctx(ex, st, fmt, strided, t, over)

    def policy(ex, f, header, s, info):
        reads = info.regions_read()
        if info.depth == 0:
            w, _ = info.discover() if not info.inner else (None, None)
            if not info.inner and "Ap" not in reads and "off" not in reads:
                return ("cut", Zero(c))
            return ("cut", Diags(c) if fmt == "dia" else Rows(c))
        return ("cut", Diagonal(c) if fmt == "dia" else Entries(c))
    ex.loop_policy = policy
    if fmt == "dia":
        prove_lemma(ex)
    if ex.check(st.pc)[0] != z3.sat:
        raise vc.Unsupported("precondition unsatisfiable")
    rets = ex.call(st, fn, c.args)
    if not rets:
        raise vc.Unsupported("no return path")
    for s, _ in rets:
        if fmt == "csr":
            s.pc += c.sum_facts(c.J, c.ap(c.J))
            ex.obl("y[J] = (overwrite ? 0 : y[J]) + a * row sum", s, c.N.eq(c.y(s.mem), c.final()))
        elif fmt == "csc":
            s.pc += c.sum_facts(bv(0), bv(0)) + c.cleared(ex)
            ex.obl("y[J] = (overwrite ? 0 : y[J]) + sum of all columns", s, c.N.eq(c.y(s.mem), c.g(bv(0), c.ap(fext(c.n_col, 64, True)))))
        else:
            s.pc += dia_facts(c, bv(0), ex) + c.cleared(ex)
            ex.obl("y[J] = (overwrite ? 0 : y[J]) + sum of all diagonals", s, c.N.eq(c.y(s.mem), c.g(bv(0), fext(c.n_diags, 64, True))))
    return ex


def task(fmt, t, kinds=(False, True)):
    from vf import report
    st = vc.Stats()
    mod = cpp.to_ir(driver(), f"mv_{fmt}_{t}", include=(SRC,))
    tot, fns = None, []
    for strided in kinds:
        for over in (True, False):
            ex = verify(mod, fmt, strided, t, over, st)
            if tot is None:
                tot = ex
            else:
                tot.obls += ex.obls
                tot.loop_report += ex.loop_report
                tot.lost += ex.lost
        fns.append(f"{fmt}_matvec_noomp_{'strided' if strided else 'contig'}<int, {CT[t]}>")
    return report.result(tot, st, fns)


if __name__ == "__main__":
    import sys, time
    mod = cpp.to_ir(driver(), "mv", include=(SRC,))
    for fmt in ("csr", "csc", "dia"):
        for strided in (False, True):
            for t in CT:
                for over in (True, False):
                    if len(sys.argv) > 1 and not all(a in f"{fmt} {'strided' if strided else 'contig'} {t} {over} -v" for a in sys.argv[1:]):
                        continue
                    t0 = time.time()
                    st = vc.Stats()
                    try:
                        ex = verify(mod, fmt, strided, t, over, st, print)
                        print(fmt, strided, t, over, len(ex.obls), "obl", len([o.name for o in ex.obls if o.status != "proved"]), round(time.time() - t0, 1), ex.lost)
                        if "-v" in sys.argv:
                            for r in ex.loop_report:
                                print("   ", r)
                    except vc.Unsupported as e:
                        print(fmt, strided, t, over, "UNSUPPORTED", e, round(time.time() - t0, 1))
