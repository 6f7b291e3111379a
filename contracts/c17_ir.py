"""C17: contracts of the elementwise loops bitwise_op, bitwise_shift_op, bitwise_not_op_core (32 and 64 bit words):
for every J < Ns: out[J] = where[J] ? op(x1[J], x2[J]) : old out[J];  nothing else is written; no access outside the arrays."""
import z3
from vf import vc, cpp
from vf.vc import bv, simp, fext, LoopSpec

TYPES = {"u32": ("npy_uint32", 32), "u64": ("npy_uint64", 64)}
SH = {"s8": ("npy_uint8", 8), "s16": ("npy_uint16", 16), "s32": ("npy_uint32", 32), "s64": ("npy_uint64", 64)}


def driver(t):
    ct = TYPES[t][0]
    out = ['#include <cstdlib>', '#include "general_basis_bitops.h"', "using namespace basis_general;"]
    for op in ("and", "or", "xor"):
        out.append(f'extern "C" void {op}_{t}(const {ct}* a, const {ct}* b, bool* w, {ct}* o, npy_intp n)'
                   f'{{ bitwise_op(a,b,w,o,n,bitwise_{op}_op<{ct}>()); }}')
    for s, (cs, _) in SH.items():
        for d in ("left", "right"):
            out.append(f'extern "C" void {d}_{t}_{s}(const {ct}* a, const {cs}* b, bool* w, {ct}* o, npy_intp n)'
                       f'{{ bitwise_shift_op(a,b,w,o,n,bitwise_{d}_shift_op<{ct},{cs}>()); }}')
    out.append(f'extern "C" void not_{t}(const {ct}* a, bool* w, {ct}* o, npy_intp n){{ bitwise_not_op_core(a,w,o,n); }}')
    return "\n".join(out) + "\n"


def functions(t):
    return [(op, f"{op}_{t}", None) for op in ("and", "or", "xor")] + [("not", f"not_{t}", None)] + \
           [(d, f"{d}_{t}_{s}", SH[s][1]) for s in SH for d in ("left", "right")]


def spec(op, w, a, b):
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "not":
        return ~a
    c = fext(b, w, False) if b.size() <= w else z3.Extract(w - 1, 0, b)
    big = z3.UGE(b, bv(w, b.size())) if b.size() > 5 and (1 << b.size()) > w else z3.BoolVal(False)
    return z3.If(big, bv(0, w), (a << c) if op == "left" else z3.LShR(a, c))


class Elementwise(LoopSpec):
    name = "elements"

    def __init__(self, value, n, out):
        self.value, self.n, self.out = value, n, out

    def candidates(self, ex, st, view):
        return [("k <= n", lambda v, g: z3.ULE(g["k"], self.n)), ("k < n", lambda v, g: z3.ULT(g["k"], self.n))]

    def qcandidates(self, ex, st, view):
        return [("out[J] done below k, untouched above", self.out,
                 lambda J, v, g: z3.Or(z3.UGE(J, self.n), v == z3.If(z3.ULT(J, g["k"]), self.value(J)[0], self.value(J)[1]))),
                ("out[J] done up to k, untouched above", self.out,
                 lambda J, v, g: z3.Or(z3.UGE(J, self.n), v == z3.If(z3.ULE(J, g["k"]), self.value(J)[0], self.value(J)[1])))]


def verify(mod, op, fn, wb, w, masked, alias, stats, log=None):
    ex = vc.Exec(mod, stats, 10000, log)
    ex.prefix = f"{fn}({'mask' if masked else 'no mask'}{', out is x1' if alias else ''}): "
    ex.poison_shift = True
    st = vc.State()
    n = simp(z3.ZeroExt(8, z3.BitVec("Ns", 56)))
    W = z3.BitVecSort(w)
    a = ex.arg_array(st, "x1", W, w // 8, n, writable=alias)
    args = [a]
    if op != "not":
        sb = w if wb is None else wb
        args.append(ex.arg_array(st, "x2", z3.BitVecSort(sb), sb // 8, n, writable=False))
    if masked:
        args.append(ex.arg_array(st, "where", z3.BitVecSort(8), 1, n, writable=False))
        # C++ bool objects hold 0 or 1 (the array is the memory of a numpy bool array)
        ex.qfacts.setdefault("mem_where", []).append(lambda j, m=st.mem["where"]: z3.ULE(z3.Select(m, simp(j)), bv(1, 8)))
    else:
        args.append(vc.Ptr("null", bv(0)))
    o = a if alias else ex.arg_array(st, "out", W, w // 8, n)
    args += [o, n]
    m0 = dict(st.mem)
    on = "x1" if alias else "out"

    def value(J):
        s = lambda r: z3.Select(m0[r], simp(J * ex.regions[r].esize))
        v = spec(op, w, s("x1"), s("x2") if op != "not" else None)
        if masked:
            v = z3.If(s("where") != 0, v, s(on))
        return v, s(on)
    ex.loop_policy = lambda ex, f, header, s, info: ("cut", Elementwise(value, n, on))
    if ex.check(st.pc)[0] != z3.sat:
        raise vc.Unsupported("precondition unsatisfiable")
    rets = ex.call(st, fn, args)
    if not rets:
        raise vc.Unsupported("no return path")
    J = z3.BitVec("J", 64)
    for s, _ in rets:
        s2 = s.fork()
        v = ex.elem(s2, on, J)
        s2.pc += [z3.ULT(J, n)]
        ex.obl("every element of the result", s2, v == value(J)[0])
    return ex


def task(t):
    from vf import report
    st = vc.Stats()
    mod = cpp.to_ir(driver(t), f"bitops_{t}")
    tot, fns = None, []
    for op, fn, wb in functions(t):
        for masked in (False, True):
            for alias in (False, True):
                ex = verify(mod, op, fn, wb, TYPES[t][1], masked, alias, st)
                if tot is None:
                    tot = ex
                else:
                    tot.obls += ex.obls
                    tot.loop_report += ex.loop_report
                    tot.lost = getattr(tot, "lost", 0) + ex.lost
        fns.append(f"bitops {fn}")
    return report.result(tot, st, fns)


if __name__ == "__main__":
    import sys, time
    for t in TYPES:
        mod = cpp.to_ir(driver(t), f"bitops_{t}")
        for op, fn, wb in functions(t):
            for masked in (False, True):
                t0 = time.time()
                st = vc.Stats()
                try:
                    ex = verify(mod, op, fn, wb, TYPES[t][1], masked, "alias" in sys.argv, st, print)
                    print(fn, masked, len(ex.obls), "obl", [o.name for o in ex.obls if o.status != "proved"][:3], round(time.time() - t0, 1), ex.lost)
                    if "-v" in sys.argv:
                        print(ex.loop_report)
                except vc.Unsupported as e:
                    print(fn, masked, "UNSUPPORTED", e)
