import z3
from vf import vc, cpp
from vf.vc import bv, simp, fext, i2r, SQRT
from contracts.ops import OpSpec, PowLoop

CORES = {"hcb": ("hcb_basis_core", "hcb", ""), "fermion": ("spinless_fermion_basis_core", "fermion", ""),
         "spinful": ("spinful_fermion_basis_core", "fermion", ""), "boson": ("boson_basis_core", "boson", "sps"),
         "spin": ("higher_spin_basis_core", "spin", "sps")}
import os
DEBUG = os.environ.get("DEBUG")
TYPES = {"u32": ("npy_uint32", 32), "u64": ("npy_uint64", 64)}


def driver(cores=None, types=None):
    sel = {k: v for k, v in CORES.items() if cores is None or k in cores}
    out = ["#include <stdlib.h>"] + [f'#include "{c}.h"' for c in sorted({v[0] for v in sel.values()})]
    out.append("using namespace basis_general;")
    for k, (cls, _, sps) in sel.items():
        for t, (ct, w) in TYPES.items():
            if types is not None and t not in types:
                continue
            ctor = {"": "c(N)", "sps": "c(N,sps)"}[sps]
            if k == "spinful":
                ctor = "c(N,true)"
            out.append(f'extern "C" int {k}_op_{t}(int N, int sps, {ct}* r, double* m, int n_op, const char* opstr, '
                       f'const int* indx){{ {cls}<{ct}> {ctor}; return c.op(*r,*reinterpret_cast<std::complex<double>*>(m),'
                       f'n_op,opstr,indx);}}')
    return "\n".join(out) + "\n"


def verify(mod, core, t, stats, log=None, timeout=10000):
    kind = CORES[core][1]
    w = TYPES[t][1]
    ex = vc.Exec(mod, stats, timeout, log)
    ex.prefix = f"{core}_op_{t}: "
    ex.uf_div = True
    if DEBUG:
        def dbg(spec, bad, s, exprs, m):
            print("DROP", spec.name, [c[0] for c in bad], m if not isinstance(m, z3.ModelRef) else "sat")
            for c in bad[:4]:
                print("     ", c[0], ":", exprs[c[0]])
            print("      pc", [c for c in s.pc][-8:])
        ex.debug = dbg
    st = vc.State()
    # the preconditions 0 <= N < 256, 0 <= sps < 2^15, 0 <= n_op < 2^30 are built into the symbols
    N, sps, n_op = (simp(z3.ZeroExt(32 - w_, z3.BitVec(x, w_))) for x, w_ in (("N", 8), ("sps", 15), ("n_op", 30)))
    pr = ex.arg_array(st, "r", z3.BitVecSort(w), w // 8, bv(1))
    pm = ex.arg_array(st, "m", z3.RealSort(), 8, bv(2))
    po = ex.arg_array(st, "opstr", z3.BitVecSort(8), 1, fext(n_op, 64, True), writable=False)
    pi = ex.arg_array(st, "indx", z3.BitVecSort(32), 4, fext(n_op, 64, True), writable=False)
    Nbits = 2 * N if core == "spinful" else N
    r0 = z3.Select(st.mem["r"], bv(0))
    m0 = (z3.Select(st.mem["m"], bv(0)), z3.Select(st.mem["m"], bv(8)))
    st.pc += [N >= 1, n_op >= 0, n_op < (1 << 30)]
    if kind in ("hcb", "fermion"):
        st.pc += [N <= (w // 2 if core == "spinful" else w)]
    else:
        st.pc += [N <= w, sps >= 2, sps < (1 << 15)]
    spec = OpSpec(kind, w, simp(Nbits), sps, n_op, st.mem["opstr"], st.mem["indx"], r0, m0)
    def policy(ex, f, header, s, info):
        reads = info.regions_read()
        if "opstr" in reads or "indx" in reads:
            if info.depth == 0:
                return ("cut", spec)
        if kind in ("boson", "spin"):
            written, _ = info.discover()
            heaps = {rn for rn, _ in written if rn.startswith("heap")}
            if len(heaps) == 1:
                return ("cut", PowLoop(spec, heaps.pop()))
        return ("unroll", 130)
    ex.loop_policy = policy
    reach = ex.check(st.pc)[0]
    if reach != z3.sat:
        raise vc.Unsupported("precondition unsatisfiable")
    rets = ex.call(st, f"{core}_op_{t}", [N, sps, pr, pm, n_op, po, pi])
    if not rets:
        raise vc.Unsupported("no return path")
    for s, ret in rets:
        gh = s.ghost.get("ops")
        if gh is None:
            # the loop was not entered at all on this path: the string is empty
            ex.obl("returns without looking at the string only if it is empty", s, n_op == 0)
            continue
        known, nx, van, at_end = spec.final(s, gh)
        s.pc += spec.facts(ex, gh)
        err = z3.And(z3.Not(at_end), z3.Not(known))
        done0 = z3.And(z3.Not(at_end), known, van)      # product vanishes at this operator
        rout = ex.elem(s, "r", bv(0))
        mo = (ex.elem(s, "m", bv(0)), ex.elem(s, "m", bv(1)))
        ex.obl("loop is left only at the end, on an unknown letter, or on a vanishing product", s, z3.Or(at_end, err, done0))
        ex.obl("unknown letter is rejected, known ones are not", s, (ret != 0) == err)
        if kind in ("hcb", "fermion"):
            ex.obl("state after the whole string", s, z3.Implies(z3.And(at_end, z3.Or(gh["re"] != 0, gh["im"] != 0)), rout == gh["r"]))
            ex.obl("matrix element after the whole string", s,
                   z3.Implies(at_end, z3.And(mo[0] == gh["re"], mo[1] == gh["im"])))
        else:
            mag = SQRT(gh["W"])
            s.pc += [z3.Implies(gh["W"] == 0, mag == 0)]
            ex.obl("state after the whole string", s, z3.Implies(at_end, rout == gh["r"]))
            ex.obl("matrix element after the whole string", s,
                   z3.Implies(at_end, z3.And(mo[0] == m0[0] * (gh["D"] * mag), mo[1] == m0[1] * (gh["D"] * mag))))
        ex.obl("vanishing product gives a zero matrix element", s, z3.Implies(done0, z3.And(mo[0] == 0, mo[1] == 0)))
    return ex


def task(core, t):
    from vf import report
    mod = cpp.to_ir(driver([core], [t]), f"op_{core}_{t}")
    st = vc.Stats()
    ex = verify(mod, core, t, st)
    return report.result(ex, st, [f"{CORES[core][0]}<{TYPES[t][0]}>::op"])


if __name__ == "__main__":
    import sys, time
    mod = cpp.to_ir(driver(), "ops")
    for core in (sys.argv[1:] or CORES):
        for t in TYPES:
            t0 = time.time()
            st = vc.Stats()
            try:
                ex = verify(mod, core, t, st, print)
                bad = [o for o in ex.obls if o.status != "proved"]
                print(core, t, len(ex.obls), "obligations,", len(bad), "failed", round(time.time() - t0, 1), "s", st.queries)
                for r in ex.loop_report:
                    print("   ", r)
            except vc.Unsupported as e:
                print(core, t, "UNSUPPORTED", e, round(time.time() - t0, 1))
