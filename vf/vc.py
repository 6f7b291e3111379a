"""Verification-condition generator for LLVM IR: symbolic execution with contracts, loop invariants chosen by Houdini
from candidates over ghost state, and one SMT query per obligation."""
import os, time
from fractions import Fraction
import z3
from . import ir
from .ir import T

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """Outside the engine's reach: the function under contract is undecided."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


def bv(n, w=64):
    return z3.BitVecVal(n, w)


def simp(e):
    return z3.simplify(e, elim_sign_ext=False)


def is_true(e):
    return z3.is_true(simp(e))


def is_false(e):
    return z3.is_false(simp(e))


def fpval(x):
    f = Fraction(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Ptr:
    __slots__ = ("reg", "off")

    def __init__(self, reg, off):
        self.reg, self.off = reg, off

    def __repr__(self):
        return f"&{self.reg}+{self.off}"


class FnPtr:
    def __init__(self, name):
        self.name = name


class Raw:
    """a floating point value moved through an integer register"""
    def __init__(self, v):
        self.v = v


def uf_div(st, op, a, b):
    """division by a non-constant as an uninterpreted function (sound: any proof holds for every such function) plus
    the arithmetic facts the contracts need"""
    w = a.size()
    f = z3.Function(f"{op}{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
    r = f(simp(a), simp(b))
    if op == "urem":
        st.pc += [z3.ULT(r, b), z3.Implies(z3.ULT(a, b), r == a), z3.Implies(a == b, r == 0)]
    elif op == "udiv":
        st.pc += [z3.ULE(r, a), z3.Implies(z3.ULT(a, b), r == 0)]
    elif op == "srem":
        st.pc += [z3.Implies(z3.And(a >= 0, a < b), r == a), z3.Implies(z3.And(a == b, b > 0), r == 0),
                  z3.Implies(z3.And(a >= 0, b > 0), z3.And(r >= 0, r < b))]
    return r


def uf_mul(st, a, b):
    """product of two non-constants as an uninterpreted commutative function"""
    a, b = simp(a), simp(b)
    if z3.is_bv_value(a) or z3.is_bv_value(b):
        return a * b
    w = a.size()
    f = z3.Function(f"mul{w}", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
    st.pc += [f(a, b) == f(b, a), z3.Implies(z3.Or(a == 0, b == 0), f(a, b) == 0), z3.Implies(b == 1, f(a, b) == a),
              z3.Implies(a == 1, f(a, b) == b)]
    return f(a, b)


RMUL = z3.Function("rmul", z3.RealSort(), z3.RealSort(), z3.RealSort())


def rmul(a, b):
    """product of reals as a commutative uninterpreted function (commutativity is added when the terms meet in a query)"""
    if z3.is_rational_value(simp(a)) or z3.is_rational_value(simp(b)):
        return simp(a * b)
    return RMUL(a, b)


def rmul_facts(fs):
    """commutativity and zero of the products that occur in the formulas"""
    seen, out, todo = set(), {}, list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().eq(RMUL):
                out[e.get_id()] = e
            todo.extend(e.children())
    return [z3.And(e == RMUL(e.arg(1), e.arg(0)), z3.Implies(z3.Or(e.arg(0) == 0, e.arg(1) == 0), e == 0)) for e in out.values()]


def cvc5_unsat(solver, ms):
    """third opinion"""
    import subprocess
    s = z3.Solver()
    s.add(*solver.assertions())
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(ms)}", "-"], input="(set-logic ALL)\n" + s.to_smt2(), text=True,
                           capture_output=True, timeout=ms / 1000 + 5)
    except (OSError, subprocess.TimeoutExpired):
        return False
    return r.stdout.split()[:1] == ["unsat"]


_REAL = {}


def has_real(e):
    h = _REAL.get(e.get_id())
    if h is None or not h[1].eq(e):
        h = (z3.is_arith(e) or any(has_real(c) for c in e.children()), e)
        _REAL[e.get_id()] = h
    return h[0]


def has_uf(e):
    """uninterpreted multiplication / division inside"""
    return (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0) or any(has_uf(c) for c in e.children())


class Untyped:
    """contents of a fresh allocation before its element type is known: ranges that were zero-filled"""
    def __init__(self, pending=()):
        self.pending = list(pending)


class Region:
    """array: homogeneous cells of one sort, keyed by byte offset; cells: concrete offsets only (structs, locals)."""
    def __init__(self, name, kind, sort=None, esize=None, size=None, writable=True):
        self.name, self.kind, self.sort, self.esize, self.size, self.writable = name, kind, sort, esize, size, writable
        self.pending = []


NULL = Ptr("null", bv(0))

I2R = z3.Function("i2r", z3.BitVecSort(64), z3.RealSort())     # signed 64 bit integer -> real
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
HYPOT = z3.Function("hypot", z3.RealSort(), z3.RealSort(), z3.RealSort())
EXPF = z3.Function("exp", z3.RealSort(), z3.RealSort())
COSF = z3.Function("cos", z3.RealSort(), z3.RealSort())
SINF = z3.Function("sin", z3.RealSort(), z3.RealSort())


def topzero(e):
    """syntactically non-negative"""
    return z3.is_app_of(e, z3.Z3_OP_CONCAT) and z3.is_bv_value(e.arg(0)) and e.arg(0).as_signed_long() >= 0


def fext(e, k, signed):
    """extend to k bits, folding constants so that terms match"""
    w = e.size()
    if w == k:
        return e
    return simp(z3.SignExt(k - w, e) if signed and not topzero(e) else z3.ZeroExt(k - w, e))


def i2r(e, signed):
    """int -> real; canonical form so that code and specification terms coincide"""
    e = simp(e)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), i2r(e.arg(1), signed), i2r(e.arg(2), signed))
    if e.size() < 64:
        e = fext(e, 64, signed)
    elif not signed:
        pass  # trusted: 64 bit unsigned values that are converted to double are < 2^63
    e = simp(e)
    if z3.is_bv_value(e):
        return z3.RealVal(e.as_signed_long())
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), i2r(e.arg(1), True), i2r(e.arg(2), True))
    return I2R(e)


class State:
    __slots__ = ("env", "mem", "pc", "ghost", "unroll", "trace")

    def __init__(self, env=None, mem=None, pc=None, ghost=None):
        self.env, self.mem, self.pc, self.ghost = env or {}, mem or {}, pc or [], ghost or {}
        self.unroll, self.trace = {}, ()

    def fork(self):
        s = State(dict(self.env), dict(self.mem), list(self.pc), dict(self.ghost))
        s.unroll, s.trace = dict(self.unroll), self.trace
        return s


class Obligation:
    def __init__(self, name, status, t, detail=None, backend="z3"):
        self.name, self.status, self.t, self.detail, self.backend = name, status, t, detail, backend
        self.model = None


class View:
    """What candidates may mention at a loop header: phis, scalar cells, arrays."""
    def __init__(self, phis, mem):
        self.phis, self.mem = phis, mem

    def cell(self, reg, off):
        m = self.mem.get(reg)
        if isinstance(m, dict):
            c = m.get(off)
            return c[1] if c else None
        if not z3.is_expr(m):
            return None
        return z3.Select(m, bv(off))


class LoopSpec:
    """Default: no ghost state beyond the iteration counter k."""
    name = "loop"

    def init(self, ex, st):
        return {}

    def havoc(self, ex, g):
        return {k: ex.fresh_like(v, "g_" + k) for k, v in g.items()}

    def step(self, ex, g, st=None):
        return {x: v for x, v in g.items() if x != "k"}

    def facts(self, ex, g):
        return []

    def candidates(self, ex, st, view):
        """[(name, fn(view, ghost) -> Bool)]"""
        return []

    def qcandidates(self, ex, st, view):
        """[(name, region, fn(J, value, ghost) -> Bool)]: for every element index J of the region"""
        return []


class Exec:
    def __init__(self, mod, stats=None, timeout=10000, log=None):
        self.mod = mod
        self.regions = {}
        self.n = 0
        self.obls = []
        self.collect = True
        self.contracts = {}       # callee -> handler(ex, st, args, ins) -> [(st, ret)]
        self.loop_policy = lambda ex, f, header, st, info: ("unroll", 70)
        self.qfacts = {}          # base array name -> [fn(elem index) -> Bool]
        self.stats = stats or Stats()
        self.timeout = timeout
        self.log = log
        self.writes = None
        self.prefix = ""
        self.axioms = [I2R(bv(0)) == 0, I2R(bv(1)) == 1]
        self.loop_report = []
        self.max_states = 4000
        self.cur_fn = None
        self.feas_cache = {}
        self.deadline = float(os.environ["VF_DEADLINE"]) if "VF_DEADLINE" in os.environ else None
        self.throw_ok = False
        self.uf_div = False
        self.poison_shift = False
        self.uf_fmul = False
        self.split_sorts = False
        self.cvc5 = False
        self.by_cvc5 = False
        self.slow = 5000
        self.debug = None
        self.lost = 0          # candidates given up because the solver did not answer
        self.outcomes = []

    # ---- symbols -------------------------------------------------------------------------------------
    def fresh(self, sort, hint="t"):
        self.n += 1
        return z3.Const(f"{hint}!{self.n}", sort)

    def fresh_like(self, v, hint):
        if isinstance(v, Ptr):
            return Ptr(v.reg, self.fresh(z3.BitVecSort(64), hint))
        if isinstance(v, Raw):
            return Raw(self.fresh(v.v.sort(), hint))
        if isinstance(v, (tuple, list)):
            return tuple(self.fresh_like(x, hint) for x in v)
        if isinstance(v, FnPtr):
            return v
        return self.fresh(v.sort(), hint)

    def region(self, name, *a, **k):
        r = Region(name, *a, **k)
        self.regions[name] = r
        return r

    def arg_array(self, st, name, sort, esize, n=None, writable=True):
        """pointer argument to an array of n elements (64-bit expression) of the given sort"""
        self.region(name, "array", sort, esize, None if n is None else simp(n * esize), writable)
        st.mem[name] = z3.Const("mem_" + name, z3.ArraySort(z3.BitVecSort(64), sort))
        return Ptr(name, bv(0))

    def elem(self, st, name, j, mem=None):
        """value of element j of array region (with quantified facts instantiated)"""
        r = self.regions[name]
        arr = (mem or st.mem)[name]
        off = simp(j * r.esize)
        self._inst(st, arr, off, r)
        return z3.Select(arr, off)

    # ---- solving -------------------------------------------------------------------------------------
    def check(self, fs, timeout=None):
        self.stats.queries += 1
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported("time budget exhausted")
        for exact in (False, True):
            # bit counts are abstract (congruence) first; their circuits are put in when that does not decide
            gs = [expand_popc(f) for f in fs] if exact else fs
            s = z3.Solver()
            s.set("timeout", timeout or self.timeout)
            s.add(*self.axioms)
            s.add(*gs)
            if self.uf_fmul:
                s.add(*rmul_facts(gs))
            r = s.check()
            if r == z3.unsat or not any(has_popc(f) for f in fs):
                break
        self.stats.time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, s

    def feasible(self, st):
        for c in st.pc:
            if z3.is_false(c):
                return False
        key = tuple(c.get_id() for c in st.pc)
        hit = self.feas_cache.get(key)
        if hit is not None:
            return hit[0]
        r, _ = self.check(st.pc, 2000)
        self.feas_cache[key] = (r != z3.unsat, list(st.pc))   # keep the terms alive: ids are reused otherwise
        return r != z3.unsat

    def implied(self, st, goal, timeout=None, extra=()):
        """'proved' / 'refuted' / 'unknown'"""
        g = simp(goal)
        if z3.is_true(g):
            return "proved", None
        if self.split_sorts and not has_real(g):
            # integer goals: the facts about real numbers are left out first
            fs = {f.get_id(): f for f in list(st.pc) + list(extra) if not has_real(f) and not (has_uf(f) and not has_uf(g))}
            r, s = self.check(list(fs.values()) + [z3.Not(g)], 5000 if self.cvc5 else timeout)
            if r == z3.unsat:
                return "proved", None
        r, s = self.check(list(st.pc) + list(extra) + [z3.Not(g)], 2500 if self.cvc5 else timeout)
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "refuted", s.model()
        if self.cvc5 and cvc5_unsat(s, timeout or self.timeout):
            self.by_cvc5 = True
            return "proved", None
        # second opinion: simplify arithmetic first
        s2 = z3.Then("simplify", "solve-eqs", "smt").solver()
        s2.set("timeout", timeout or self.timeout)
        s2.add(*self.axioms)
        s2.add(*[expand_popc(f) for f in list(st.pc) + list(extra) + [z3.Not(g)]])
        if self.uf_fmul:
            s2.add(*rmul_facts(list(st.pc) + list(extra) + [g]))
        t = time.time()
        r = s2.check()
        self.stats.time += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "refuted", s2.model()
        return "unknown", None

    def obl(self, name, st, goal, extra=()):
        if not self.collect:
            return
        t = time.time()
        status, model = self.implied(st, goal, extra=extra)
        o = Obligation(self.prefix + name, status, time.time() - t)
        o.backend = "simplifier" if z3.is_true(simp(goal)) else "cvc5" if self.by_cvc5 else "z3"
        self.by_cvc5 = False
        if model is not None:
            o.model = model
        self.obls.append(o)
        if self.log and status != "proved":
            self.log(f"  {status}: {o.name}")

    # ---- memory --------------------------------------------------------------------------------------
    def _inst(self, st, arr, off, r):
        base = arr
        while z3.is_store(base):
            base = base.arg(0)
        if z3.is_const(base):
            for fn in self.qfacts.get(base.decl().name(), ()):
                idx = simp(z3.UDiv(off, bv(r.esize))) if r.esize != 1 else off
                # offsets are always built as index*size: recover the index syntactically when possible
                idx2 = unscale(off, r.esize)
                st.pc.append(simp(fn(idx2 if idx2 is not None else idx)))

    def sort_of(self, t):
        if t.k == "int":
            return z3.BoolSort() if t.w == 1 else z3.BitVecSort(t.w)
        if t.k == "fp":
            return z3.RealSort()
        raise Unsupported(f"memory cell of type {t}")

    def _type_region(self, st, r, t):
        if r.kind == "untyped":
            r.sort = self.sort_of(t) if not (t.k == "int" and t.w == 1) else z3.BitVecSort(8)
            r.esize = t.size()
            r.kind = "array"
        elif r.kind != "array":
            if isinstance(st.mem[r.name], Untyped):
                if st.mem[r.name].pending:
                    raise Unsupported("zero-filled object")
                st.mem[r.name] = {}
            return
        base = self.fresh(z3.ArraySort(z3.BitVecSort(64), r.sort), "heap_" + r.name)
        for lo, n in st.mem[r.name].pending:   # zero fill
            zero = z3.RealVal(0) if r.sort == z3.RealSort() else z3.BitVecVal(0, r.sort.size())
            es = r.esize

            def fact(j, lo=lo, n=n, zero=zero, base=base, es=es):
                o = simp(j * es)
                return z3.Implies(z3.And(z3.ULE(lo, o), z3.ULT(o, lo + n)), z3.Select(base, o) == zero)
            self.qfacts.setdefault(base.decl().name(), []).append(fact)
        st.mem[r.name] = base

    def _bounds(self, st, r, off, size, what):
        if r.size is not None:
            lim = r.size
            self.obl(f"{what} {r.name} in bounds", st, z3.And(z3.ULE(off, lim), z3.ULE(bv(size), lim - off)))

    def load(self, st, p, t):
        if not isinstance(p, Ptr):
            raise Unsupported("load through " + type(p).__name__)
        if p.reg == "null":
            self.obl("load through null", st, z3.BoolVal(False))
            return self.fresh_of(t)
        r = self.regions[p.reg]
        off = simp(p.off)
        if isinstance(st.mem.get(p.reg), Untyped) and t.k in ("int", "fp") or (
                isinstance(st.mem.get(p.reg), Untyped) and r.kind != "untyped"):
            self._type_region(st, r, t)
        if r.kind == "cells":
            if t.k == "struct" or t.k == "array":
                return self._load_agg(st, p, t)
            if not z3.is_bv_value(off):
                raise Unsupported(f"symbolic offset into {r.name}")
            o = off.as_long()
            m = st.mem[r.name]
            if o in m:
                sz, v = m[o]
                return self._coerce(v, sz, t)
            if r.size is not None:
                self._bounds(st, r, off, t.size(), "load")
            for o2, (sz, v) in m.items():
                if o2 < o + t.size() and o < o2 + sz:
                    raise Unsupported(f"partial load from {r.name}+{o}")
            if r.name.startswith("ext_"):
                raise Unsupported(f"unmodelled field {r.name}+{o}")
            v = self.fresh_of(t)
            m = dict(m)
            m[o] = (t.size(), v)
            st.mem[r.name] = m
            return v
        if t.k in ("struct", "array"):
            return self._load_agg(st, p, t)
        if r.kind == "untyped":
            raise Unsupported(f"load of {t} from untyped memory")
        if t.size() != r.esize:
            raise Unsupported(f"load of {t} from {r.name} with {r.esize} byte cells")
        self._bounds(st, r, off, t.size(), "load")
        arr = st.mem[r.name]
        n0 = len(st.pc)
        self._inst(st, arr, off, r)
        v = simp(z3.Select(arr, off))
        if self.uf_div:
            for fct in st.pc[n0:]:
                t2 = self.forced(st, fct, v)
                if t2 is not None:
                    v = t2
                    break
        if t.k == "int" and r.sort == z3.RealSort():
            return Raw(v)
        if t.k == "fp" and r.sort != z3.RealSort():
            raise Unsupported("float load from integer cells")
        if t.k == "int" and t.w == 1:
            return simp(z3.Extract(0, 0, v) == 1)
        if t.k == "int" and r.sort != z3.RealSort() and r.sort.size() != t.w:
            v = z3.Extract(t.w - 1, 0, v)
        if t.k == "ptr":
            raise Unsupported("pointer from array cells")
        return v

    def forced(self, st, fct, v):
        """t if the fact says v == t under a guard the path condition implies"""
        guard = []
        if z3.is_app_of(fct, z3.Z3_OP_IMPLIES):
            guard, fct = [fct.arg(0)], fct.arg(1)
        elif z3.is_or(fct):
            eqs = [c for c in fct.children() if z3.is_eq(c)]
            guard = [z3.Not(c) for c in fct.children() if not z3.is_eq(c)]
            if len(eqs) != 1:
                return None
            fct = eqs[0]
        if not z3.is_eq(fct):
            return None
        a, b = fct.children()
        t = b if a.eq(v) else a if b.eq(v) else None
        if t is None or occurs(v, t):
            return None
        if guard and self.check(st.pc + [z3.Not(z3.And(guard))], 3000)[0] != z3.unsat:
            return None
        return t

    def _load_agg(self, st, p, t):
        if t.k == "struct":
            offs, _ = t.offsets()
            return tuple(self.load(st, Ptr(p.reg, simp(p.off + o)), tt) for o, tt in zip(offs, t.ts))
        return tuple(self.load(st, Ptr(p.reg, simp(p.off + i * t.t.size())), t.t) for i in range(t.n))

    def _coerce(self, v, sz, t):
        if t.size() != sz:
            raise Unsupported("size punning")
        if t.k == "int":
            if isinstance(v, Raw):
                return v
            if z3.is_expr(v) and v.sort() == z3.RealSort():
                return Raw(v)
            if t.w == 1 and z3.is_bv(v):
                return simp(z3.Extract(0, 0, v) == 1)
            if t.w != 1 and z3.is_bool(v):
                return z3.If(v, bv(1, t.w), bv(0, t.w))
        if t.k == "fp":
            if isinstance(v, Raw):
                return v.v
            if z3.is_expr(v) and z3.is_bv(v):
                raise Unsupported("int bits as float")
        if t.k == "ptr" and not isinstance(v, (Ptr, FnPtr)):
            if z3.is_expr(v) and z3.is_bv(v) and is_true(v == 0):
                return NULL
            raise Unsupported("pointer from non-pointer cell")
        return v

    def store(self, st, p, t, v):
        if not isinstance(p, Ptr):
            raise Unsupported("store through " + type(p).__name__)
        if p.reg == "null":
            self.obl("store through null", st, z3.BoolVal(False))
            return
        r = self.regions[p.reg]
        off = simp(p.off)
        if not r.writable:
            self.obl(f"frame: {r.name} is not written", st, z3.BoolVal(False))
            return
        if t.k in ("struct", "array") and isinstance(v, tuple):
            offs = t.offsets()[0] if t.k == "struct" else [i * t.t.size() for i in range(t.n)]
            ts = t.ts if t.k == "struct" else [t.t] * t.n
            for o, tt, x in zip(offs, ts, v):
                self.store(st, Ptr(p.reg, simp(off + o)), tt, x)
            return
        if self.writes is not None:
            self.writes.add((r.name, off.as_long() if r.kind == "cells" and z3.is_bv_value(off) else None))
        if isinstance(st.mem.get(p.reg), Untyped) and r.kind != "untyped":
            self._type_region(st, r, t)
        if r.kind == "cells":
            if not z3.is_bv_value(off):
                raise Unsupported(f"symbolic store into {r.name}")
            o = off.as_long()
            if r.size is not None:
                self._bounds(st, r, off, t.size(), "store")
            m = dict(st.mem[r.name])
            for o2 in [o2 for o2, (sz, _) in m.items() if o2 < o + t.size() and o < o2 + sz]:
                del m[o2]
            m[o] = (t.size(), v)
            st.mem[r.name] = m
            return
        if r.kind == "untyped":
            if isinstance(v, Raw):
                t = T("fp", t.size() * 8)
            if isinstance(v, (Ptr, FnPtr)):
                # heap object: concrete cells from here on
                r.kind = "cells"
                st.mem[r.name] = {}
                return self.store(st, p, t, v)
            self._type_region(st, r, t)
        if t.size() != r.esize:
            raise Unsupported(f"store of {t} into {r.name} with {r.esize} byte cells")
        self._bounds(st, r, off, t.size(), "store")
        if isinstance(v, Raw):
            v = v.v
        if z3.is_bool(v):
            v = z3.If(v, bv(1, 8), bv(0, 8))
        if r.sort == z3.RealSort() and z3.is_bv(v):
            if is_true(v == 0):
                v = z3.RealVal(0)
            else:
                raise Unsupported("int bits stored as float")
        if v.sort() != r.sort:
            if z3.is_bv(v) and z3.is_bv_sort(r.sort) and v.size() < r.sort.size():
                v = z3.ZeroExt(r.sort.size() - v.size(), v)
            else:
                raise Unsupported(f"store of {v.sort()} into {r.sort}")
        st.mem[r.name] = z3.Store(st.mem[r.name], off, v)

    def fresh_of(self, t, hint="u"):
        if t.k in ("int", "fp"):
            return self.fresh(self.sort_of(t), hint)
        if t.k == "struct":
            return tuple(self.fresh_of(x, hint) for x in t.ts)
        if t.k == "array":
            return tuple(self.fresh_of(t.t, hint) for _ in range(t.n))
        if t.k == "ptr":
            return NULL
        raise Unsupported(f"value of type {t}")

    def zero_of(self, t):
        if t.k == "int":
            return z3.BoolVal(False) if t.w == 1 else bv(0, t.w)
        if t.k == "fp":
            return z3.RealVal(0)
        if t.k == "ptr":
            return NULL
        if t.k == "struct":
            return tuple(self.zero_of(x) for x in t.ts)
        if t.k == "array":
            return tuple(self.zero_of(t.t) for _ in range(t.n))
        raise Unsupported(f"zero of {t}")

    def global_ptr(self, st, name):
        if name in self.mod.fn_src or name in self.mod.decls:
            return FnPtr(name)
        rn = "glob_" + name
        if rn not in st.mem:
            d = self.mod.global_def(name)
            if d is None:
                raise Unsupported("global " + name)
            ty, init, const = d
            if rn not in self.regions:
                self.region(rn, "cells", size=bv(ty.size()), writable=not const)
            r = self.regions[rn]
            if init is None or not const:
                # contents unknown: typed on first use
                r.kind = "untyped"
                st.mem[rn] = Untyped()
            elif ty.k == "array" and ty.t.k in ("int", "fp"):
                r.kind, r.sort, r.esize = "array", self.sort_of(ty.t), ty.t.size()
                arr = self.fresh(z3.ArraySort(z3.BitVecSort(64), r.sort), rn)
                vals = [(0 if init[0] == "zero" else init[1][i][1]) for i in range(ty.n)]
                for i, x in enumerate(vals):
                    arr = z3.Store(arr, bv(i * r.esize), fpval(x) if ty.t.k == "fp" else bv(x, ty.t.w))
                st.mem[rn] = arr
            else:
                r.kind = "cells"
                st.mem[rn] = {}
                self._init_cells(st, rn, 0, ty, init)
        return Ptr(rn, bv(0))

    def _init_cells(self, st, rn, off, ty, init):
        if ty.k == "struct":
            for o, tt, i in zip(ty.offsets()[0], ty.ts, init[1] if init[0] == "agg" else [("zero",)] * len(ty.ts)):
                self._init_cells(st, rn, off + o, tt, i)
        elif ty.k == "array":
            for k in range(ty.n):
                self._init_cells(st, rn, off + k * ty.t.size(), ty.t, init[1][k] if init[0] == "agg" else ("zero",))
        else:
            m = dict(st.mem[rn])
            try:
                m[off] = (ty.size(), self.const(st, ty, init))
            except Unsupported:
                return
            st.mem[rn] = m

    def malloc(self, st, size, name="heap"):
        self.n += 1
        rn = f"{name}{self.n}"
        self.region(rn, "untyped", size=size)
        st.mem[rn] = Untyped()
        return Ptr(rn, bv(0))

    # ---- values --------------------------------------------------------------------------------------
    def const(self, st, ty, v):
        k = v[0]
        if k == "int":
            if ty.k == "fp":
                return fpval(v[1])
            if ty.w == 1:
                return z3.BoolVal(bool(v[1]))
            return bv(v[1], ty.w)
        if k == "fp":
            if v[1] != v[1] or v[1] in (float("inf"), float("-inf")):
                raise Unsupported("non-finite constant")
            return fpval(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return self.fresh_of(ty, "undef")
        if k == "zero":
            return self.zero_of(ty)
        if k == "global":
            return self.global_ptr(st, v[1])
        if k == "agg":
            ts = ty.ts if ty.k == "struct" else [ty.t] * ty.n
            return tuple(self.const(st, t, x) for t, x in zip(ts, v[1]))
        if k == "gep":
            return self.gep(st, v[1], self.const(st, ir.PTR, v[2]), [(t, self.const(st, t, x)) for t, x in v[3]])
        raise Unsupported("constant " + repr(v)[:80])

    def val(self, st, ty, v):
        if v[0] == "local":
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported("value " + v[1])
        return self.const(st, ty, v)

    def gep(self, st, bt, base, idx):
        if isinstance(base, FnPtr):
            raise Unsupported("gep on function")
        off = base.off
        t = bt
        for n, (it, iv) in enumerate(idx):
            iv = fext(iv, 64, True)
            if n == 0:
                off = off + iv * bv(t.size())
            elif t.k == "struct":
                i = simp(iv).as_long()
                off = off + bv(t.offsets()[0][i])
                t = t.ts[i]
            else:
                t = t.t
                off = off + iv * bv(t.size())
        return Ptr(base.reg, simp(off))

    # ---- running -------------------------------------------------------------------------------------
    def call(self, st, fname, args):
        f = self.mod.func(fname)
        if f is None:
            raise Unsupported("no body for " + fname)
        saved_env, saved_unroll = st.env, st.unroll
        st2 = st.fork()
        st2.env = {nm: a for (nm, _), a in zip(f.params, args)}
        st2.unroll = {}
        rets = []
        prev_fn, self.cur_fn = self.cur_fn, fname
        self.run(f, [(st2, f.order[0], None)], rets=rets)
        self.cur_fn = prev_fn
        out = []
        for s, v in rets:
            s.env, s.unroll = dict(saved_env), dict(saved_unroll)
            out.append((s, v))
        return out

    def run(self, f, items, rets=None, within=None, header=None, backs=None, exits=None):
        loops = ir.natural_loops(f)
        items = list(items)
        count = 0
        while items:
            st, b, prev = items.pop()
            count += 1
            if count > self.max_states:
                raise Unsupported("too many paths in " + f.name)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            resume = prev == "__resume__"
            if not resume:
                if within is not None:
                    if b == header:
                        backs.append((st, prev))
                        continue
                    if b not in within:
                        exits.append((st, b, prev))
                        continue
                if b in loops:
                    entered = prev not in loops[b]
                    if entered:
                        info = LoopInfo(self, f, b, loops[b], st, prev)
                        pol = self.loop_policy(self, f, b, st, info)
                        if pol[0] == "cut":
                            items += self.cut(f, b, loops[b], st, prev, pol[1], info)
                            continue
                        st.unroll[b] = 0
                        st.unroll["max" + b] = pol[1]
                    else:
                        st.unroll[b] = st.unroll.get(b, 0) + 1
                        if st.unroll[b] > st.unroll.get("max" + b, 70):
                            raise Unsupported(f"unwinding bound of loop {b} in {f.name}")
                self.phis(f, st, b, prev)
            items += self.block(f, st, b, rets)

    def phis(self, f, st, b, prev):
        new = {}
        for ins in f.blocks[b]:
            if ins.op != "phi":
                break
            for v, lab in ins.a[0]:
                if lab == prev:
                    new[ins.res] = self.val(st, ins.ty, v)
                    break
            else:
                raise Unsupported(f"phi edge {prev}->{b}")
        st.env.update(new)

    def block(self, f, st, b, rets):
        """execute the non-phi instructions; -> successor items"""
        states = [st]
        for ins in f.blocks[b]:
            if ins.op == "phi":
                continue
            if ins.op in ("br", "switch", "ret", "unreachable", "resume", "invoke"):
                out = []
                for s in states:
                    out += self.term(f, s, b, ins, rets)
                return out
            nxt = []
            for s in states:
                r = self.step(f, s, ins)
                if r is None:
                    nxt.append(s)
                else:
                    nxt += r
            states = nxt
        raise Unsupported("block without terminator")

    def term(self, f, st, b, ins, rets):
        if ins.op == "ret":
            v = None if ins.ty.k == "void" else self.val(st, ins.ty, ins.a[0])
            if rets is None:
                raise Unsupported("return inside loop body")
            rets.append((st, v))
            return []
        if ins.op == "br":
            if len(ins.a) == 1:
                return [(st, ins.a[0], b)]
            c = simp(self.val(st, ir.I1, ins.a[0]))
            return self.branch(st, [(c, ins.a[1]), (z3.Not(c), ins.a[2])], b)
        if ins.op == "switch":
            v = self.val(st, ins.ty, ins.a[0])
            alts, neg = [], []
            for cv, lab in ins.a[2]:
                c = (v == bv(cv, ins.ty.w)) if ins.ty.w > 1 else (v if cv else z3.Not(v))
                alts.append((simp(c), lab))
                neg.append(z3.Not(c))
            alts.append((simp(z3.And(neg)) if neg else z3.BoolVal(True), ins.a[1]))
            return self.branch(st, alts, b)
        if ins.op == "unreachable":
            return []      # after a trap/throw: the call recorded the obligation
        if ins.op == "resume":
            return []
        if ins.op == "invoke":
            out = []
            for s in self.do_call(f, st, ins) or [st]:
                out.append((s, ins.a[2], b))
            return out

    def branch(self, st, alts, b):
        out = []
        live = []
        for c, lab in alts:
            if z3.is_true(c):
                return [(st, lab, b)]
            if not z3.is_false(c):
                live.append((c, lab))
        for c, lab in live:
            s = st.fork()
            s.pc.append(c)
            if self.feasible(s):
                out.append((s, lab, b))
        return out

    # ---- instructions --------------------------------------------------------------------------------
    def step(self, f, st, ins):
        op = ins.op
        E = st.env
        V = lambda t, v: self.val(st, t, v)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1])
            if isinstance(a, Raw) or isinstance(b, Raw):
                raise Unsupported("integer arithmetic on float bits")
            if isinstance(a, PInt) or isinstance(b, PInt):
                E[ins.res] = self.pint(st, op, a, b)
                return
            if ins.ty.k != "int":
                raise Unsupported(f"{op} on {ins.ty}")
            if ins.ty.w == 1:
                a, b = as_bool(a), as_bool(b)
                r = {"and": lambda: z3.And(a, b), "or": lambda: z3.Or(a, b), "xor": lambda: z3.Xor(a, b),
                     "add": lambda: z3.Xor(a, b), "sub": lambda: z3.Xor(a, b)}.get(op)
                if r is None:
                    raise Unsupported(op + " i1")
                E[ins.res] = simp(r())
                return
            if op in ("udiv", "sdiv", "urem", "srem"):
                self.obl("division by zero", st, b != 0)
                st.pc.append(simp(b != 0))
            if op in ("shl", "lshr", "ashr") and not z3.is_bv_value(simp(b)) and self.poison_shift:
                # shifts out of range in the source are explicit traps (-fsanitize=shift); one that the optimiser moved
                # in front of its guard gives an arbitrary value
                rs = {"shl": a << b, "lshr": z3.LShR(a, b), "ashr": a >> b}[op]
                E[ins.res] = simp(z3.If(z3.ULT(b, bv(ins.ty.w, ins.ty.w)), rs, self.fresh(rs.sort(), "poison")))
                return
            if op in ("shl", "lshr", "ashr") and not z3.is_bv_value(simp(b)):
                self.obl("shift in range", st, z3.ULT(b, bv(ins.ty.w, ins.ty.w)))
            if self.uf_div and op in ("udiv", "sdiv", "urem", "srem") and not z3.is_bv_value(simp(b)):
                E[ins.res] = uf_div(st, op, a, b)
                return
            if self.uf_div and op == "mul":
                E[ins.res] = simp(uf_mul(st, a, b))
                return
            if self.uf_div and op == "xor" and z3.is_bv_value(b) and b.as_signed_long() == -1:
                E[ins.res] = simp(-a - 1)
                return
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: z3.UDiv(a, b),
                 "sdiv": lambda: a / b, "urem": lambda: z3.URem(a, b), "srem": lambda: z3.SRem(a, b), "shl": lambda: a << b,
                 "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b}[op]()
            E[ins.res] = simp(r)
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1])
            if ins.ty.k != "fp":
                raise Unsupported(f"{op} on {ins.ty}")
            if op == "fdiv" and not z3.is_rational_value(simp(b)):
                self.obl("floating division by zero", st, b != 0)
            if op == "fmul" and self.uf_fmul:
                E[ins.res] = rmul(a, b)
                return
            E[ins.res] = simp({"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op]())
            return
        if op == "fneg":
            E[ins.res] = simp(-V(ins.ty, ins.a[0]))
            return
        if op == "icmp":
            a, b = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            E[ins.res] = self.icmp(st, ins.a[0], a, b)
            return
        if op == "fcmp":
            a, b = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            p = ins.a[0]
            if p in ("ord", "true"):
                E[ins.res] = z3.BoolVal(True)
            elif p in ("uno", "false"):
                E[ins.res] = z3.BoolVal(False)
            else:
                E[ins.res] = simp({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]])
            return
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
                  "fptrunc"):
            E[ins.res] = self.cast(st, op, V(ins.a[1], ins.a[0]), ins.a[1], ins.ty)
            return
        if op == "select":
            c = simp(as_bool(V(ir.I1, ins.a[0])))
            a, b = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            m = ite(c, a, b)
            if m is not None:
                E[ins.res] = m
                return
            out = []
            for cc, v in ((c, a), (z3.Not(c), b)):
                s = st.fork()
                s.pc.append(simp(cc))
                if self.feasible(s):
                    s.env[ins.res] = v
                    out.append(s)
            return out
        if op == "alloca":
            self.n += 1
            rn = f"loc{self.n}"
            n = 1
            if ins.a[0] is not None:
                nv = simp(V(T("int", 64), ins.a[0]) if ins.a[0][0] != "int" else bv(ins.a[0][1]))
                if not z3.is_bv_value(nv):
                    raise Unsupported("variable-size alloca")
                n = nv.as_long()
            t = ins.ty
            inner = t
            while inner.k == "struct" and len(inner.ts) == 1:
                inner = inner.ts[0]
            if inner.k == "array" and inner.t.k in ("int", "fp") and inner.n > 4:
                self.region(rn, "untyped", size=bv(t.size() * n))
                st.mem[rn] = Untyped()
            else:
                self.region(rn, "cells", size=bv(t.size() * n))
                st.mem[rn] = {}
            E[ins.res] = Ptr(rn, bv(0))
            return
        if op == "load":
            p = V(ir.PTR, ins.a[0])
            E[ins.res] = self.load(st, p, ins.ty)
            return
        if op == "store":
            v = V(ins.ty, ins.a[0])
            self.store(st, V(ir.PTR, ins.a[1]), ins.ty, v)
            return
        if op == "getelementptr":
            base = V(ir.PTR, ins.a[0])
            E[ins.res] = self.gep(st, ins.ty, base, [(t, V(t, v)) for t, v in ins.a[1]])
            return
        if op == "call":
            return self.do_call(f, st, ins)
        if op == "extractvalue":
            v = V(ins.ty, ins.a[0])
            for i in ins.a[1]:
                v = v[i]
            E[ins.res] = v
            return
        if op == "insertvalue":
            v = V(ins.ty, ins.a[0])

            def put(v, ix, x):
                v = list(v)
                v[ix[0]] = x if len(ix) == 1 else put(v[ix[0]], ix[1:], x)
                return tuple(v)
            x = ins.a[1]
            xv = st.env[x[1]] if x[0] == "local" else None
            if xv is None:
                t = ins.ty
                for i in ins.a[2]:
                    t = t.ts[i] if t.k == "struct" else t.t
                xv = self.const(st, t, x)
            E[ins.res] = put(v, ins.a[2], xv)
            return
        if op == "freeze":
            E[ins.res] = V(ins.ty, ins.a[0])
            return
        if op == "landingpad":
            E[ins.res] = (NULL, bv(0, 32))
            return
        raise Unsupported(f"instruction {ins.line[:100]}")

    def icmp(self, st, p, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer comparison")
            if a.reg == b.reg:
                x, y = a.off, b.off
                return simp({"eq": x == y, "ne": x != y, "ult": z3.ULT(x, y), "ule": z3.ULE(x, y), "ugt": z3.UGT(x, y),
                             "uge": z3.UGE(x, y)}[p])
            if p == "eq":
                return z3.BoolVal(False)
            if p == "ne":
                return z3.BoolVal(True)
            if "null" in (a.reg, b.reg):
                return z3.BoolVal((p in ("ugt", "uge")) == (b.reg == "null"))
            raise Unsupported("order of unrelated pointers")
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            return z3.BoolVal((p == "ne"))
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt) and a.reg == b.reg:
                a, b = a.off, b.off
            else:
                raise Unsupported("pointer integer comparison")
        if isinstance(a, Raw) or isinstance(b, Raw):
            if p in ("eq", "ne") and isinstance(a, Raw) and z3.is_expr(b) and is_true(b == 0):
                raise Unsupported("float bits compared")
            raise Unsupported("float bits compared")
        if z3.is_bool(a) or z3.is_bool(b):
            a, b = as_bool(a), as_bool(b)
            if p == "eq":
                return simp(a == b)
            if p == "ne":
                return simp(z3.Xor(a, b))
            if p == "ult":
                return simp(z3.And(z3.Not(a), b))
            if p == "ugt":
                return simp(z3.And(a, z3.Not(b)))
            if p == "ule":
                return simp(z3.Or(z3.Not(a), b))
            if p == "uge":
                return simp(z3.Or(a, z3.Not(b)))
            raise Unsupported("icmp i1 " + p)
        return simp({"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b,
                     "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                     "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[p]())

    def cast(self, st, op, v, ft, tt):
        if op == "bitcast":
            if isinstance(v, Raw) and tt.k == "fp":
                return v.v
            if ft.k == "fp" and tt.k == "int":
                return Raw(v)
            if ft == tt:
                return v
            raise Unsupported("bitcast")
        if op == "ptrtoint":
            return PInt(v.reg, v.off) if isinstance(v, Ptr) else v
        if op == "inttoptr":
            if isinstance(v, PInt):
                return Ptr(v.reg, v.off)
            if z3.is_expr(v) and is_true(v == 0):
                return NULL
            raise Unsupported("inttoptr")
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("zext", "sext", "trunc"):
            if isinstance(v, PInt):
                raise Unsupported("cast of pointer integer")
            if isinstance(v, Raw):
                raise Unsupported("cast of float bits")
            if ft.w == 1:
                v = as_bool(v)
                return simp(z3.If(v, bv(1 if op == "zext" else -1, tt.w), bv(0, tt.w)))
            if op == "trunc":
                if tt.w == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(tt.w - 1, 0, v))
            return fext(v, tt.w, op == "sext")
        if op in ("sitofp", "uitofp"):
            if ft.w == 1:
                return simp(z3.If(as_bool(v), z3.RealVal(1 if op == "uitofp" else -1), z3.RealVal(0)))
            if ft.w > 64:
                raise Unsupported("wide int to float")
            return i2r(v, op == "sitofp")
        if op in ("fptosi", "fptoui"):
            fn = z3.Function(f"r2i{tt.w}", z3.RealSort(), z3.BitVecSort(tt.w))
            return fn(v)
        raise Unsupported(op)

    def pint(self, st, op, a, b):
        if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
            if a.reg == b.reg:
                return simp(a.off - b.off)
            raise Unsupported("difference of unrelated pointers")
        if op == "add" and isinstance(a, PInt) and not isinstance(b, PInt):
            return PInt(a.reg, simp(a.off + b))
        if op == "add" and isinstance(b, PInt):
            return PInt(b.reg, simp(b.off + a))
        if op == "sub" and isinstance(a, PInt):
            return PInt(a.reg, simp(a.off - b))
        raise Unsupported("pointer arithmetic " + op)

    # ---- calls ---------------------------------------------------------------------------------------
    def do_call(self, f, st, ins):
        cv, args, dest = ins.a
        name = None
        if cv[0] == "global":
            name = cv[1]
        elif cv[0] == "local":
            fp = st.env.get(cv[1])
            if isinstance(fp, FnPtr):
                name = fp.name
            else:
                raise Unsupported("indirect call")
        else:
            raise Unsupported("call of constant")
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch")):
            return None
        av = [self.val(st, t, v) if t.k != "metadata" else None for t, v in args]
        h = self.find_contract(name)
        if h is not None:
            out = []
            for s, r in h(self, st, av, ins):
                if ins.res is not None and r is not None:
                    s.env[ins.res] = r
                out.append(s)
            return out
        r = self.intrinsic(st, name, av, ins, args)
        if r is not NotImplemented:
            if isinstance(r, list):
                return r
            if ins.res is not None:
                st.env[ins.res] = r
            return None
        if name in self.mod.fn_src:
            out = []
            for s, v in self.call(st, name, av):
                if ins.res is not None and v is not None:
                    s.env[ins.res] = v
                out.append(s)
            return out
        raise Unsupported("call of external " + name)

    def find_contract(self, name):
        h = self.contracts.get(name)
        if h:
            return h
        for k, h in self.contracts.items():
            if k.startswith("~") and k[1:] in name:
                return h
        return None

    def intrinsic(self, st, name, a, ins, targs):
        if name.startswith("llvm."):
            n = name[5:]
            if n.startswith("assume"):
                st.pc.append(simp(as_bool(a[0])))
                return None
            if n.startswith("ubsantrap") or n.startswith("trap"):
                kind = {3: "division by zero or overflow", 20: "shift amount"}.get(
                    simp(a[0]).as_long() if a else -1, "trap")
                self.obl(f"no undefined behaviour ({kind})", st, z3.BoolVal(False))
                return []
            if n.startswith(("umax", "umin", "smax", "smin")):
                x, y = a
                c = {"umax": z3.UGE, "umin": z3.ULE, "smax": lambda p, q: p >= q, "smin": lambda p, q: p <= q}[n[:4]](x, y)
                return simp(z3.If(c, x, y))
            if n.startswith("abs."):
                return simp(z3.If(a[0] < 0, -a[0], a[0]))
            if n.startswith("ctpop"):
                w = a[0].size()
                return popc(a[0])
            if n.startswith("cttz"):
                w = a[0].size()
                r = bv(w, w)
                for i in range(w - 1, -1, -1):
                    r = z3.If(z3.Extract(i, i, a[0]) == 1, bv(i, w), r)
                return simp(r)
            if n.startswith("ctlz"):
                w = a[0].size()
                r = bv(w, w)
                for i in range(w):
                    r = z3.If(z3.Extract(i, i, a[0]) == 1, bv(w - 1 - i, w), r)
                return simp(r)
            if n.startswith("fshl"):
                x, y, k = a
                if isinstance(x, z3.ExprRef) and x.eq(y):
                    return simp(z3.RotateLeft(x, k))
                raise Unsupported(name)
            if n.startswith(("fmuladd", "fma")):
                return simp(a[0] * a[1] + a[2])
            if n.startswith("fabs"):
                return simp(z3.If(a[0] < 0, -a[0], a[0]))
            if n.startswith("sqrt"):
                return self.sqrt(st, a[0])
            if n.startswith("copysign"):
                raise Unsupported(name)
            if n.startswith("memset"):
                return self.memset(st, a[0], a[1], a[2])
            if n.startswith(("memcpy", "memmove")):
                return self.memcpy(st, a[0], a[1], a[2])
            if n.startswith(("uadd.with.overflow", "umul.with.overflow", "sadd.with.overflow", "smul.with.overflow",
                             "usub.with.overflow", "ssub.with.overflow")):
                x, y = a
                o = n[1:4]
                r = {"add": x + y, "sub": x - y, "mul": x * y}[o]
                sg = n[0] == "s"
                if o == "add":
                    ok = z3.And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y) if sg else z3.BoolVal(True))
                elif o == "sub":
                    ok = z3.And(z3.BVSubNoOverflow(x, y) if sg else z3.BoolVal(True), z3.BVSubNoUnderflow(x, y, sg))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y) if sg else z3.BoolVal(True))
                return (simp(r), simp(z3.Not(ok)))
            if n.startswith("is.fpclass") or n.startswith("isnan"):
                return z3.BoolVal(False)
            if n.startswith("expect"):
                return a[0]
            raise Unsupported(name)
        if name in ("sqrt", "sqrtf", "sqrtl"):
            return self.sqrt(st, a[0])
        if name in ("hypot", "hypotf", "cabs", "cabsf"):
            h = HYPOT(a[0], a[1])
            st.pc += [h >= 0, h * h == a[0] * a[0] + a[1] * a[1], (h == 0) == z3.And(a[0] == 0, a[1] == 0)]
            return h
        if name in ("cos", "sin", "exp"):
            return {"cos": COSF, "sin": SINF, "exp": EXPF}[name](a[0])
        if name == "sincos":
            self.store(st, a[1], T("fp", 64), SINF(a[0]))
            self.store(st, a[2], T("fp", 64), COSF(a[0]))
            return None
        if name in ("_Znwm", "_Znam", "malloc"):
            return self.malloc(st, a[0])
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "free"):
            return None
        if name.startswith(("_ZSt20__throw", "_ZSt17__throw", "_ZSt24__throw", "_ZSt28__throw", "_ZSt16__throw")) or \
                name in ("__cxa_throw", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_throw_bad_array_new_length"):
            if not self.throw_ok:
                self.obl(f"no exception ({name})", st, z3.BoolVal(False))
            else:
                self.outcomes.append(("throw", st))
            return []
        return NotImplemented

    def sqrt(self, st, x):
        x = simp(x)
        if z3.is_rational_value(x) and x.numerator_as_long() in (0, 1) and x.denominator_as_long() == 1:
            return x
        s = SQRT(x)
        st.pc += [z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)), z3.Implies(x == 0, s == 0)]
        return s

    def memset(self, st, p, v, n):
        v = simp(v)
        n = simp(n)
        if p.reg == "null":
            return None
        r = self.regions[p.reg]
        if not is_true(v == 0):
            raise Unsupported("memset with non-zero byte")
        if self.writes is not None:
            self.writes.add((r.name, None))
        if r.size is not None:
            self.obl(f"memset {r.name} in bounds", st, z3.And(z3.ULE(p.off, r.size), z3.ULE(n, r.size - p.off)))
        if isinstance(st.mem[r.name], Untyped):
            st.mem[r.name] = Untyped(st.mem[r.name].pending + [(simp(p.off), n)])
            return None
        if r.kind == "cells":
            off = simp(p.off)
            if not (z3.is_bv_value(off) and z3.is_bv_value(n)):
                raise Unsupported("memset")
            o, k = off.as_long(), n.as_long()
            m = dict(st.mem[r.name])
            for o2 in [x for x in m if o <= x < o + k]:
                del m[o2]
            for o2 in range(o, o + k - 7, 8):
                m[o2] = (8, bv(0))
            st.mem[r.name] = m
            return None
        if z3.is_bv_value(n) and n.as_long() <= 64 * r.esize:
            zero = z3.RealVal(0) if r.sort == z3.RealSort() else bv(0, r.sort.size())
            arr = st.mem[r.name]
            for o in range(0, n.as_long(), r.esize):
                arr = z3.Store(arr, simp(p.off + o), zero)
            st.mem[r.name] = arr
            return None
        # symbolic length: fresh array with quantified facts
        old = st.mem[r.name]
        new = self.fresh(old.sort(), "mset")
        zero = z3.RealVal(0) if r.sort == z3.RealSort() else bv(0, r.sort.size())
        es = r.esize

        def fact(j, new=new, old=old, p=p, n=n, zero=zero, es=es, st=st, r=r):
            o = simp(j * es)
            return z3.Select(new, o) == z3.If(z3.And(z3.ULE(p.off, o), z3.ULT(o - p.off, n)), zero, z3.Select(old, o))
        self.qfacts.setdefault(new.decl().name(), []).append(fact)
        self.chain(new, old, r)
        st.mem[r.name] = new
        return None

    def chain(self, new, old, r):
        """facts about old are also needed when new is read"""
        base = old
        while z3.is_store(base):
            base = base.arg(0)
        if z3.is_const(base):
            for fn in self.qfacts.get(base.decl().name(), ()):
                self.qfacts.setdefault(new.decl().name(), []).append(fn)

    def memcpy(self, st, d, s, n):
        n = simp(n)
        if z3.is_bv_value(n) and n.as_long() == 0:
            return None
        rd, rs = self.regions[d.reg], self.regions[s.reg]
        if self.writes is not None:
            self.writes.add((rd.name, None))
        if isinstance(st.mem[rs.name], Untyped):
            raise Unsupported("memcpy from untyped memory")
        if rs.kind == "array" and isinstance(st.mem[rd.name], Untyped) and rd.kind in ("untyped", "array") and z3.is_bv_value(simp(d.off)):
            old = st.mem[rs.name]
            new = self.fresh(old.sort(), "mcpy")
            rd.kind, rd.sort, rd.esize = "array", rs.sort, rs.esize
            st.mem[rd.name] = new

            def fact(j, new=new, old=old, s=s, d=d, n=n, es=rs.esize):
                o = simp(j * es)
                return z3.Implies(z3.And(z3.ULE(d.off, o), z3.ULT(o - d.off, n)),
                                  z3.Select(new, o) == z3.Select(old, simp(s.off + (o - d.off))))
            self.qfacts.setdefault(new.decl().name(), []).append(fact)
            return None
        if rs.kind == "array" and rd.kind == "array" and rs.esize == rd.esize:
            old, olds = st.mem[rd.name], st.mem[rs.name]
            new = self.fresh(old.sort(), "mcpy")

            def fact(j, new=new, old=old, olds=olds, s=s, d=d, n=n, es=rd.esize):
                o = simp(j * es)
                return z3.Select(new, o) == z3.If(z3.And(z3.ULE(d.off, o), z3.ULT(o - d.off, n)),
                                                  z3.Select(olds, simp(s.off + (o - d.off))), z3.Select(old, o))
            self.qfacts.setdefault(new.decl().name(), []).append(fact)
            self.chain(new, old, rd)
            st.mem[rd.name] = new
            return None
        if rs.kind == "cells" and rd.kind in ("cells", "untyped") and z3.is_bv_value(n) and z3.is_bv_value(simp(s.off)) \
                and z3.is_bv_value(simp(d.off)):
            so, do, k = simp(s.off).as_long(), simp(d.off).as_long(), n.as_long()
            if isinstance(st.mem[rd.name], Untyped):
                rd.kind = "cells"
                st.mem[rd.name] = {}
            m = dict(st.mem[rd.name])
            for o2 in [x for x in m if do <= x < do + k]:
                del m[o2]
            for o, (sz, v) in st.mem[rs.name].items():
                if so <= o and o + sz <= so + k:
                    m[do + o - so] = (sz, v)
            st.mem[rd.name] = m
            return None
        raise Unsupported(f"memcpy {rs.kind}->{rd.kind}")

    # ---- loops by invariant --------------------------------------------------------------------------
    def phi_list(self, f, header):
        return [i for i in f.blocks[header] if i.op == "phi"]

    def havoc_state(self, f, header, st, entry_phis, written):
        s = st.fork()
        for ins in self.phi_list(f, header):
            s.env[ins.res] = self.fresh_like(entry_phis[ins.res], "h_" + ins.res)
        for rn, off in sorted(written, key=repr):
            if rn not in s.mem:
                continue       # allocated inside the body
            r = self.regions[rn]
            if r.kind == "untyped":
                continue
            if isinstance(s.mem[rn], Untyped):
                if r.kind == "cells":
                    raise Unsupported("untyped object written in loop")
                s.mem[rn] = self.fresh(z3.ArraySort(z3.BitVecSort(64), r.sort), "h_" + rn)
                continue
            if r.kind == "cells":
                m = dict(s.mem[rn])
                offs = [off] if off is not None else list(m)
                for o in offs:
                    if o in m:
                        sz, v = m[o]
                        if isinstance(v, Ptr) and v.reg == "null":
                            raise Unsupported("null pointer cell assigned in loop")
                        m[o] = (sz, self.fresh_like(v, f"h_{rn}_{o}"))
                s.mem[rn] = m
            else:
                s.mem[rn] = self.fresh(s.mem[rn].sort(), "h_" + rn)
        return s

    def cut(self, f, header, body, st, prev, spec, info):
        collect0, self.collect = self.collect, False
        writes0 = self.writes
        try:
            # entry values of the phis
            s0 = st.fork()
            self.phis(f, s0, header, prev)
            entry_phis = {i.res: s0.env[i.res] for i in self.phi_list(f, header)}
            entry_env = s0
            written, deltas = info.discover(entry_phis)
            g0 = {"k": bv(0)}
            g0.update(spec.init(self, entry_env))
            entry_view = View(entry_phis, entry_env.mem)
            cands = self.generic_candidates(f, header, entry_env, entry_view, g0, deltas, written)
            cands += spec.candidates(self, entry_env, entry_view)
            qc = spec.qcandidates(self, entry_env, entry_view)
            J = self.fresh(z3.BitVecSort(64), "J")

            def evalc(c, view, g):
                try:
                    return c[1](view, g)
                except (z3.Z3Exception, AttributeError, KeyError, TypeError):
                    return None

            def evalq(c, s, g):
                r = self.regions[c[1]]
                if isinstance(s.mem.get(c[1]), Untyped):
                    if r.kind != "array":
                        return None
                    self._type_region(s, r, None)
                if c[1] not in s.mem:
                    return None
                return c[2](J, self.elem(s, c[1], J), g)
            # entry filter
            keep = []
            e = entry_env.fork()
            e.pc += spec.facts(self, g0)
            for c in cands:
                b = evalc(c, entry_view, g0)
                if b is not None and self.implied(e, b, 4000)[0] == "proved":
                    keep.append(c)
            qkeep = []
            for c in qc:
                e2 = e.fork()
                b = evalq(c, e2, g0)
                if b is not None and self.implied(e2, b, 4000)[0] == "proved":
                    qkeep.append(c)

            def make():
                s = self.havoc_state(f, header, entry_env, entry_phis, written)
                gh = {"k": self.fresh(z3.BitVecSort(64), "k")}
                gh.update(spec.havoc(self, {k: v for k, v in g0.items() if k != "k"}))
                s.ghost = dict(s.ghost)
                s.ghost[spec.name] = gh
                s.pc += spec.facts(self, gh)
                hv = View({i.res: s.env[i.res] for i in self.phi_list(f, header)}, dict(s.mem))
                eqs = [simp(evalc(c, hv, gh)) for c in keep]
                if self.uf_div:
                    # slots that equal a ghost expression are replaced by it, so that code and specification terms coincide
                    gids = {x.get_id() for x in gh.values() if z3.is_expr(x)}
                    for b in eqs:
                        if z3.is_eq(b):
                            for x, t in ((b.arg(0), b.arg(1)), (b.arg(1), b.arg(0))):
                                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name() \
                                        and x.decl().name().startswith("h_") and x.get_id() not in gids and not occurs(x, t):
                                    subst_state(s, x, t)
                                    break
                    hv = View({i.res: s.env[i.res] for i in self.phi_list(f, header)}, dict(s.mem))
                    eqs = [simp(evalc(c, hv, gh)) for c in keep]
                s.pc += [b for b in eqs if not z3.is_true(b)]
                for c in qkeep:
                    arr = s.mem[c[1]]
                    if isinstance(arr, (dict, Untyped)):
                        continue
                    base = arr
                    if z3.is_const(base):
                        self.qfacts.setdefault(base.decl().name(), []).append(
                            lambda j, c=c, arr=arr, gh=gh, es=self.regions[c[1]].esize:
                            c[2](j, z3.Select(arr, simp(j * es)), gh))
                return s, gh, hv

            def backview(s, p):
                s2 = s.fork()
                self.phis(f, s2, header, p)
                return s2, View({i.res: s2.env[i.res] for i in self.phi_list(f, header)}, dict(s2.mem))
            rounds = 0
            while True:
                rounds += 1
                if rounds > 60:
                    raise Unsupported("Houdini did not converge")
                s, gh, hv = make()
                backs, exits = [], []
                self.writes = set()
                self.run(f, self.block(f, s.fork(), header, None), within=body, header=header, backs=backs, exits=exits)
                if not self.writes <= written:
                    written |= self.writes
                    info.written = written
                    continue
                drop, qdrop = set(), set()
                for bs, p in backs:
                    b2, bview = backview(bs, p)
                    gn = {"k": simp(gh["k"] + 1)}
                    gn.update(spec.step(self, gh, b2))
                    b2.pc += spec.facts(self, gn)
                    if not self.feasible(b2):
                        continue
                    live = [c for c in keep if id(c) not in drop]
                    # all at once first
                    bs_ = [(c, evalc(c, bview, gn)) for c in live]
                    for c, b in bs_:
                        if b is None:
                            drop.add(id(c))
                    bs_ = [(c, simp(b)) for c, b in bs_ if b is not None]
                    bs_ = [(c, b) for c, b in bs_ if not z3.is_true(b)]
                    bs_0 = {c[0]: b for c, b in bs_}
                    while bs_:
                        r, sv = self.check(b2.pc + [z3.Or([z3.Not(b) for _, b in bs_])], 2500 if self.cvc5 else 8000)
                        if r == z3.unsat:
                            break
                        if r == z3.sat:
                            m = sv.model()
                            bad = [c for c, b in bs_ if z3.is_false(m.eval(b, model_completion=True))]
                        else:
                            bad = []
                        if not bad:
                            bad = [c for c, b in bs_ if self.implied(b2, b, self.slow)[0] != "proved"]
                            if not bad:
                                break
                        if self.debug:
                            self.debug(spec, bad, b2, dict(bs_0), sv.model() if r == z3.sat else r)
                        if r != z3.sat:
                            self.lost += 1
                        for c in bad:
                            drop.add(id(c))
                        bs_ = [(c, b) for c, b in bs_ if id(c) not in drop]
                    for c in qkeep:
                        if id(c) in qdrop:
                            continue
                        b3 = b2.fork()
                        b = evalq(c, b3, gn)
                        if b is None or self.implied(b3, b, 8000)[0] != "proved":
                            qdrop.add(id(c))
                if not drop and not qdrop:
                    break
                keep = [c for c in keep if id(c) not in drop]
                qkeep = [c for c in qkeep if id(c) not in qdrop]
            # final pass: obligations
            self.collect = collect0
            self.writes = None
            s, gh, hv = make()
            backs, exits = [], []
            for c in keep:
                self.obl(f"loop {spec.name}: invariant [{c[0]}] holds on entry", e, evalc(c, entry_view, g0))
            for c in qkeep:
                e2 = e.fork()
                b = evalq(c, e2, g0)
                self.obl(f"loop {spec.name}: invariant [{c[0]}] holds on entry", e2, b)
            s.ghost[spec.name] = gh
            self.run(f, self.block(f, s.fork(), header, None), within=body, header=header, backs=backs, exits=exits)
            reach = 0
            for bs, p in backs:
                b2, bview = backview(bs, p)
                gn = {"k": simp(gh["k"] + 1)}
                gn.update(spec.step(self, gh, b2))
                b2.pc += spec.facts(self, gn)
                if not self.feasible(b2):
                    continue
                reach += 1
                for c in keep:
                    self.obl(f"loop {spec.name}: invariant [{c[0]}] preserved", b2, evalc(c, bview, gn))
                for c in qkeep:
                    b3 = b2.fork()
                    b = evalq(c, b3, gn)
                    self.obl(f"loop {spec.name}: invariant [{c[0]}] preserved", b3, b)
            if collect0:
                self.loop_report.append({"function": f.name, "loop": spec.name, "invariants": [c[0] for c in keep] +
                                         [c[0] for c in qkeep], "back_paths": reach, "rounds": rounds})
            if writes0 is not None:
                writes0 |= {w for w in written if w[0] in st.mem}
            return exits
        finally:
            self.collect = collect0
            self.writes = writes0

    def generic_candidates(self, f, header, st, view, g0, deltas, written):
        out = []
        slots = []       # (name, getter(view), entry value)
        for n, v in view.phis.items():
            if isinstance(v, (FnPtr, tuple)):
                continue
            slots.append((f"phi{len(slots)}", (lambda vw, n=n: scal(vw.phis[n])), scal(v), ("phi", n)))
        for rn, off in sorted(written, key=repr):
            r = self.regions[rn]
            if r.kind == "cells" and off is not None and rn in view.mem and off in (view.mem[rn] or {}):
                v = view.mem[rn][off][1]
                if isinstance(v, (FnPtr, tuple)):
                    continue
                slots.append((f"{rn}+{off}", (lambda vw, rn=rn, off=off: scal(vw.mem[rn][off][1])), scal(v),
                              ("cell", rn, off)))
            elif r.kind == "array" and r.size is not None and z3.is_bv_value(simp(r.size)) and simp(r.size).as_long() <= 64 \
                    and z3.is_expr(view.mem.get(rn)):
                for o in range(0, simp(r.size).as_long(), r.esize):
                    slots.append((f"{rn}+{o}", (lambda vw, rn=rn, o=o: z3.Select(vw.mem[rn], bv(o))),
                                  z3.Select(view.mem[rn], bv(o)), ("acell", rn, o)))
        for nm, get, ev, key in slots:
            if z3.is_bv(ev):
                w = ev.size()
                ds = set(deltas.get(key, ()))
                for d in sorted(ds):
                    def lin(vw, g, get=get, ev=ev, d=d, w=w):
                        k = g["k"] if w == 64 else (z3.Extract(w - 1, 0, g["k"]) if w < 64 else z3.ZeroExt(w - 64, g["k"]))
                        return get(vw) == ev + k * bv(d, w)
                    out.append((f"{nm} = entry{d:+d}*k", lin))
            if not (z3.is_bv(ev) and 0 in deltas.get(key, ())):
                out.append((f"{nm} = entry", lambda vw, g, get=get, ev=ev: get(vw) == ev))
            for gn, gv in g0.items():
                if gn == "k" or not z3.is_expr(gv):
                    continue
                if gv.sort() == ev.sort():
                    out.append((f"{nm} = {gn}", lambda vw, g, get=get, gn=gn: get(vw) == g[gn]))
                    if ev.sort() == z3.RealSort():
                        out.append((f"{nm} = -{gn}", lambda vw, g, get=get, gn=gn: get(vw) == -g[gn]))
                    if z3.is_bool(ev):
                        out.append((f"{nm} = !{gn}", lambda vw, g, get=get, gn=gn: get(vw) != g[gn]))
                elif z3.is_bv(ev) and z3.is_bv(gv):
                    for sg in (False, True):
                        w = max(ev.size(), gv.size())
                        out.append((f"{nm} = {'s' if sg else 'z'}ext {gn}",
                                    lambda vw, g, get=get, gn=gn, w=w, sg=sg: fext(get(vw), w, sg) == fext(g[gn], w, sg)))
        return out


def occurs(x, t):
    seen, todo = set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        todo.extend(e.children())
    return False


def subst_val(v, x, t):
    if isinstance(v, Ptr):
        return Ptr(v.reg, simp(z3.substitute(v.off, (x, t))))
    if isinstance(v, PInt):
        return PInt(v.reg, simp(z3.substitute(v.off, (x, t))))
    if isinstance(v, Raw):
        return Raw(subst_val(v.v, x, t))
    if isinstance(v, tuple):
        return tuple(subst_val(a, x, t) for a in v)
    if z3.is_expr(v):
        return simp(z3.substitute(v, (x, t)))
    return v


def subst_state(s, x, t):
    """replace the fresh loop variable x by the term it is assumed equal to"""
    s.env = {k: subst_val(v, x, t) for k, v in s.env.items()}
    for r, m in list(s.mem.items()):
        if isinstance(m, dict):
            s.mem[r] = {o: (sz, subst_val(v, x, t)) for o, (sz, v) in m.items()}
        elif z3.is_expr(m) and not z3.is_const(m):
            s.mem[r] = subst_val(m, x, t)
    s.pc = [subst_val(c, x, t) for c in s.pc] + [x == t]


class LoopInfo:
    """Facts about a loop a contract may use to recognise its role: what it reads/writes, constant strides."""
    def __init__(self, ex, f, header, body, st, prev):
        self.ex, self.f, self.header, self.body, self.st, self.prev = ex, f, header, body, st, prev
        self.depth = sum(1 for h, b in ir.natural_loops(f).items() if header in b and h != header)
        self.inner = [h for h in ir.natural_loops(f) if h in body and h != header]
        self.written = set()
        self._d = None

    def instrs(self):
        for b in self.body:
            yield from self.f.blocks[b]

    def discover(self, entry_phis=None):
        """regions written and constant increments of phis per iteration, by running the body from a havocked state"""
        if self._d:
            return self._d
        ex, f = self.ex, self.f
        c0, w0 = ex.collect, ex.writes
        ex.collect = False
        if entry_phis is None:
            s0 = self.st.fork()
            ex.phis(f, s0, self.header, self.prev)
            entry_phis = {i.res: s0.env[i.res] for i in ex.phi_list(f, self.header)}
            entry = s0
        else:
            entry = self.st.fork()
            ex.phis(f, entry, self.header, self.prev)
        try:
            written = set()
            for _ in range(6):
                s = ex.havoc_state(f, self.header, entry, entry_phis, written)
                # cells first written in the body: remember them at entry as undefined
                backs, exits = [], []
                ex.writes = set()
                ex.run(f, ex.block(f, s.fork(), self.header, None), within=self.body, header=self.header, backs=backs,
                       exits=exits)
                new = {w for w in ex.writes if w[0] in entry.mem}
                if new <= written:
                    break
                written |= new
            deltas = {}
            for bs, p in backs:
                b2 = bs.fork()
                ex.phis(f, b2, self.header, p)
                for i in ex.phi_list(f, self.header):
                    a, b = scal(s.env[i.res]), scal(b2.env[i.res])
                    if z3.is_bv(a) and z3.is_bv(b):
                        d = simp(b - a)
                        if z3.is_bv_value(d):
                            deltas.setdefault(("phi", i.res), set()).add(d.as_signed_long())
                for rn, off in written:
                    m = b2.mem.get(rn)
                    if isinstance(m, dict) and off in m and isinstance(s.mem[rn], dict) and off in s.mem[rn]:
                        a, b = scal(s.mem[rn][off][1]), scal(m[off][1])
                        if z3.is_bv(a) and z3.is_bv(b) and a.size() == b.size():
                            d = simp(b - a)
                            if z3.is_bv_value(d):
                                deltas.setdefault(("cell", rn, off), set()).add(d.as_signed_long())
            self._d = (written, deltas)
            self.written = written
            return self._d
        finally:
            ex.collect, ex.writes = c0, w0

    def regions_read(self):
        """names of the pointer arguments/regions the body loads from (syntactic: bases of GEPs/loads)"""
        out = set()
        for i in self.instrs():
            if i.op == "load" and i.a[0][0] == "local":
                out.add(i.a[0][1])
            if i.op == "getelementptr" and i.a[0][0] == "local":
                v = self.st.env.get(i.a[0][1])
                if isinstance(v, Ptr):
                    out.add(v.reg)
        return out


def scal(v):
    if isinstance(v, Ptr):
        return v.off
    if isinstance(v, Raw):
        return v.v
    if isinstance(v, PInt):
        return v.off
    return v


class PInt:
    def __init__(self, reg, off):
        self.reg, self.off = reg, off


def as_bool(v):
    if z3.is_bool(v):
        return v
    return v == 1


def ite(c, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.reg == b.reg:
            return Ptr(a.reg, simp(z3.If(c, a.off, b.off)))
        return a if z3.is_true(c) else b if z3.is_false(c) else None
    if isinstance(a, Raw) and isinstance(b, Raw):
        return Raw(simp(z3.If(c, a.v, b.v)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        r = [ite(c, x, y) for x, y in zip(a, b)]
        return None if any(x is None for x in r) else tuple(r)
    if z3.is_expr(a) and z3.is_expr(b):
        if z3.is_bool(a) != z3.is_bool(b):
            a, b = as_bool(a), as_bool(b)
        return simp(z3.If(c, a, b))
    return a if z3.is_true(c) else b if z3.is_false(c) else None


POPC, _POPC = {}, {}


def popc(x):
    x = simp(x)
    if z3.is_bv_value(x):
        return bv(bin(x.as_long()).count("1"), x.size())
    w = x.size()
    if w not in POPC:
        POPC[w] = z3.Function(f"popcount{w}", z3.BitVecSort(w), z3.BitVecSort(w))
    return POPC[w](x)


def has_popc(e):
    k = e.get_id()
    hit = _POPC.get(k)
    if hit is None:
        r = z3.is_app(e) and (e.decl().name().startswith("popcount") and e.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        stack, seen = [e], set()
        while stack and not r:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name().startswith("popcount"):
                    r = True
                stack += x.children()
        hit = _POPC[k] = (r, e)
    return hit[0]


def expand_popc(e):
    if not has_popc(e):
        return e
    return z3.substitute_funs(e, *[(f, popcount(z3.Var(0, z3.BitVecSort(w)))) for w, f in POPC.items()])


def popcount(x, w=None):
    n = x.size()
    w = w or n
    r = bv(0, w)
    for i in range(n):
        e = z3.Extract(i, i, x)
        r = r + (z3.ZeroExt(w - 1, e) if w > 1 else e)
    return r


def unscale(off, es):
    """off == idx*es syntactically -> idx"""
    if es == 1:
        return off
    off = simp(off)
    if z3.is_bv_value(off):
        v = off.as_signed_long()
        return bv(v // es) if v % es == 0 else None
    d = off.decl().kind()
    if d == z3.Z3_OP_BMUL:
        for i in range(off.num_args()):
            c = off.arg(i)
            if z3.is_bv_value(c) and c.as_signed_long() % es == 0:
                rest = [off.arg(j) for j in range(off.num_args()) if j != i]
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                q = c.as_signed_long() // es
                return simp(r * bv(q)) if q != 1 else r
    if d == z3.Z3_OP_BADD:
        parts = [unscale(off.arg(i), es) for i in range(off.num_args())]
        if all(p is not None for p in parts):
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return simp(r)
    if d == z3.Z3_OP_CONCAT:
        # x ++ 000 : shift left by log2(es)
        last = off.arg(off.num_args() - 1)
        if z3.is_bv_value(last) and last.as_long() == 0 and (1 << last.size()) >= es and es & (es - 1) == 0:
            k = es.bit_length() - 1
            hi = z3.Extract(63, k, off)
            # index modulo the lost top bits: sign is not recoverable, use zero extension
            return simp(z3.ZeroExt(k, hi))
    return None
