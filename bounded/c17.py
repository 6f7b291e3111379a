"""C17 bounded part: bitwise functions against python integers, for every integer type, mask and memory layout."""
import random
import numpy as np
from bounded.harness import Bad, Skip

RULE = ("a case is (operation, integer type, length, mask kind, layout of the inputs, kind of out); every element is "
        "compared with python integers, non-trivial when at least one element is computed")

BITS = (32, 64, 256, 1024, 4096, 16384)
BINARY = ("and", "or", "xor")
SHIFT = ("leftshift", "rightshift")


def cases(tier, rng):
    out = []
    reps = 3 if tier == "quick" else 12
    for op in BINARY + SHIFT + ("not",):
        for bits in BITS:
            for mask in ("none", "bool", "list", "int", "strided", "all0", "all1"):
                for o in ("none", "given"):
                    for _ in range(reps if bits < 4096 else 1 + reps // 4):
                        out.append(dict(name="op", op=op, bits=bits, mask=mask, out=o, n=rng.choice([1, 2, 3, 5, 9, 17, 40, 130, 257] if bits < 1024 else [1, 2, 3, 5, 9, 17]),
                                        lay=rng.choice(["plain", "plain", "strided", "reversed", "readonly", "same"]), seed=rng.randrange(1 << 30)))
    for op in BINARY + SHIFT + ("not",):
        for bits in BITS:
            out.append(dict(name="empty", op=op, bits=bits))
            out.append(dict(name="inplace", op=op, bits=bits, seed=rng.randrange(1 << 30)))
            out.append(dict(name="chain", op=op, bits=bits, seed=rng.randrange(1 << 30)))
            for o in BITS:
                if o != bits:
                    out.append(dict(name="mixed", op=op, bits=bits, other=o))
            for how in ("shape", "readonly", "strided", "dtype", "mask", "2d", "0d"):
                out.append(dict(name="refuse", op=op, bits=bits, how=how))
    for bits in BITS:
        for _ in range(4 * reps if bits < 16384 else 2):
            out.append(dict(name="convert", bits=bits, seed=rng.randrange(1 << 30)))
    for N in (3, 31, 32, 33, 63, 64, 65, 100, 256, 300):
        out.append(dict(name="states", N=N, seed=rng.randrange(1 << 30)))
    for seed in range(200 if tier == "quick" else 2000):
        out.append(dict(name="dtype", seed=rng.randrange(1 << 30)))
    return out


def dt(bits):
    from quspin.basis.basis_general._basis_general_core import general_basis_utils as u
    import quspin.basis as qb
    return {32: np.uint32, 64: np.uint64, 256: qb.uint256, 1024: qb.uint1024, 4096: qb.uint4096, 16384: qb.uint16384}[bits]


def rand(r, bits):
    k = r.random()
    if k < .1:
        return 0
    if k < .2:
        return (1 << bits) - 1
    if k < .3:
        return 1 << r.randrange(bits)
    if k < .4:
        return r.getrandbits(min(bits, 20))
    if k < .5:
        return ((1 << bits) - 1) ^ (1 << r.randrange(bits))
    return r.getrandbits(r.randrange(1, bits + 1))


def pack(vals, bits):
    import quspin.basis as qb
    a = qb.basis_zeros((len(vals),), dtype=dt(bits))
    for i, v in enumerate(vals):
        a[i] = qb.python_int_to_basis_int(v, dtype=dt(bits))
    return a


def unpack(a):
    import quspin.basis as qb
    return [qb.basis_int_to_python_int(a[i:i + 1]) for i in range(len(a))]


def func(op):
    import quspin.basis as qb
    return getattr(qb, "bitwise_" + op)


def exact(op, x, y, bits):
    full = (1 << bits) - 1
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    if op == "xor":
        return x ^ y
    if op == "not":
        return full ^ x
    if op == "leftshift":
        return (x << y) & full if y < bits else 0
    return x >> y if y < bits else 0


def layout(a, lay):
    if lay == "strided":
        b = np.zeros(2 * len(a), dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if lay == "reversed":
        return a[::-1].copy()[::-1]
    if lay == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


SHIFT_TYPES = (np.uint8, np.uint16, np.uint32, np.uint64)


def second(r, op, n, bits):
    """values and array of the second operand"""
    if op in SHIFT:
        t = r.choice(SHIFT_TYPES)
        top = int(np.iinfo(t).max)
        ys = [min(top, r.choice([0, 1, r.randrange(bits), r.randrange(bits), bits - 1, bits, bits + 1, 2 * bits, top])) for _ in range(n)]
        return ys, np.array(ys, dtype=t)
    ys = [rand(r, bits) for _ in range(n)]
    return ys, pack(ys, bits)


def case_op(op, bits, mask, out, n, lay, seed):
    r = random.Random(seed)
    xs = [rand(r, bits) for _ in range(n)]
    ys, ya = second(r, op, n, bits)
    x = layout(pack(xs, bits), lay)
    same = lay == "same" and op in BINARY
    if same:
        ys, y = xs, x
    else:
        y = layout(ya, lay if op not in SHIFT else "plain")
    sel = [True] * n
    kw = {}
    if mask != "none":
        sel = [False] * n if mask == "all0" else [True] * n if mask == "all1" else [r.random() < .5 for _ in range(n)]
        if mask == "list":
            kw["where"] = list(sel)
        elif mask == "int":
            kw["where"] = np.array([r.choice([1, 2, 255, 256, -1]) if s else 0 for s in sel])
        elif mask == "strided":
            w = np.array([r.randrange(2) for _ in range(2 * n)], dtype=np.uint8)
            w[::2] = sel
            kw["where"] = w[::2]
        else:
            kw["where"] = np.array(sel)
    zs = [0] * n
    if out == "given":
        zs = [rand(r, bits) for _ in range(n)]
        kw["out"] = pack(zs, bits)
    copies = [(a, a.tobytes()) for a in (x, y)] + [(m, m.tobytes()) for m in [kw.get("where")] if isinstance(m, np.ndarray)]
    res = func(op)(x, **kw) if op == "not" else func(op)(x, y, **kw)
    if out == "given" and not (res is kw["out"] or np.shares_memory(res, kw["out"])):
        raise Bad("the result is not the array given as out")
    if res.shape != (n,) or res.dtype != x.dtype:
        raise Bad(f"result of shape {res.shape} and dtype {res.dtype}")
    for a, b in copies:
        if a.tobytes() != b:
            raise Bad("an input array was modified")
    got = unpack(res)
    for i in range(n):
        want = exact(op, xs[i], ys[i] if op != "not" else 0, bits) if sel[i] else zs[i]
        if got[i] != want:
            raise Bad(f"element {i} (selected: {sel[i]}) is {hex(got[i])[:60]}, expected {hex(want)[:60]}: x={hex(xs[i])[:40]} y={hex(ys[i])[:40]}")
    return 1 if any(sel) else 0


def case_inplace(op, bits, seed):
    """out may be the first argument itself"""
    r = random.Random(seed)
    n = 13
    xs = [rand(r, bits) for _ in range(n)]
    ys, y = second(r, op, n, bits)
    sel = [r.random() < .6 for _ in range(n)]
    x = pack(xs, bits)
    args = (x,) if op == "not" else (x, y)
    func(op)(*args, out=x, where=np.array(sel))
    want = [exact(op, a, b if op != "not" else 0, bits) if s else a for a, b, s in zip(xs, ys, sel)]
    if unpack(x) != want:
        raise Bad("wrong result with out=x1")
    if op in BINARY:
        x, y = pack(xs, bits), pack(ys, bits)
        func(op)(x, y, out=y)
        if unpack(y) != [exact(op, a, b, bits) for a, b in zip(xs, ys)] or unpack(x) != xs:
            raise Bad("wrong result with out=x2")
    return 1


def case_chain(op, bits, seed):
    """results of one call (including elements outside of its mask) are valid operands of the next"""
    r = random.Random(seed)
    n = 11
    xs = [rand(r, bits) for _ in range(n)]
    ys, y = second(r, op, n, bits)
    x = pack(xs, bits)
    sel = [r.random() < .5 for _ in range(n)]
    args = (x,) if op == "not" else (x, y)
    a = func(op)(*args, where=sel)
    want = [exact(op, p, q if op != "not" else 0, bits) if s else 0 for p, q, s in zip(xs, ys, sel)]
    for nxt in BINARY + ("not",) + SHIFT:
        if nxt == "not":
            got, w = func(nxt)(a), [exact(nxt, p, 0, bits) for p in want]
        elif nxt in SHIFT:
            s = np.arange(n, dtype=np.uint16)
            got, w = func(nxt)(a, s), [exact(nxt, p, int(q), bits) for p, q in zip(want, s)]
        else:
            got, w = func(nxt)(a, x), [exact(nxt, p, q, bits) for p, q in zip(want, xs)]
        if unpack(got) != w:
            raise Bad(f"bitwise_{nxt} of the result of bitwise_{op}")
    return 1


def case_empty(op, bits):
    x = pack([], bits)
    y = np.zeros(0, dtype=np.uint8) if op in SHIFT else pack([], bits)
    for kw in ({}, {"where": np.zeros(0, dtype=bool)}, {"out": pack([], bits)}):
        try:
            res = func(op)(x, **kw) if op == "not" else func(op)(x, y, **kw)
        except (IndexError, ValueError, TypeError):
            continue
        if len(res) != 0:
            raise Bad("elements out of nothing")
    return 1


def refused(what, f, *a, **k):
    try:
        f(*a, **k)
    except (TypeError, ValueError, IndexError):
        return
    raise Bad(f"{what}: accepted")


def case_mixed(op, bits, other):
    """arrays of different integer types are refused, or give the exact result"""
    x, z = pack([3, 5, 6, 7], bits), pack([1, 2, 3, 4], other)
    keep = x.tobytes(), z.tobytes()
    s = np.array([1, 1, 1, 1], dtype=np.uint8)
    if op in BINARY:
        for a, b in ((x, z), (z, x)):
            try:
                got = func(op)(a, b)
            except TypeError:
                continue
            if unpack(got) != [exact(op, p, q, bits) for p, q in zip(unpack(a), unpack(b))]:
                raise Bad("operands of different types are accepted with a wrong result")
    args = (x,) if op == "not" else (x, s) if op in SHIFT else (x, x)
    try:
        func(op)(*args, out=z)
    except (TypeError, ValueError):
        pass
    else:
        ys = [1] * 4 if op in SHIFT else [3, 5, 6, 7]
        if unpack(z) != [exact(op, p, q, bits) & ((1 << other) - 1) for p, q in zip([3, 5, 6, 7], ys)]:
            raise Bad("out of another type is accepted with a wrong result")
        return 1
    if (x.tobytes(), z.tobytes()) != keep:
        raise Bad("refused call modified an array")
    return 1


def case_refuse(op, bits, how):
    f = func(op)
    x = pack([3, 5, 6, 7], bits)
    y = np.array([1, 2, 3, 4], dtype=np.uint8) if op in SHIFT else pack([1, 2, 3, 4], bits)
    rest = () if op == "not" else (y,)
    if how == "shape":
        if rest:
            refused("operands of different length", f, x, y[:3])
            refused("operands of different length", f, x[:3], y)
        refused("out of another length", f, x, *rest, out=pack([0] * 3, bits))
        refused("out of another length", f, x, *rest, out=pack([0] * 5, bits))
    elif how == "readonly":
        o = pack([9] * 4, bits)
        o.flags.writeable = False
        before = o.tobytes()
        try:
            f(x, *rest, out=o)
        except (ValueError, TypeError):
            pass
        if o.tobytes() != before:
            raise Bad("read-only out was written")
    elif how == "strided":
        o = pack([9] * 8, bits)
        try:
            f(x, *rest, out=o[::2])
        except (ValueError, TypeError):
            if unpack(o) != [9] * 8:
                raise Bad("refused out was modified")
        else:
            ys = [1, 2, 3, 4]
            want = [exact(op, a, b, bits) for a, b in zip([3, 5, 6, 7], ys)]
            if unpack(o) != [v for w in want for v in (w, 9)]:
                raise Bad("strided out is wrong")
    elif how == "dtype":
        for t in (np.int32, np.int64, np.float64, np.uint8, np.uint16, object):
            refused(f"x of type {t}", f, np.ones(4, dtype=t), *rest)
            refused(f"out of type {t}", f, x, *rest, out=np.ones(4, dtype=t))
    elif how == "mask":
        refused("mask of another length", f, x, *rest, where=np.ones(3, dtype=bool))
        refused("mask of another length", f, x, *rest, where=np.ones(5, dtype=bool))
        refused("mask with two dimensions", f, x, *rest, where=np.ones((2, 2), dtype=bool))
    elif how == "2d":
        refused("x with two dimensions", f, x.reshape(2, 2), *rest)
        if op not in SHIFT and rest:
            refused("x with two dimensions", f, x.reshape(2, 2), y.reshape(2, 2))
    elif how == "0d":
        refused("x without dimensions", f, x[0:1].reshape(()), *rest)
    return 1


def case_convert(bits, seed):
    """python_int_to_basis_int and basis_int_to_python_int are inverse to each other"""
    import quspin.basis as qb
    r = random.Random(seed)
    for _ in range(20):
        v = rand(r, bits)
        for t in [dt(bits)] + [None]:
            a = qb.python_int_to_basis_int(v, dtype=t)
            if qb.basis_int_to_python_int(a) != v:
                raise Bad(f"{v} does not survive the conversion")
            if t is None:
                need = next(b for b in BITS if v < (1 << b))
                if a.dtype != np.dtype(dt(need)):
                    raise Bad(f"{v.bit_length()} bits in {a.dtype}")
        arr = pack([v, 0, v], bits)
        if unpack(arr) != [v, 0, v] or qb.basis_int_to_python_int(arr[2]) != v:
            raise Bad("value does not survive in an array")
    if bits < 16384:
        refused("too large a value", qb.python_int_to_basis_int, (1 << bits) + r.getrandbits(bits), dtype=dt(bits))
    refused("negative value", qb.python_int_to_basis_int, -1 - r.getrandbits(bits))
    if bits <= 64:
        v = r.getrandbits(bits)
        for t in (np.uint64, np.uint32)[:1 + (bits == 32)]:
            for d in BITS:
                if d >= bits and qb.basis_int_to_python_int(qb.python_int_to_basis_int(t(v), dtype=dt(d))) != v:
                    raise Bad(f"numpy integer {t.__name__}({v}) -> uint{d}")
    z, o = qb.basis_zeros((3, 2), dtype=dt(bits)), qb.basis_ones((3, 2), dtype=dt(bits))
    if z.shape != (3, 2) or unpack(z.ravel()) != [0] * 6 or unpack(o.ravel()) != [1] * 6:
        raise Bad("basis_zeros/basis_ones")
    return 1


def case_states(N, seed):
    """bit operations on the states of a basis, read as occupations"""
    import quspin.basis as qb
    r = random.Random(seed)
    b = qb.spin_basis_general(N, Nup=1) if N > 12 else qb.spin_basis_general(N)
    st = b.states
    ints = unpack(st)
    if N > 12 and sorted(ints) != [1 << i for i in range(N)]:
        raise Bad("states of the one-particle basis")
    keep = st.tobytes()
    perm = np.array([r.randrange(len(st)) for _ in range(len(st))])
    other = st[perm]
    oi = [ints[p] for p in perm]
    bits = next(k for k in BITS if st.dtype == np.dtype(dt(k)))
    for op in BINARY:
        if unpack(func(op)(st, other)) != [exact(op, p, q, bits) for p, q in zip(ints, oi)]:
            raise Bad(f"bitwise_{op} of states")
    if unpack(func("not")(st)) != [exact("not", p, 0, bits) for p in ints]:
        raise Bad("bitwise_not of states")
    sh = np.array([r.randrange(N + 2) for _ in range(len(st))], dtype=np.uint32)
    for op in SHIFT:
        if unpack(func(op)(st, sh)) != [exact(op, p, int(q), bits) for p, q in zip(ints, sh)]:
            raise Bad(f"bitwise_{op} of states")
    if st.tobytes() != keep:
        raise Bad("states were modified")
    return 1


def case_dtype(seed):
    """get_basis_type holds every state of the requested space, in the smallest type"""
    import quspin.basis as qb
    r = random.Random(seed)
    sps = r.choice([2, 2, 3, 4, 5, 10])
    N = r.choice([r.randrange(1, 20), r.randrange(20, 70), r.randrange(70, 400)])
    k = r.random()
    top = N * (sps - 1)
    Np = None if k < .3 else r.randrange(top + 1) if k < .7 else [r.randrange(top + 1) for _ in range(r.randrange(1, 4))]
    t = qb.get_basis_type(N, Np, sps)

    def biggest(n):
        s = 0
        for _ in range(N):
            m = min(n, sps - 1)
            s, n = s * sps + m, n - m
        return s
    if sps == 2 or Np is None:
        need = sps ** N - 1
    else:
        need = max(biggest(n) for n in ([Np] if isinstance(Np, int) else Np))
    width = next(b for b in BITS if np.dtype(t) == np.dtype(dt(b)))
    if need >= 1 << width:
        raise Bad(f"get_basis_type({N}, {Np}, {sps}) has only {width} bits, {need.bit_length()} needed")
    want = next(b for b in BITS if need < 1 << b)
    if sps != 2 and width != want:
        raise Bad(f"get_basis_type({N}, {Np}, {sps}) has {width} bits, {want} suffice")
    return 1
