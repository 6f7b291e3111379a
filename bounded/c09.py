"""C09 bounded part: the matrix-vector kernels (tools/matvec), called through get_matvec_function and matvec.
Entries are small integers, so that the expected result is exact; outputs live inside guarded buffers."""
import itertools
import numpy as np, scipy.sparse as sp
from bounded.harness import Bad, Skip

RULE = "a case is (format, shape, dtypes, seed) and runs all layouts of x and y, overwrite or accumulate, several a, 0-5 vectors; " \
       "non-trivial when the matrix is not empty"
SHAPES = [(1, 1), (1, 6), (6, 1), (4, 7), (7, 4), (6, 6), (3, 130), (99, 101), (100, 100), (101, 99), (150, 40), (100, 1), (205, 7)]
PAIRS = [("f", "f"), ("f", "d"), ("f", "F"), ("f", "D"), ("d", "d"), ("d", "D"), ("F", "F"), ("F", "D"), ("D", "D")]
LAYOUTS = ("C", "F", "rows2", "cols3", "neg", "T2", "both")
GUARD = 77.0


def cases(tier, rng):
    out = []
    for fmt in ("csr", "csc", "dia", "dense", "csr_dup", "csr_view", "csc_view", "dia_view", "dia_long"):
        for shape in SHAPES:
            for ta, tx in PAIRS:
                for I in ((32, 64) if not fmt.startswith("dense") else (32,)):
                    if tier == "quick" and rng.random() < 0.35:
                        continue
                    out.append(dict(name="kernel", fmt=fmt, shape=list(shape), ta=ta, tx=tx, I=I, seed=rng.randrange(1 << 30)))
    for fmt in ("csr", "csc", "dia"):
        for shape in SHAPES:
            out.append(dict(name="rejects", fmt=fmt, shape=list(shape), seed=rng.randrange(1 << 30)))
    rng.shuffle(out)
    return out


def ints(rs, shape, t, lo=-4, hi=5):
    v = rs.randint(lo, hi, size=shape).astype(float)
    if np.dtype(t).kind == "c":
        v = v + 1j * rs.randint(lo, hi, size=shape)
    return v.astype(t)


def make(fmt, shape, ta, I, rs):
    """-> (matrix object, dense reference)"""
    r, c = shape
    mask = rs.rand(r, c) < min(1.0, rs.choice([0.1, 0.5, 6.0 / max(r, c)]) + 1.0 / max(r, c))
    if rs.rand() < 0.3:
        mask[rs.randint(r)] = True       # one long row
    D = ints(rs, (r, c), ta) * mask
    idx = np.int32 if I == 32 else np.int64
    base = fmt.split("_")[0]
    if base == "dense":
        return (np.asfortranarray(D) if rs.rand() < .3 else D), D
    if base == "dia":
        offs = [k for k in range(-r + 1, c) if rs.rand() < 4.0 / (r + c)] or [0]
        rs.shuffle(offs)
        L = c + (rs.randint(1, 4) if fmt == "dia_long" else 0) - (rs.randint(0, c) if rs.rand() < .3 and c > 1 else 0)
        data = ints(rs, (len(offs), L), ta)
        if fmt == "dia_view":
            data = np.asfortranarray(data) if rs.rand() < .5 else np.repeat(data, 2, axis=1)[:, ::2]
        M = sp.dia_matrix((data, np.array(offs, dtype=idx)), shape=shape)
        M.offsets = M.offsets.astype(idx)
        D = np.zeros(shape, dtype=ta)
        for i, k in enumerate(offs):
            for j in range(L):
                if 0 <= j - k < r and j < c:
                    D[j - k, j] += data[i, j]
        return M, D
    M = (sp.csr_matrix if base == "csr" else sp.csc_matrix)(D)
    if fmt == "csr_dup":                 # unsorted columns and duplicate entries
        rows, cols, vals = [], [], []
        for i in range(r):
            ent = []
            for j in np.nonzero(D[i])[0]:
                ent += [(j, D[i, j] - 1), (j, 1)] if rs.rand() < .5 else [(j, D[i, j])]
            rs.shuffle(ent)
            rows.append(len(ent))
            cols += [int(np.real(e[0])) for e in ent]
            vals += [e[1] for e in ent]
        M = sp.csr_matrix((np.array(vals, dtype=ta), np.array(cols, dtype=idx), np.concatenate([[0], np.cumsum(rows)]).astype(idx)),
                          shape=shape)
    if fmt.endswith("_view"):
        M.data = np.repeat(M.data, 2)[::2]
        if rs.rand() < .5:
            M.indices = np.repeat(M.indices, 3)[::3]
    M.indptr, M.indices = M.indptr.astype(idx), (M.indices if fmt.endswith("_view") and I == 32 else M.indices.astype(idx))
    return M, D


def place(v, layout):
    """an array equal to v inside a guarded buffer -> (view, buffer, boolean mask of the buffer entries addressed)"""
    n = v.shape[0]
    k = v.shape[1] if v.ndim == 2 else None
    g = 3
    if k is None:
        step = {"rows2": 2, "cols3": 3, "neg": -1, "both": -2}.get(layout, 1)
        buf = np.full(2 * g + n * abs(step), GUARD, dtype=v.dtype)
        sl = slice(g, g + n * abs(step), abs(step))
        view = buf[sl]
        if step < 0:
            view = view[::-1]
        mk = lambda b: (b[sl] if step > 0 else b[sl][::-1])
    else:
        sr, sc = {"rows2": (2, 1), "cols3": (1, 3), "neg": (-1, 1), "both": (-2, -1), "T2": (2, 1)}.get(layout, (1, 1))
        if layout in ("F", "T2"):
            buf = np.full((g + k * abs(sc) + g, g + n * abs(sr) + g), GUARD, dtype=v.dtype) if layout == "T2" else \
                np.full((k + 2, n), GUARD, dtype=v.dtype)
            f = (lambda b: b[g:g + k * abs(sc):abs(sc), g:g + n * abs(sr):abs(sr)].T) if layout == "T2" else (lambda b: b[1:k + 1].T)
        elif layout == "C":
            buf = np.full((n + 2, k), GUARD, dtype=v.dtype)
            f = lambda b: b[1:n + 1]
        else:
            buf = np.full((2 * g + n * abs(sr), 2 * g + k * abs(sc)), GUARD, dtype=v.dtype)

            def f(b):
                w = b[g:g + n * abs(sr):abs(sr), g:g + k * abs(sc):abs(sc)]
                return w[::1 if sr > 0 else -1, ::1 if sc > 0 else -1]
        view, mk = f(buf), f
    view[...] = v
    m = np.zeros(buf.shape, dtype=bool)
    mk(m)[...] = True
    return view, buf, m


def snapshot(M):
    return [np.array(getattr(M, n)) for n in ("data", "indices", "indptr", "offsets") if hasattr(M, n)] if sp.issparse(M) else [np.array(M)]


def case_kernel(fmt, shape, ta, tx, I, seed):
    from quspin.tools.matvec import get_matvec_function, matvec
    rs = np.random.RandomState(seed)
    M, D = make(fmt, tuple(shape), ta, I, rs)
    before = snapshot(M)
    r, c = shape
    fn = get_matvec_function(M)
    combos = list(itertools.product((None, 1, 2, 5), LAYOUTS, LAYOUTS))
    pick = rs.permutation(len(combos))[:24]
    D2 = D.astype(np.complex128 if D.dtype.kind == "c" else float)
    for q in pick:
        k, lx, ly = combos[q]
        X = ints(rs, (c,) if k is None else (c, k), tx)
        x, xbuf, _ = place(X, lx)
        xb = xbuf.copy()
        y0 = ints(rs, (r,) if k is None else (r, k), tx)
        over = bool(rs.randint(2))
        old = np.full_like(y0, np.nan) if over and rs.rand() < .5 else y0
        y, ybuf, ym = place(old, ly)
        a = [1.0, -2.0, 0.0, 3.0, 2j - 1][rs.randint(5 if np.dtype(ta).kind == "c" else 4)]
        f = fn if rs.rand() < .7 else matvec
        args = dict(a=a, out=y, overwrite_out=over)
        if a == 1.0 and rs.rand() < .5:
            args.pop("a")
        if not over and rs.rand() < .5:
            args.pop("overwrite_out")
        exp = a * (D2 @ X.astype(D2.dtype if X.dtype.kind != "c" else np.complex128)) + (0 if over else y0)
        if rs.rand() < .15:
            args.pop("out")
            exp = a * (D2 @ X.astype(complex))
            res = f(M, x, **args)
        else:
            res = f(M, x, **args)
            if res is not y:
                raise Bad(f"{fmt} {shape}: the out array is not returned")
            if not np.array_equal(ybuf[~ym], np.full(int((~ym).sum()), GUARD, dtype=ybuf.dtype)):
                raise Bad(f"{fmt} {shape} {ta}{tx} k={k} y layout {ly}: entries outside y were written")
        if res.shape != exp.shape or not np.array_equal(np.asarray(res), exp.astype(res.dtype)):
            d = np.argwhere(np.asarray(res) != exp)[:3].tolist() if res.shape == exp.shape else res.shape
            raise Bad(f"{fmt} {shape} {ta}{tx} index{I} vectors={k} x layout {lx} y layout {ly} overwrite={over} a={a} "
                      f"out={'out' in args}: wrong result, first entries {d}")
        if not np.array_equal(xbuf, xb):
            raise Bad(f"{fmt} {shape}: x was modified")
    for u, v in zip(before, snapshot(M)):
        if not np.array_equal(u, v):
            raise Bad(f"{fmt} {shape}: the matrix was modified")
    return int(np.count_nonzero(D) > 0)


def case_rejects(fmt, shape, seed):
    """arrays the kernel cannot address are rejected, nothing is written"""
    from quspin.tools.matvec import get_matvec_function
    rs = np.random.RandomState(seed)
    r, c = shape
    M, D = make(fmt, tuple(shape), "d", 32, rs)
    fn = get_matvec_function(M)
    for k in (None, 2):
        sh = lambda n: (n,) if k is None else (n, k)
        for x, y in ((np.ones(sh(c + 1)), np.zeros(sh(r))), (np.ones(sh(c - 1)), np.zeros(sh(r))), (np.ones(sh(c)), np.zeros(sh(r + 2))),
                     (np.ones(sh(c)), np.zeros(sh(r - 1))), (np.ones(sh(c)), np.zeros(sh(r), np.float32)),
                     (np.ones(sh(c)), np.zeros(sh(r), complex)), (np.ones(sh(c), np.float32), np.zeros(sh(r))),
                     (np.ones(sh(c), np.float32), np.zeros(sh(r), np.float32)), (np.ones(sh(c)), np.zeros(r * 3).reshape(r, 3)),
                     (np.ones(sh(c), int), np.zeros(sh(r)))):
            buf = np.full(y.size + 64, GUARD, dtype=y.dtype)
            out = buf[:y.size].reshape(y.shape)
            out[...] = 0
            try:
                fn(M, x, out=out, overwrite_out=True)
            except (TypeError, ValueError):
                if np.any(out) or np.any(buf[y.size:] != GUARD):
                    raise Bad(f"{fmt} {shape}: rejected call wrote to the output")
                continue
            raise Bad(f"{fmt} {shape}: x {x.dtype}{x.shape} with out {y.dtype}{y.shape} accepted")
    return 1
