"""Random hamiltonians with an independent description of H(t): static matrix plus sum of f(t,*args) times matrix."""
import math
import numpy as np, scipy.sparse as sp

TIMES = (0.0, 0.7, -1.3)
FMTS = ("csr", "csc", "dia", "dense")


def f_cos(t, w):
    return math.cos(w * t)


def f_lin(t, a):
    return 1.0 + a * t


def f_exp(t, w):
    return np.exp(1j * w * t)


def f_sq(t):
    return t * t + 0.5


REAL = [(f_cos, (1.0,)), (f_cos, (-2.0,)), (f_lin, (-1,)), (f_lin, (-2,)), (f_sq, ())]
CPLX = [(f_exp, (1.0,)), (f_exp, (-1.0,))]


def value(f, args, t):
    return f(t, *args)


def mat(rs, n, t, density=0.5, herm=False):
    M = rs.randint(-3, 4, size=(n, n)).astype(float)
    if np.dtype(t).kind == "c":
        M = M + 1j * rs.randint(-3, 4, size=(n, n))
    kind = rs.randint(6)
    mask = rs.rand(n, n) < density
    if kind == 0:
        mask = np.eye(n, dtype=bool)
    elif kind == 1:
        mask = np.eye(n, k=int(rs.randint(-1, 2)), dtype=bool)
    elif kind == 2:
        mask[:] = True
    M = M * mask
    if herm:
        M = M + M.conj().T
    return M.astype(t)


def fmt(M, f):
    return np.array(M) if f == "dense" else getattr(sp, f + "_matrix")(M)


def tol(*dts):
    return 2e-4 if any(np.dtype(d).char in "fF" for d in dts) else 1e-9


class Ref:
    """the mathematical operator: static, list of (f, args, conj flag list, matrix) generalised to a callable"""

    def __init__(self, fn, real):
        self.fn, self.real = fn, real

    def __call__(self, t):
        return self.fn(t)


def describe(rs, n=None, dtype=None, herm=False, ndyn=None, funcs=None):
    """JSON-free random description -> dict"""
    n = n or int(rs.choice([1, 2, 3, 4, 5]))
    dtype = str(dtype or rs.choice(["d", "D", "d", "D", "f", "F"]))
    S = mat(rs, n, dtype, herm=herm)
    if rs.rand() < 0.15:
        S = S * 0
    pool = list(funcs or REAL + (CPLX if np.dtype(dtype).kind == "c" and not herm else []))
    k = int(rs.choice([0, 1, 2, 3])) if ndyn is None else ndyn
    dyn = []
    for q in rs.permutation(len(pool))[:k]:
        f, a = pool[q]
        dyn.append((mat(rs, n, dtype, herm=herm), f, a))
    return dict(n=n, dtype=dtype, S=S, dyn=dyn, sf=str(rs.choice(FMTS)), df=[str(rs.choice(FMTS)) for _ in dyn])


def ref(d):
    return Ref(lambda t: d["S"].astype(complex) + sum((value(f, a, t) * M.astype(complex) for M, f, a in d["dyn"]),
                                                     np.zeros((d["n"], d["n"]), complex)), np.dtype(d["dtype"]).kind != "c")


def build(d):
    from quspin.operators import hamiltonian
    static = [fmt(d["S"], d["sf"])]
    dyn = [[fmt(M, ff), f, list(a)] for (M, f, a), ff in zip(d["dyn"], d["df"])]
    dfmt = {(f, tuple(a)): ff for (M, f, a), ff in zip(d["dyn"], d["df"])}
    H = hamiltonian(static, dyn, dtype=np.dtype(d["dtype"]).type, static_fmt=d["sf"], dynamic_fmt=dfmt,
                    check_herm=False, check_symm=False, check_pcon=False)
    return H


def values(H, times=TIMES):
    """the matrix of H at the times, through several of its interfaces -> dict name -> list of arrays"""
    n = H.shape[0] if hasattr(H, "shape") else H.get_shape[0]
    eye = np.eye(n, dtype=H.dtype)
    return {"toarray": [np.array(H.toarray(time=t)) for t in times],
            "dot": [np.array(H.dot(eye, time=t)) for t in times],
            "tocsr": [H.tocsr(time=t).toarray() for t in times]}


def same(H, R, tl, times=TIMES):
    """None, or a message when H does not evaluate to R"""
    for name, v in values(H, times).items():
        for t, m in zip(times, v):
            e = R(t)
            if m.shape != e.shape:
                return f"{name} at t={t} has shape {m.shape}, expected {e.shape}"
            if not np.allclose(m, e, rtol=tl, atol=tl * max(1.0, np.abs(e).max() if e.size else 1.0)):
                return f"{name} at t={t} is off by {np.abs(m - e).max():.3g}"
    return None
