"""C13 bounded part: evolved states against an independent integration of the physical equations of motion."""
import numpy as np, scipy.linalg as la
from scipy.integrate import solve_ivp
from bounded import opers
from bounded.c11 import close
from bounded.c12 import snapshot
from bounded.harness import Bad, Skip

RULE = "a case is (equation, random operator with drives, state shape and dtype, times and return mode); non-trivial when the state changes"
EOM = ("SE", "SE_stack", "LvNE", "imag")


def cases(tier, rng):
    k = 60 if tier == "quick" else 400
    out = [dict(name="evolve", eom=e, seed=rng.randrange(1 << 30)) for e in EOM for _ in range(k)]
    out += [dict(name="user", mode=m, seed=rng.randrange(1 << 30)) for m in ("real", "complex", "stack", "imag", "imag_real") for _ in range(k // 2)]
    out += [dict(name="ed", seed=rng.randrange(1 << 30)) for _ in range(k)]
    rng.shuffle(out)
    return out


def integrate(rhs, y0, t0, ts):
    """states at ts (any order) for y' = rhs(t, y)"""
    y0 = np.asarray(y0, complex)
    res = []
    for t in ts:
        if t == t0:
            res.append(y0.copy())
            continue
        s = solve_ivp(lambda u, y: rhs(u, y.reshape(y0.shape)).ravel(), (t0, t), y0.ravel().copy(), method="DOP853", rtol=1e-11, atol=1e-12)
        res.append(s.y[:, -1].reshape(y0.shape))
    return res


def state(rs, shape, t):
    v = rs.randint(-3, 4, size=shape).astype(t)
    if np.dtype(t).kind == "c":
        v = (v + 1j * rs.randint(-3, 4, size=shape)).astype(t)
    if np.abs(v.flat[0]) < .5:
        v.flat[0] = 2
    lay = rs.randint(3)
    if lay == 1:
        v = np.asfortranarray(v)
    elif lay == 2:
        b = np.zeros((2 * shape[0],) + tuple(shape[1:]), t)
        b[::2] = v
        v = b[::2]
    return v


def grid(rs, t0, t1):
    kind = rs.randint(4)
    if kind == 0:
        return float(rs.choice([t0, t1])), "scalar"
    ts = [t0 + (t1 - t0) * x for x in sorted(rs.choice([0.0, .3, .5, .8, 1.0], size=rs.randint(1, 5), replace=False))]
    if kind == 1:
        return ts, "list"
    if kind == 2:
        return np.array(ts), "array"
    return (ts if rs.rand() < .5 else np.array(ts)), "iterate"


def collect(r, mode, ts, shape, what):
    """list of states in the order of ts"""
    if mode == "scalar":
        if np.shape(r) != shape:
            raise Bad(f"{what}: shape {np.shape(r)}, expected {shape}")
        return [np.array(r)]
    if mode == "iterate":
        out = []
        for x in r:
            if np.shape(x) != shape:
                raise Bad(f"{what}: iterator gave shape {np.shape(x)}, expected {shape}")
            out.append(np.array(x))
        if len(out) != len(ts):
            raise Bad(f"{what}: {len(out)} states for {len(ts)} times")
        return out
    if np.shape(r) != shape + (len(ts),):
        raise Bad(f"{what}: shape {np.shape(r)}, expected {shape + (len(ts),)}")
    return [np.array(r[..., i]) for i in range(len(ts))]


def case_evolve(eom, seed):
    rs = np.random.RandomState(seed)
    real = eom == "SE_stack"
    d = opers.describe(rs, n=int(rs.choice([1, 2, 3, 4])), dtype=str(rs.choice(["d", "f"])) if real else None, herm=rs.rand() < .7)
    H, R, n = opers.build(d), opers.ref(d), d["n"]
    shape = (n, n) if eom == "LvNE" else [(n,), (n, 1), (n, 3), (n, n)][rs.randint(4)]
    vt = str(rs.choice(["d", "D", "f", "F", "i"]))
    v0 = state(rs, shape, "d" if vt == "i" else vt)
    if vt == "i":
        v0 = v0.astype(int)
    if eom == "imag":
        v0 = v0 + (np.abs(v0).sum(axis=0) == 0)
    v00, before = v0.copy(), snapshot(H)
    t0 = float(rs.choice([0.0, -0.4, 1.0]))
    scale = max(1.0, max(np.abs(R(t)).max() for t in (t0 - .5, t0, t0 + .5)))
    dt = 0.7 / scale * (1 if rs.rand() < .8 else -1)
    times, mode = grid(rs, t0, t0 + dt)
    ts = [times] if mode == "scalar" else list(times)
    what = (f"evolve({eom}, v0 {vt} {shape} strides {v0.strides}, t0={t0}, times={times}, {mode}) with hamiltonian(n={n}, {d['dtype']}, {d['sf']}{d['df']}, "
            f"{[(f.__name__, a) for _, f, a in d['dyn']]})")
    solver = str(rs.choice(["dop853", "dop853", "dopri5", "vode"]))
    kw = dict(rtol=1e-10, atol=1e-11, solver_name=solver) if solver != "vode" else dict(rtol=1e-10, atol=1e-11, solver_name="vode", nsteps=100000)
    kw["iterate"] = mode == "iterate"
    if eom == "LvNE":
        kw["eom"] = "LvNE"
        rhs = lambda t, y: -1j * (R(t) @ y - y @ R(t))
    elif eom == "imag":
        kw["imag_time"] = True
        rhs = lambda t, y: -(R(t) @ y)
    else:
        kw["stack_state"] = real
        rhs = lambda t, y: -1j * (R(t) @ y)
    got = collect(H.evolve(v0, t0, times, **kw), mode, ts, shape, what)
    want = integrate(rhs, v0, t0, ts)
    if eom == "imag":
        nrm = np.linalg.norm(v00.astype(complex), axis=0)
        want = [w / np.linalg.norm(w, axis=0) * nrm for w in want]
    for t, g, w in zip(ts, got, want):
        close(g, w, 1e-3 if d["dtype"] in "fF" else 3e-6 if solver == "vode" else 1e-6, what + f" at t={t}")
    if not np.array_equal(v0, v00):
        raise Bad(f"{what}: the initial state was changed")
    after = snapshot(H)
    if not np.array_equal(before[0], after[0]) or any(not np.array_equal(before[1][f], after[1][f]) for f in before[1]):
        raise Bad(f"{what}: the operator was changed")
    return int(max(np.abs(w - v00).max() for w in want) > 1e-3)


def case_user(mode, seed):
    """tools.evolution.evolve with a user function: linear system y' = M y + nonlinear term"""
    from quspin.tools.evolution import evolve
    rs = np.random.RandomState(seed)
    n = int(rs.choice([1, 2, 3]))
    M = rs.randn(n, n)
    shape = (n,)
    c = float(rs.choice([0.0, 0.3]))
    ndim2 = mode in ("real", "complex") and rs.rand() < .4
    if ndim2:
        shape = (n, 2)
    t0 = float(rs.choice([0.0, 0.5]))
    times, tm = grid(rs, t0, t0 + .5)
    ts = [times] if tm == "scalar" else list(times)
    arg = float(rs.choice([1.0, 2.0]))
    kw = dict(rtol=1e-10, atol=1e-11, iterate=tm == "iterate", f_params=(arg,))
    what = f"tools.evolution.evolve({mode}, {shape}, t0={t0}, times={times} {tm})"
    if mode == "real":
        v0 = state(rs, shape, "d")
        f = lambda t, y, a: (M @ y.reshape(shape) * a * np.cos(t) - c * y.reshape(shape) ** 3).ravel()
        rhs = lambda t, y: M @ y * arg * np.cos(t) - c * y ** 3
        kw["real"] = True
    elif mode == "complex":
        v0 = state(rs, shape, "D")
        f = lambda t, y, a: (-1j * (M @ y.reshape(shape) * a * np.cos(t) + c * np.abs(y.reshape(shape)) ** 2 * y.reshape(shape))).ravel()
        rhs = lambda t, y: -1j * (M @ y * arg * np.cos(t) + c * np.abs(y) ** 2 * y)
    elif mode == "stack":
        v0 = state(rs, shape, "D")

        def f(t, y, a):
            q, p = y[:n], y[n:]
            return np.concatenate((M @ p * a * np.cos(t), -M @ q * a * np.cos(t)))
        rhs = lambda t, y: -1j * (M @ y * arg * np.cos(t))
        kw["stack_state"] = True
    else:
        v0 = state(rs, shape, "D" if mode == "imag" else "d")
        f = lambda t, y, a: -(M @ y) * a
        rhs = lambda t, y: -(M @ y) * arg
        kw["imag_time"] = True
        kw["real"] = mode == "imag_real"
    v00 = v0.copy()
    got = collect(evolve(v0, t0, times, f, **kw), tm, ts, shape, what)
    want = integrate(rhs, v0, t0, ts)
    if mode.startswith("imag"):
        want = [w / np.linalg.norm(w) * np.linalg.norm(v00) for w in want]
    for t, g, w in zip(ts, got, want):
        close(g, w, 1e-6, what + f" at t={t}")
    if not np.array_equal(v0, v00):
        raise Bad(f"{what}: the initial state was changed")
    return int(max(np.abs(w - v00).max() for w in want) > 1e-3)


def case_ed(seed):
    from quspin.tools.evolution import ED_state_vs_time
    rs = np.random.RandomState(seed)
    n = int(rs.choice([2, 3, 5]))
    A = rs.randn(n, n) + 1j * rs.randn(n, n) * (rs.rand() < .5)
    A = A + A.conj().T
    E, V = np.linalg.eigh(A)
    ts = [float(x) for x in rs.randn(rs.randint(1, 4))]
    mixed = rs.rand() < .5
    psi = state(rs, (n, n) if mixed else (n,), "D")
    p0, V0 = psi.copy(), V.copy()
    it = rs.rand() < .5
    what = f"ED_state_vs_time(n={n}, {'mixed' if mixed else 'pure'}, times={ts}, iterate={it})"
    got = collect(ED_state_vs_time(psi, E, V, ts, iterate=it), "iterate" if it else "list", ts, psi.shape, what)
    for t, g in zip(ts, got):
        U = la.expm(-1j * t * A)
        close(g, U @ p0 @ U.conj().T if mixed else U @ p0, 1e-9, what + f" at t={t}")
    if not (np.array_equal(psi, p0) and np.array_equal(V, V0)):
        raise Bad(f"{what}: the inputs were changed")
    return 1
