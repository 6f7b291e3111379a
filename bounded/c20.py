"""C20 bounded part: block decompositions (block_diag_hamiltonian, block_ops) against the full space, for every number of processes."""
import os, random, signal, time, warnings
import numpy as np, scipy.linalg as la, scipy.sparse as sp
from scipy.integrate import solve_ivp
from bounded.harness import Bad, Skip

warnings.filterwarnings("ignore")
RULE = ("a case is (model and family of symmetry blocks, Hamiltonian, initial state, call, number of processes); non-trivial when at least "
        "two blocks carry weight")
FAM = ("spin_k", "spin_p", "spin_z", "spin_kz", "spin_pz", "spin_nup", "spin_nup_k", "gen_k", "gen_kz", "fermion_k", "fermion_nk", "boson_k", "boson_p", "boson_nk",
       "spinful_k", "hcb_nk", "nosym")


def cases(tier, rng):
    k = 3 if tier == "quick" else 15
    out = []
    for fam in FAM:
        for _ in range(6 * k):
            out.append(dict(name="assemble", fam=fam, dt=rng.choice("DDF"), nd=rng.choice([0, 1, 2, 3]), subset=rng.random() < .3, empty=rng.random() < .3, seed=rng.randrange(1 << 30)))
        for _ in range(8 * k):
            grid = rng.choice(["none", "grid", "iter", "iter"])
            out.append(dict(name="expm", fam=fam, dt=rng.choice("DDF"), nd=rng.choice([0, 0, 1, 2]), grid=grid, bd=rng.random() < .4, jobs=rng.choice([1, 2, 3, 5, 9]) if grid == "iter" else 1,
                            subset=rng.random() < .25, empty=rng.random() < .2, seed=rng.randrange(1 << 30)))
            grid = rng.choice(["scalar", "grid", "iter", "iter"])
            out.append(dict(name="evolve", fam=fam, dt="D", nd=rng.choice([0, 0, 1, 2]), grid=grid, bd=rng.random() < .4, jobs=rng.choice([1, 2, 3, 5, 9]) if grid == "iter" else 1,
                            subset=rng.random() < .25, empty=rng.random() < .2, seed=rng.randrange(1 << 30)))
        for _ in range(2 * k):
            out.append(dict(name="manage", fam=fam, nd=rng.choice([0, 2]), seed=rng.randrange(1 << 30)))
    for _ in range(6 * k):
        out.append(dict(name=rng.choice(["expm", "evolve"]), fam=rng.choice(FAM), dt="D", nd=rng.choice([0, 1]), grid="grid", bd=rng.random() < .5, jobs=rng.choice([2, 3, 9]), subset=False,
                        empty=False, seed=rng.randrange(1 << 30)))
        out.append(dict(name="error", jobs=rng.choice([1, 2, 3]), seed=rng.randrange(1 << 30)))
    rng.shuffle(out)
    return out


def ramp(t, v):
    return 0.4 + v * t


def wave(t, w):
    return np.cos(w * t)


def slow(t):
    """a time dependence which takes a different time in every process"""
    time.sleep(random.random() * 2e-4)
    return 1 / (1 + t * t)


FUN = ((ramp, (.3,)), (wave, (2.0,)), (wave, (0.7,)), (slow, ()), (ramp, (-.2,)))


class limit:
    """a call has to come back"""

    def __init__(self, seconds, what):
        self.s, self.what = seconds, what

    def __enter__(self):
        def stop(*a):
            raise Bad(f"{self.what}: no result after {self.s} s")
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def model(fam, r):
    """-> (basis constructor, args, keyword arguments common to all blocks, blocks, terms)  with terms all compatible with the blocks"""
    from quspin import basis as B
    kind, _, sym = fam.partition("_")
    L = r.choice({"spin": [2, 3, 4, 5], "gen": [3, 4], "fermion": [3, 4, 5], "boson": [2, 3], "spinful": [2, 3], "hcb": [3, 4, 5], "nosym": [3]}[kind])
    if "p" in sym or "z" in sym:
        L = r.choice([2, 4] if kind != "gen" else [4])
    kw, ks = {}, [dict(kblock=q) for q in range(L)]
    if kind == "spin" or kind == "nosym":
        con, args = B.spin_basis_1d, (L,)
        kw = dict(pauli=r.choice([True, False]))
        if r.random() < .25 and sym in ("k", "nup", "nup_k", "p") and L < 4:
            kw = dict(S="1")
        twoS = 2 if kw.get("S") == "1" else 1
        nup = lambda: [dict(Nup=x) for x in range(twoS * L + 1)]
    elif kind == "hcb":
        con, args = B.boson_basis_1d, (L,)
        kw = dict(sps=2)
    elif kind == "boson":
        con, args = B.boson_basis_1d, (L,)
        kw = dict(sps=3)
    elif kind == "fermion":
        con, args = B.spinless_fermion_basis_1d, (L,)
        if sym == "k":          # the sign of the shift depends on the number of particles
            kw = dict(Nf=r.randint(1, L))
    elif kind == "spinful":
        con, args = B.spinful_fermion_basis_1d, (L,)
        kw = dict(Nf=(r.randint(0, L), r.randint(0, L)))
    else:
        con, args = B.spin_basis_general, (L,)
        T = np.roll(np.arange(L), -1)
        ks = [dict(kx=(T, q)) for q in range(L)]
    if sym == "" or kind == "nosym":
        blocks = [{}]
    elif sym == "k":
        blocks = ks
    elif sym == "kz":
        z = "zblock" if kind == "spin" else "z"
        zs = [1, -1] if kind == "spin" else [(-(np.arange(L) + 1), 0), (-(np.arange(L) + 1), 1)]
        blocks = [dict(k, **{z: v}) for k in ks for v in zs]
    elif sym == "p":
        blocks = [dict(pblock=1), dict(pblock=-1)]
    elif sym == "z":
        blocks = [dict(zblock=1), dict(zblock=-1)]
    elif sym == "pz":
        blocks = [dict(pblock=p, zblock=z) for p in (1, -1) for z in (1, -1)] if r.random() < .5 else [dict(pzblock=1), dict(pzblock=-1)]
    elif sym == "nup":
        blocks = nup()
    elif sym == "nup_k":
        blocks = [dict(n, **k) for n in nup() for k in ks]
    else:                       # nk
        key = "Nf" if kind == "fermion" else "Nb"
        blocks = [dict(k, **{key: n}) for n in range(L * (kw.get("sps", 2) - 1) + 1) for k in ks]
    c = lambda: round(r.uniform(-1, 1), 3)
    b1 = lambda J: [[J, i, (i + 1) % L] for i in range(L)]
    T = []
    if kind in ("spin", "gen", "nosym"):
        J, J2 = c(), c()
        T += [("zz", b1(c())), ("+-", b1(J)), ("-+", b1(J))]
        if "z" not in sym:
            T.append(("z", [[J2, i] for i in range(L)]))
        if "nup" not in sym and kw.get("S") is None:
            T.append(("x", [[c() or .1, i] for i in range(L)]) if False else ("xx", b1(c())))
            x = c()
            T.append(("x", [[x, i] for i in range(L)]))
    elif kind == "spinful":
        J = c()
        for s in ("+-|", "|+-"):
            m = s.replace("+", "x").replace("-", "+").replace("x", "-")
            T += [(s, b1(J)), (m, [[-J, i, j] for _, i, j in b1(1)])]
        T += [("n|n", [[c(), i, i] for i in range(1)] and [[.8, i, i] for i in range(L)])]
    else:
        J = c()
        if kind == "fermion":
            T += [("+-", b1(J)), ("-+", b1(-J))]
        else:
            T += [("+-", b1(J)), ("-+", b1(J)), ("nn", [[.3, i, i] for i in range(L)])]
        T += [("nn", b1(c()))]
    full = dict(kw)
    return con, args, kw, blocks, T, full, L


def split(T, nd, r):
    """distribute the terms (pairs +-,-+ stay together) over static and nd time dependences"""
    herm, pair = [], []
    for op, l in T:
        (pair if "+" in op else herm).append([op, l])
    groups = [[x] for x in herm] + [pair[i:i + 2] for i in range(0, len(pair), 2)]
    fs = r.sample(FUN, nd)
    static, dynamic = [], []
    for i, g in enumerate(groups):
        w = r.choice([None] + fs)
        for op, l in g:
            if w is None:
                static.append([op, l])
            else:
                dynamic.append([op, l, w[0], w[1]])
    return static, dynamic


def setup(fam, nd, r, dt, subset, empty):
    from quspin.operators import hamiltonian
    con, args, kw, blocks, T, full, L = model(fam, r)
    static, dynamic = split(T, nd, r)
    D = {"D": np.complex128, "F": np.complex64}[dt]
    no = dict(check_symm=False, check_herm=False, check_pcon=False)
    b0 = con(*args, **full)
    H = hamiltonian(static, dynamic, basis=b0, dtype=np.complex128, **no)
    r.shuffle(blocks)
    keep, P = [], []
    pcon = bool(full.get("Nf") is not None)
    gp = dict(pcon=True) if pcon else {}
    for blk in blocks:
        try:
            b = con(*args, **dict(blk, **kw))
        except ValueError as e:     # the package refuses the combination: not a case of this property
            raise Skip()
        if b.Ns == 0 and not empty:
            continue
        keep.append(blk)
    if subset and len(keep) > 1:
        keep = r.sample(keep, r.randint(1, len(keep) - 1))
    for blk in keep:
        b = con(*args, **dict(blk, **kw))
        P.append(np.asarray(b.get_proj(np.complex128, **gp).todense()) if b.Ns else np.zeros((b0.Ns, 0)))
    ends = np.cumsum([0] + [p.shape[1] for p in P])
    cols = [(x, y) for x, y in zip(ends, ends[1:]) if y > x]
    P = np.hstack(P)
    if len(P.T) == 0:
        raise Skip()
    if P.shape[0] != b0.Ns or np.abs(P.conj().T @ P - np.eye(P.shape[1])).max() > 1e-8:
        raise Skip()            # C07's business
    return dict(con=con, args=args, kw=kw, blocks=keep, static=static, dynamic=dynamic, H=H, P=P, cols=cols, D=D, gp=gp, no=no, n=b0.Ns, fam=fam, whole=P.shape[0] == P.shape[1],
                what=f"{fam} {args} {kw} blocks {[str(x)[:40] for x in keep][:6]}{'...' if len(keep) > 6 else ''}")


def close(a, e, tol, what):
    a, e = np.asarray(a), np.asarray(e)
    if a.shape != e.shape:
        raise Bad(f"{what}: shape {a.shape} instead of {e.shape}")
    d = np.abs(a - e).max(initial=0)
    if not d <= tol * max(1, np.abs(e).max(initial=0)):
        raise Bad(f"{what}: off by {d:.3g}")


def mat(H, t):
    return np.asarray(H(t).todense()) if sp.issparse(H(t)) else np.asarray(H(t))


def case_assemble(fam, dt, nd, subset, empty, seed):
    from quspin.tools.block_tools import block_diag_hamiltonian
    r = random.Random(seed)
    m = setup(fam, nd, r, dt, subset, empty)
    blocks = [dict(b) for b in m["blocks"]]
    before = [str(b) for b in blocks]
    what = f"block_diag_hamiltonian({m['what']}, {len(m['dynamic'])} dynamic terms, dtype {dt})"
    a = (iter(blocks) if r.random() < .2 else blocks, m["static"], m["dynamic"], m["con"], m["args"], m["D"])
    k = dict(basis_kwargs=m["kw"], get_proj_kwargs=m["gp"], **m["no"])
    tol = 1e-10 if dt == "D" else 1e-4
    P, Hb = block_diag_hamiltonian(*a, **k)
    close(P.toarray(), m["P"], tol, what + ": projector")
    if np.dtype(Hb.dtype) != np.dtype(m["D"]):
        raise Bad(f"{what}: the matrix has dtype {Hb.dtype}")
    for t in (0., .37, 1.9):
        close(mat(Hb, t), m["P"].conj().T @ mat(m["H"], t) @ m["P"], tol, what + f" at t={t}")
    if [str(b) for b in blocks] != before:
        raise Bad(f"{what}: changed the block dictionaries")
    H2 = block_diag_hamiltonian(blocks, *a[1:], get_proj=False, **k)
    for t in (0., .6):
        close(mat(H2, t), mat(Hb, t), tol, what + f" without projector, t={t}")
    return len(blocks) > 1 and P.shape[1] > 1


def state(m, r):
    rs = np.random.RandomState(r.randrange(1 << 30))
    n = m["n"]
    psi = rs.normal(size=n) + (1j * rs.normal(size=n) if r.random() < .7 else 0)
    how = r.choice(["all", "all", "some", "inside"])
    if how == "some":
        psi = psi * (rs.rand(n) < .4)
        psi[rs.randint(n)] += 1
    elif how == "inside":           # in one block only
        j = rs.randint(m["P"].shape[1])
        psi = m["P"][:, j].astype(complex)
    psi = m["P"] @ (m["P"].conj().T @ psi) if r.random() < .3 else psi
    w = np.linalg.norm(m["P"].conj().T @ psi)
    if w < 1e-3:
        psi = m["P"] @ (rs.normal(size=m["P"].shape[1]) + 0j)
        w = 1
    psi = psi / np.linalg.norm(psi)
    if m["D"] == np.complex128 and how != "inside" and len(m["cols"]) > 1 and r.random() < .4:      # blocks which carry little, but not nothing
        c = m["P"].conj().T @ psi
        j = r.randrange(len(m["cols"]))
        for b, (x, y) in enumerate(m["cols"]):
            if b != j:
                psi = psi + m["P"][:, x:y] @ c[x:y] * (r.choice([3e-5, 1e-6, 1e-4]) - 1)
        how = "small"
    form = r.choice(["v", "v", "col", "csr", "csc", "list"])
    arg = {"v": psi, "col": psi[:, None], "csr": sp.csr_matrix(psi[:, None]), "csc": sp.csc_matrix(psi[:, None]), "list": list(psi)}[form]
    return psi, arg, form


def ops(m, r, **kw):
    from quspin.tools.block_tools import block_ops
    bl = [dict(b) for b in m["blocks"]]
    return block_ops(bl, m["static"], m["dynamic"], m["con"], m["args"], m["D"], basis_kwargs=m["kw"], get_proj_kwargs=m["gp"],
                     save_previous_data=r.random() < .5, compute_all_blocks=r.random() < .4, **dict(m["no"], **kw))


def collect(gen, count, what, r):
    out = []
    for x in gen:
        out.append(x)
        if r.random() < .2:
            time.sleep(.003)
    if len(out) != count:
        raise Bad(f"{what}: the iterator gave {len(out)} states for {count} times")
    return np.stack(out, axis=-1)


def case_expm(fam, dt, nd, grid, bd, jobs, subset, empty, seed):
    r = random.Random(seed)
    m = setup(fam, nd, r, dt, subset, empty)
    O = ops(m, r)
    psi, arg, form = state(m, r)
    a = r.choice([-1j, -1j, 1j, -.4, 1, .3 - .5j, 2j])
    k = dict(a=a)
    te = 0.0
    if r.random() < .5:
        te = k["H_time_eval"] = round(r.uniform(0, 2), 2)
    shift = None
    if r.random() < .3:
        shift = k["shift"] = r.choice([.6, -1.1])
    A = a * mat(m["H"], te) + (a * shift * np.eye(m["n"]) if shift else 0)
    ts = None
    if grid != "none":
        start, stop = r.choice([(0, 1), (0., 2.5), (.4, 1.6), (1, 0), (-1., 1.), (.5, .5), (0, -1)])
        if np.real(a):      # no grid on which rounding errors grow exponentially
            start, stop = r.choice([(0, 1), (.4, 1.6), (.5, .5)])
        k.update(start=start, stop=stop)
        num = 50
        num = r.choice([1, 2, 3, 5, 8])
        if grid == "grid" and num == 1:
            num = 2
        k["num"] = num
        ep = True
        if r.random() < .5:
            ep = k["endpoint"] = r.random() < .5
        ts = np.linspace(start, stop, num=num, endpoint=ep)
    what = f"block_ops.expm({m['what']}, psi as {form}, {k}, iterate={grid == 'iter'}, n_jobs={jobs}, block_diag={bd})"
    with limit(120, what):
        R = O.expm(arg, iterate=grid == "iter", n_jobs=jobs, block_diag=bd, **k)
        if grid == "iter":
            R = collect(R, len(ts), what, r)
    Q = m["P"] @ m["P"].conj().T
    if ts is None:
        e = Q @ (la.expm(A) @ psi)
    else:
        e = np.stack([Q @ (la.expm(A * t) @ psi) for t in ts], axis=-1)
    close(R, e, 1e-9 if dt == "D" else 2e-3, what)
    if r.random() < .3:             # again: the object was not changed by the first call
        R = O.expm(arg, **{x: y for x, y in k.items() if x in ("a", "H_time_eval", "shift")})
        close(R, Q @ (la.expm(A) @ psi), 1e-9 if dt == "D" else 2e-3, what + ", then without a grid")
    return m["P"].shape[1] > 1


def reference(m, psi, t0, ts):
    y, t, out = psi.astype(complex), t0, []
    const = not m["dynamic"]
    M0 = mat(m["H"], 0.) if const else None
    for s in ts:
        if s != t:
            if const:
                y = la.expm(-1j * (s - t) * M0) @ y
            else:
                parts = [(np.asarray(M.todense()) if sp.issparse(M) else np.asarray(M), f) for f, M in m["H"].dynamic.items()]
                S = m["H"].static.toarray()
                fun = {x: x for x in ()}
                rhs = lambda tt, v: -1j * (S @ v + sum(quick(f, tt) * (M @ v) for M, f in parts))
                y = solve_ivp(rhs, (t, s), y, method="DOP853", rtol=1e-10, atol=1e-11).y[:, -1]
        out.append(y)
        t = s
    return np.stack(out, axis=-1)


def quick(f, t):
    return 1 / (1 + t * t) if str(f) == "slow" else f(t)


def case_evolve(fam, dt, nd, grid, bd, jobs, subset, empty, seed):
    r = random.Random(seed)
    m = setup(fam, nd, r, dt, subset, empty)
    if m["dynamic"] and m["n"] > 40:
        raise Skip()
    O = ops(m, r)
    psi, arg, form = state(m, r)
    t0 = r.choice([0, 0., .3])
    n = r.choice([1, 2, 4])
    ts = sorted(round(r.uniform(t0, t0 + 2), 2) for _ in range(n))
    if r.random() < .3:
        ts[0] = t0
    if r.random() < .15:
        ts = sorted(round(r.uniform(t0 - 1, t0), 2) for _ in range(n))[::-1]
    k = dict(rtol=1e-9, atol=1e-10)
    if r.random() < .2:
        k["solver_name"] = "dopri5"
    stack = r.random() < .2
    what = f"block_ops.evolve({m['what']}, psi as {form}, t0={t0}, times {ts}, {k}, iterate={grid == 'iter'}, n_jobs={jobs}, block_diag={bd}, {len(m['dynamic'])} dynamic)"
    times = ts[0] if grid == "scalar" else (np.array(ts) if r.random() < .6 else list(ts))
    with limit(200, what):
        try:
            R = O.evolve(arg, t0, times, iterate=grid == "iter", n_jobs=jobs, block_diag=bd, **k)
            if grid == "iter":
                R = collect(R, n, what, r)
        except RuntimeError as e:
            if ts[-1] < t0 and "nsteps" in str(e):      # the integrator of scipy gives up on some backward steps
                raise Skip()
            raise
    Q = m["P"] @ m["P"].conj().T
    if grid == "scalar":
        e = Q @ reference(m, psi, t0, ts[:1])[:, 0]
    else:
        e = Q @ reference(m, psi, t0, ts)
    close(R, e, 2e-6, what)
    return m["P"].shape[1] > 1


def case_manage(fam, nd, seed):
    """the stored matrices are those of the blocks; blocks added later; no projection; refused arguments"""
    r = random.Random(seed)
    m = setup(fam, nd, r, "D", False, True)
    from quspin.tools.block_tools import block_ops
    all_blocks = [dict(b) for b in m["blocks"]]
    cut = r.randint(0, len(all_blocks))
    comp = r.random() < .5
    O = block_ops(all_blocks[:cut], m["static"], m["dynamic"], m["con"], m["args"], m["D"], basis_kwargs=m["kw"], get_proj_kwargs=m["gp"], compute_all_blocks=comp,
                  save_previous_data=r.random() < .6, **m["no"])
    O.update_blocks(all_blocks[cut:] + [dict(b) for b in all_blocks[:2]], m["con"], m["args"], compute_all_blocks=r.random() < .5)
    if r.random() < .5:
        O.compute_all_blocks()
    what = f"block_ops({m['what']}), {cut} blocks at construction"
    dims = sum(b.Ns for b in O.basis_dict.values())
    if dims != m["P"].shape[1]:
        raise Bad(f"{what}: the blocks have {dims} states together, expected {m['P'].shape[1]}")
    for t in (0., .8):
        for key, Hb in O.H_dict.items():
            p = O.basis_dict[key].get_proj(np.complex128, **m["gp"]).toarray()
            close(mat(Hb, t), p.conj().T @ mat(m["H"], t) @ p, 1e-10, f"{what}: H_dict[{key}] at t={t}")
    for key, p in O.P_dict.items():
        close(p.toarray(), O.basis_dict[key].get_proj(np.complex128, **m["gp"]).toarray(), 1e-12, f"{what}: P_dict[{key}]")
    psi, arg, form = state(m, r)
    R = O.expm(arg)
    close(R, m["P"] @ (m["P"].conj().T @ (la.expm(-1j * mat(m["H"], 0.)) @ psi)), 1e-9, what + ".expm")
    for f in (lambda: O.expm(np.zeros(m["n"])), lambda: O.evolve(np.zeros(m["n"]), 0, 1.)):
        try:
            f()
        except RuntimeError:
            continue
        raise Bad(f"{what}: a state without projection on the blocks is accepted")
    return m["P"].shape[1] > 1


class Boom(RuntimeError):
    pass


def boom(t):
    if t > .5:
        raise Boom("stop")
    return 1.


def case_error(jobs, seed):
    """an error in a process reaches the caller"""
    from quspin.basis import spin_basis_1d
    from quspin.tools.block_tools import block_ops
    r = random.Random(seed)
    L = r.choice([2, 4])
    O = block_ops([dict(pblock=1), dict(pblock=-1)], [["zz", [[1., i, i + 1] for i in range(L - 1)]]], [["x", [[1., i] for i in range(L)], boom, ()]], spin_basis_1d, (L,),
                  np.complex128, check_symm=False, check_herm=False)
    psi = np.random.RandomState(seed % 1000).normal(size=2 ** L)
    what = f"block_ops.evolve of {L} sites with a time dependence which fails, n_jobs={jobs}"
    with limit(60, what):
        try:
            for x in O.evolve(psi, 0, [.1, .2, 1.], iterate=True, n_jobs=jobs):
                pass
        except Bad:
            raise
        except Exception as e:
            if "stop" in str(e):
                return 1
            raise Bad(f"{what}: raised {type(e).__name__}: {str(e)[:80]}")
    raise Bad(f"{what}: no error")
