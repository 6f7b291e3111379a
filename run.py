#!/usr/bin/env python3
"""Run the check of one property: python3-vt run.py C01      (VERIF_TIER=quick|thorough, VERIF_SEED)
deductive tasks (contracts/*) and the bounded stand-in (bounded/*) run in parallel; see DESIGN.md for the outcome policy."""
import importlib, json, multiprocessing, os, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True


def run_task(spec):
    """one deductive task in its own process -> result dict"""
    modname, fn, args, budget = spec
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    try:
        os.environ["VF_DEADLINE"] = str(t0 + budget)
        m = importlib.import_module(modname)
        r = getattr(m, fn)(*args)
        r.setdefault("obligations", [])
    except Exception as e:
        r = {"obligations": [], "undecided": f"{type(e).__name__}: {e}"[:400], "trace": traceback.format_exc()[-2000:]}
    r.update(task=f"{fn}({', '.join(map(str, args))})", wall=round(time.time() - t0, 2))
    return r


def task_main(spec, path):
    r = run_task(spec)
    with open(path, "w") as f:
        json.dump(r, f)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    t0 = time.time()
    import checks
    from vf import build
    chk = checks.CHECKS[pid]
    evdir = f"{HERE}/evidence"
    os.makedirs(evdir, exist_ok=True)
    for fn in os.listdir(evdir):
        if fn.startswith(f"replay_{pid}_"):
            os.remove(f"{evdir}/{fn}")
    work = f"/tmp/vf_run_{pid}_{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    try:
        code = drive(pid, tier, seed, chk, evdir, work, t0, build)
    finally:
        subprocess.run(["rm", "-rf", work])
    sys.exit(code)


def known_findings():
    out = {}
    with open(f"{HERE}/known_findings.txt") as f:
        for line in f:
            if line.startswith("finding: "):
                d = dict(x.split("=", 1) for x in line.split("|")[0].split()[1:])
                out[(d["property"], d["key"])] = line.split("|", 1)[1].strip()
    return out


def drive(pid, tier, seed, chk, evdir, work, t0, build):
    log = lambda *a: print(*a, file=sys.stderr, flush=True)
    total = 780 if tier == "quick" else 3000
    try:
        pkg = build.package(log)
    except build.BuildFailed as e:
        print("the working tree does not build:", str(e)[:1500])
        return 3
    t_build = time.time() - t0
    ncpu = os.cpu_count() or 4
    # ---- start the deductive tasks and the bounded shards
    tasks = [(m, f, a, chk.get("task_budget", 420) if tier == "quick" else 1500) for m, f, a in chk.get("proofs", [])]
    shards = chk.get("shards", 4 if tasks else ncpu) if chk.get("bounded") else 0
    jobs = [("proof", i, s) for i, s in enumerate(tasks)] + [("bounded", i, None) for i in range(shards)]
    jobs.sort(key=lambda j: (j[0] == "proof", j[1])) if chk.get("bounded_first") else None
    order = []
    p, b = [j for j in jobs if j[0] == "proof"], [j for j in jobs if j[0] == "bounded"]
    while p or b:                      # interleave, so that neither side starves the other
        if b:
            order.append(b.pop(0))
        if p:
            order.append(p.pop(0))
        if p:
            order.append(p.pop(0))
    running, results, shard_out = {}, [], []
    deadline = t0 + total
    while order or running:
        while order and len(running) < ncpu:
            kind, i, s = order.pop(0)
            if kind == "proof":
                path = f"{work}/task{i}.json"
                pr = subprocess.Popen([sys.executable, f"{HERE}/run.py", "--task", json.dumps(s), path], cwd=HERE,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                running[pr] = (kind, i, path, min(deadline, time.time() + s[3] + 60))
            else:
                path = f"{work}/shard{i}.json"
                env = build._env()
                env.update(PYTHONPATH=f"{pkg}:{HERE}", OMP_NUM_THREADS=str(chk.get("omp", 1)), OPENBLAS_NUM_THREADS="1",
                           MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", VF_WORK=work)
                err = open(f"{work}/shard{i}.err", "w")
                pr = subprocess.Popen([build.QPY, "-W", "ignore", "-m", "bounded.harness", chk["bounded"], tier, str(seed), str(i),
                                       str(shards), path, str(chk.get("bounded_budget", 150 if tier == "quick" else 1200))],
                                      cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
                running[pr] = (kind, i, path, deadline)
        for pr in list(running):
            kind, i, path, dl = running[pr]
            rc = pr.poll()
            if rc is None and time.time() > dl:
                os.killpg(pr.pid, signal.SIGKILL)
                pr.wait()
                rc = "timeout"
            if rc is None:
                continue
            del running[pr]
            if kind == "proof":
                try:
                    with open(path) as f:
                        results.append(json.load(f))
                except Exception:
                    results.append({"task": str(tasks[i][:3]), "obligations": [], "undecided": f"task ended with {rc}", "wall": 0})
            else:
                shard_out.append((i, rc, path))
        time.sleep(0.05)
    # ---- bounded results
    known = known_findings()
    bnd = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "by_case": {}, "skipped": 0}
    viol, hits = [], {}
    for i, rc, path in sorted(shard_out, key=lambda s: s[0]):
        try:
            with open(path) as f:
                d = json.load(f)
        except Exception:
            d = None
        if d is None or rc != 0:
            cur = ""
            try:
                with open(path + ".cur") as f:
                    cur = json.loads(f.read())
            except Exception:
                pass
            with open(f"{work}/shard{i}.err") as f:
                tail = f.read()[-1500:]
            if rc == "timeout":
                log(f"bounded shard {i} ran out of time in {cur}")
                bnd["skipped"] += 1
            elif cur:
                viol.append({"case": cur, "what": f"the process died (exit {rc}) while running this case", "stderr": tail})
            else:
                print(f"bounded shard {i} could not start (exit {rc})\n{tail}")
                if "bounded/" in tail.split("File")[-1] or not tail:
                    return 3
                viol.append({"case": {"import": True}, "what": "quspin cannot be imported or set up", "stderr": tail})
        if d is None:
            continue
        bnd["evaluations"] += d["evaluations"]
        bnd["distinct_nontrivial"] += d["nontrivial"]
        bnd["skipped"] += d["skipped"]
        bnd["rule"] = d["rule"]
        bnd["samples"] += d["samples"][:3]
        for k, v in d["by_case"].items():
            bnd["by_case"][k] = bnd["by_case"].get(k, 0) + v
        for v in d["violations"]:
            key = v.get("finding")
            if key and (pid, key) in known:
                hits.setdefault(key, v)
            else:
                viol.append(v)
    bnd["samples"] = bnd["samples"][:8]
    # ---- deductive results
    obls = [dict(o, task=r["task"]) for r in results for o in r["obligations"]]
    und = [{"task": r["task"], "reason": r["undecided"]} for r in results if r.get("undecided")]
    proved = [o for o in obls if o["status"] == "proved"]
    refuted = [o for o in obls if o["status"] == "refuted"]
    unknown = [o for o in obls if o["status"] not in ("proved", "refuted")]
    # a failed obligation that a listed finding accounts for
    exp = chk.get("expected_refuted", {})
    still = []
    for o in refuted:
        key = next((k for k, pat in exp.items() if (pid, k) in known and pat in o["name"]), None)
        if key:
            hits.setdefault(key, {"what": "obligation " + o["name"]})
        else:
            still.append(o)
    refuted = still
    lines = []
    for key, v in sorted(hits.items()):
        lines.append(f"KNOWN-FINDING: property={pid} {key}: {known[(pid, key)]}")
    nv = 0
    seen = set()
    for v in viol:
        sig = (v["case"].get("name") if isinstance(v["case"], dict) else "", v["what"][:60])
        if sig in seen or nv >= 8:
            continue
        seen.add(sig)
        rp = f"{evdir}/replay_{pid}_{nv}.json"
        nv += 1
        with open(rp, "w") as f:
            json.dump({"property": pid, "module": chk["bounded"], "case": v["case"], "what": v["what"], "stderr": v.get("stderr"),
                       "failed_obligations": [o["name"] for o in refuted][:20],
                       "how": f"python3-vt {HERE}/replay.py {rp}"}, f, indent=1)
        lines.append(f"failing input: {json.dumps(v['case'])[:400]}: {v['what'][:400]}")
        lines.append(f"VIOLATION property={pid} replay={rp}")
    if refuted and not viol:
        rp = f"{evdir}/replay_{pid}_obligation.json"
        nv += 1
        with open(rp, "w") as f:
            json.dump({"property": pid, "obligations": refuted, "note": "verification conditions of the current source that the "
                       "prover refuted; the bounded search found no failing input"}, f, indent=1)
        for o in refuted[:10]:
            lines.append(f"failed obligation: {o['name']}")
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    # ---- evidence
    solver = round(sum(r.get("solver_time", 0) for r in results), 2)
    backends = {}
    for o in proved:
        backends[o.get("backend", "?")] = backends.get(o.get("backend", "?"), 0) + 1
    cov = {"bounded": bnd} if chk.get("bounded") else {}
    level = chk["level"]
    if tasks:
        full = [r["task"] for r in results if r["obligations"] and not r.get("undecided")
                and all(o["status"] == "proved" for o in r["obligations"])]
        cov.update(obligations=len(obls), discharged=len(proved), checker_cmd=f"python3-vt run.py {pid}",
                   trusted_base=chk.get("trusted", []), functions_under_contract=sorted({x for r in results for x in r.get("functions", [])}),
                   tasks_fully_discharged=sorted(full), undecided_tasks=und,
                   undischarged=[{"name": o["name"], "status": o["status"]} for o in unknown + refuted][:50],
                   by_back_end=backends, solver_time_s=solver, solver_queries=sum(r.get("queries", 0) for r in results),
                   loops=[x for r in results for x in r.get("loops", [])][:80],
                   obligation_samples=[o["name"] for o in proved[:: max(1, len(proved) // 12)]][:12],
                   task_wall={r["task"]: r["wall"] for r in results})
    if chk.get("bounded"):
        cov.update(evaluations=bnd["evaluations"], distinct_nontrivial=bnd["distinct_nontrivial"], rule=bnd.get("rule", ""),
                   samples=bnd["samples"])
    cov["explanation"] = chk.get("explanation", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": chk.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": nv, "build_s": round(t_build, 2),
          "known_findings": sorted(hits)}
    with open(f"{evdir}/{pid}.json.tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(f"{evdir}/{pid}.json.tmp", f"{evdir}/{pid}.json")
    for u in und:
        print(f"undecided: {u['task']}: {u['reason']}")
    for o in unknown[:20]:
        print(f"undischarged ({o['status']}): {o['name']}")
    for ln in lines:
        print(ln)
    print(f"{pid} {tier}: {len(proved)}/{len(obls)} obligations discharged, {bnd['evaluations']} bounded evaluations "
          f"({bnd['distinct_nontrivial']} non-trivial), {nv} violations, {round(time.time() - t0, 1)} s")
    return 1 if nv else 0


if __name__ == "__main__":
    if sys.argv[1] == "--task":
        task_main(json.loads(sys.argv[2]), sys.argv[3])
    else:
        main()
