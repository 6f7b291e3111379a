"""Result of a deductive task in the form run.py expects."""


def result(ex, st, functions, undecided=None):
    obls = []
    for o in ex.obls:
        d = {"name": o.name, "status": o.status, "t": round(o.t, 3), "backend": o.backend}
        if o.model is not None and o.status == "refuted":
            try:
                d["counterexample"] = {str(x): str(o.model[x])[:80] for x in list(o.model.decls())[:40]}
            except Exception:
                pass
        # a refutation after an invariant was lost to a solver timeout does not refute anything
        if o.status == "refuted" and getattr(ex, "lost", 0):
            d["status"] = "unknown"
        obls.append(d)
    r = {"obligations": obls, "functions": functions, "loops": ex.loop_report, "queries": st.queries,
         "solver_time": round(st.time, 2)}
    if undecided:
        r["undecided"] = undecided
    return r
