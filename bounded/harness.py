"""Bounded stand-in: evaluate the contracts of a property concretely on the rebuilt package.
python -m bounded.harness MODULE TIER SEED SHARD NSHARDS OUT BUDGET;  a case is {"name": .., **params}"""
import importlib, json, os, random, sys, time, traceback


class Bad(Exception):
    """the property is broken on this input"""

    def __init__(self, msg, finding=None):
        Exception.__init__(self, msg)
        self.finding = finding


NOTES = []


def note(finding, msg):
    """a deviation listed in known_findings.txt; the case goes on, the rest of it is still checked"""
    NOTES.append((finding, msg))


class Skip(Exception):
    """the case is not applicable"""


def jdefault(o):
    try:
        return o.item()
    except Exception:
        return str(o)


def run_case(mod, case):
    """-> (status, weight or message, finding)"""
    try:
        w = getattr(mod, "case_" + case["name"])(**{k: v for k, v in case.items() if k != "name"})
        return "ok", (1 if w is None else w), None
    except Bad as e:
        return "bad", str(e), e.finding
    except Skip:
        return "skip", None, None
    except MemoryError:
        return "skip", None, None
    except Exception as e:
        tb = traceback.format_exc()
        return "bad", f"{type(e).__name__}: {e} [{tb[-700:]}]", None


def main():
    modname, tier, seed, shard, n, out, budget = sys.argv[1:8]
    seed, shard, n, budget = int(seed), int(shard), int(n), float(budget)
    t0 = time.time()
    mod = importlib.import_module("bounded." + modname)
    res = {"evaluations": 0, "nontrivial": 0, "skipped": 0, "violations": [], "samples": [], "by_case": {},
           "rule": getattr(mod, "RULE", "")}
    seen, noted = set(), {}
    cases = list(mod.cases(tier, random.Random(seed)))
    # deterministic interleaving so that every shard gets a mix
    mine = [c for i, c in enumerate(cases) if i % n == shard]
    fd = os.open(out + ".cur", os.O_RDWR | os.O_CREAT)
    for i, c in enumerate(mine):
        if time.time() - t0 > budget:
            res["skipped"] += len(mine) - i
            break
        s = json.dumps(c, default=jdefault, sort_keys=True)
        os.pwrite(fd, s.encode() + b" " * 64, 0)
        os.ftruncate(fd, len(s))
        del NOTES[:]
        st, w, finding = run_case(mod, c)
        for key, msg in NOTES:
            noted[key] = noted.get(key, 0) + 1
            if noted[key] <= 3:
                res["violations"].append({"case": json.loads(s), "what": msg, "finding": key})
        if st == "skip":
            continue
        res["evaluations"] += 1
        res["by_case"][c["name"]] = res["by_case"].get(c["name"], 0) + 1
        if st == "bad":
            res["violations"].append({"case": json.loads(s), "what": w, "finding": finding})
            if finding:
                noted[finding] = noted.get(finding, 0) + 1
                if noted[finding] > 3:
                    res["violations"].pop()
            if sum(not v["finding"] for v in res["violations"]) > 40:
                break
        elif w and s not in seen:
            seen.add(s)
            res["nontrivial"] += 1
            if len(res["samples"]) < 3:
                res["samples"].append(json.loads(s))
    os.ftruncate(fd, 0)
    with open(out, "w") as f:
        json.dump(res, f, default=jdefault)


if __name__ == "__main__":
    from bounded import harness      # the canonical module object, so that Bad is one class
    harness.main()
