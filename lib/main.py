"""Child side of run.py: explore all spaces of one check over all cores, write evidence."""
import argparse, importlib, itertools, json, multiprocessing, os, pickle, resource, signal, sys, time, traceback, faulthandler
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, REPO)
from lib import mc

sys.setrecursionlimit(1000)

def load_known(pid):
    """known findings of property pid: {key: text}"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                f = line[7:].split(None, 2)
                if f[0] == f"property={pid}" and f[1].startswith("key="):
                    out[f[1][4:]] = f[2] if len(f) > 2 else ""
    return out

def _alarm(signum, frame):
    raise mc.CaseTimeout()

def execute(space, case, timeout):
    """-> None or (msg, key)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        space.run(case)
        return None
    except mc.Violation as v:
        return (str(v), v.key)
    except mc.CaseTimeout:
        return (f"did not terminate within {timeout} s", "TIMEOUT")
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb[-6:])
        return (f"unexpected {type(e).__name__}: {e} [{where}]", None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def case_limit(space, tier):
    """seconds after which a case counts as hanging (cases of the quick tier take a few seconds at most)"""
    return min(space.timeout, 120) if tier == "quick" else space.timeout

def worker(space, tier, wid, n, outpath, known, cur, stop):
    mem = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    res = {"cases": 0, "viol": [], "known": {}, "error": None, "samples": []}
    try:
        for i, case in enumerate(space.gen(tier)):
            if i % n != wid:
                continue
            if stop.value:
                break
            cur[wid] = i
            t0 = mc.C.traces
            limit = case_limit(space, tier)
            bad = execute(space, case, limit)
            if bad and bad[1] == "TIMEOUT":
                bad = execute(space, case, 1.5 * limit)
            elif bad and (bad[1] is None or bad[1] not in known):
                bad2 = execute(space, case, 2 * limit)   # a violation must reproduce
                if not bad2:
                    res.setdefault("flaky", []).append((i, bad[0]))
                bad = bad2
            res["cases"] += 1
            if mc.C.traces == t0:
                mc.C.traces += 1
            if i < 2 * n and len(res["samples"]) < 2:
                res["samples"].append(case)
            if bad:
                if bad[1] in known:
                    res["known"][bad[1]] = bad[0]
                else:
                    res["viol"].append((case, bad[0]))
                    if len(res["viol"]) >= 2:
                        stop.value = 1
                        break
    except mc.CaseTimeout:
        res["error"] = "stray watchdog"
    except BaseException:
        res["error"] = traceback.format_exc()
    cur[wid] = -2
    res.update(states=mc.C.states, transitions=mc.C.transitions, traces=mc.C.traces)
    try:
        with open(outpath + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.rename(outpath + ".tmp", outpath)
    except BaseException:       # e.g. out of memory in the code under test
        os._exit(3)
    os._exit(0)

def explore(space, tier, jobs, known, deadline):
    ctx = multiprocessing.get_context("fork")
    cur = ctx.Array("q", [-1] * jobs, lock=False)
    stop = ctx.Value("i", 0, lock=False)
    tmp = os.environ["MC_SCRATCH"]
    procs = []
    for w in range(jobs):
        out = os.path.join(tmp, f"{space.name.replace('/', '_')}_{w}.pkl")
        p = ctx.Process(target=worker, args=(space, tier, w, jobs, out, known, cur, stop))
        p.start()
        procs.append((p, out))
    total = {"cases": 0, "viol": [], "known": {}, "states": set(), "transitions": 0, "traces": 0,
             "samples": [], "errors": [], "flaky": []}
    last = {w: (None, time.time()) for w in range(jobs)}
    for w, (p, out) in enumerate(procs):
        while p.is_alive():
            p.join(0.5)
            now = time.time()
            for v in range(jobs):
                if cur[v] != last[v][0]:
                    last[v] = (cur[v], now)
                elif procs[v][0].is_alive() and cur[v] >= 0 and now - last[v][1] > 3 * case_limit(space, tier) + 30:
                    procs[v][0].kill()     # stuck beyond the in-process watchdog
            if now > deadline:
                total["errors"].append("time budget exhausted")
                for q, _ in procs:
                    q.kill()
        if os.path.exists(out):
            with open(out, "rb") as f:
                r = pickle.load(f)
            for k in ("cases", "transitions", "traces"):
                total[k] += r[k]
            total["states"] |= r["states"]
            total["viol"] += r["viol"]
            total["known"].update(r["known"])
            total["samples"] += r["samples"]
            total["flaky"] += r.get("flaky", [])
            if r["error"]:
                total["errors"].append(r["error"])
        elif time.time() <= deadline:
            i = cur[w]
            case = next((c for j, c in enumerate(space.gen(tier)) if j == i), None) if i >= 0 else None
            total["viol"].append((case, f"worker process died or hung (exit code {p.exitcode})"))
    return total

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--space")
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    t0 = time.time()
    known = load_known(pid)
    repdir = os.path.join(HERE, "replays")
    os.makedirs(repdir, exist_ok=True)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        spaces = [s for s in mod.SPACES if tier in s.tiers and (not a.space or s.name == a.space)]
    except BaseException:
        tb = traceback.format_exc()
        path = os.path.join(repdir, f"{pid}-import.json")
        json.dump({"property": pid, "space": None, "case": None, "message": tb}, open(path, "w"))
        print(tb)
        if f"{REPO}/unpythonic" in tb or "unpythonic" in tb.splitlines()[-1]:
            write_evidence(pid, tier, t0, {}, [], 1, [], {"import": "failed"})
            print(f"VIOLATION property={pid} replay={path}")
            sys.exit(1)
        sys.exit(3)
    if a.replay:
        r = json.load(open(a.replay))
        sp = next(s for s in mod.SPACES if s.name == r["space"])
        bad = execute(sp, r["case"], 4 * sp.timeout)
        print("case:", json.dumps(r["case"]))
        print("result:", bad)
        if bad:
            print(f"VIOLATION property={pid} replay={a.replay}")
        sys.exit(1 if bad else 0)
    agg = {"cases": 0, "states": 0, "transitions": 0, "traces": 0}
    per, samples, viols, errors, knownhits, flaky = {}, [], [], [], {}, []
    deadline = t0 + (float(os.environ.get("MC_BUDGET", "0")) or (840 if tier == "quick" else 6 * 3600))
    for sp in spaces:
        ts = time.time()
        r = explore(sp, tier, a.jobs, known, deadline)
        per[sp.name] = {"cases": r["cases"], "traces": r["traces"], "distinct_states": len(r["states"]),
                        "transitions": r["transitions"], "bound": sp.bound, "wall_s": round(time.time() - ts, 2)}
        agg["cases"] += r["cases"]; agg["states"] += len(r["states"])
        agg["transitions"] += r["transitions"]; agg["traces"] += r["traces"]
        samples += [{"space": sp.name, "case": c} for c in r["samples"][:2]]
        viols += [(sp.name, c, m) for c, m in r["viol"]]
        errors += [f"{sp.name}: {e}" for e in r["errors"]]
        flaky += [f"{sp.name} case {i}: {m}" for i, m in r["flaky"]]
        knownhits.update(r["known"])
        if not r["viol"] and not r["errors"] and r["cases"] == 0:
            errors.append(f"{sp.name}: no cases")
        if r["viol"]:
            break
        print(f"{pid} {sp.name}: cases={r['cases']} traces={r['traces']} states={len(r['states'])} "
              f"transitions={r['transitions']} {time.time() - ts:.1f}s", flush=True)
    write_evidence(pid, tier, t0, agg, samples, len(viols), flaky, per, exhaustive=not (errors or viols), errors=errors)
    for k, text in known.items():
        if k in knownhits:
            print(f"KNOWN-FINDING: property={pid} {k} {text}")
    for f in flaky[:5]:
        print("not reproducible (ignored):", f)
    if viols:
        for n, (sname, case, msg) in enumerate(viols[:3]):
            path = os.path.join(repdir, f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "space": sname, "case": case, "message": msg}, f, indent=1, default=repr)
            print(f"{pid} [{sname}] case={json.dumps(case, default=repr)[:1500]}\n  {msg[:3000]}")
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if errors:
        print("\n".join(errors))
        sys.exit(3)
    print(f"{pid} OK tier={tier} {agg} {time.time() - t0:.1f}s")
    sys.exit(0)

def write_evidence(pid, tier, t0, agg, samples, nviol, flaky, per, exhaustive=False, errors=()):
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking",
          "coverage": {"states": agg.get("states", 0), "transitions": agg.get("transitions", 0),
                       "traces_validated_against_impl": agg.get("traces", 0),
                       "samples": samples[:12] or ["none"], "exhaustive": bool(exhaustive),
                       "cases": agg.get("cases", 0), "spaces": per, "errors": list(errors),
                       "not_reproducible": flaky[:20]},
          "assumptions": ["bounds as listed per space; the implementation itself is executed for every trace"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

if __name__ == "__main__":
    main()
