#!/usr/bin/env python3
"""Decides one property: symbolic execution of the code in /repo, replay of every counterexample on the real build."""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import build, config, replay  # noqa: E402

COUNTERS = ["paths", "ok", "exception", "crash", "discarded", "requeued", "infeasible", "unknown_paths", "unsupported", "lost", "irrational", "skipped", "pending",
            "queries", "sat", "unsat", "unknown", "unforked", "sum_decisions"]


def execute(prog, params, tmp, idx, seed, deadline, stop):
    out = "%s/run-%d.json" % (tmp, idx)
    p = dict(params)
    left = deadline - time.time()
    if left < 3:
        return None
    p["time"] = int(max(3, min(p.get("time", 200), left)))
    p["tmp"], p["out"], p["seed"] = tmp, out, seed
    cmd = [prog] + ["%s=%s" % kv for kv in p.items()]
    proc = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, cwd=tmp, env=dict(os.environ, LC_ALL="C.UTF-8"))
    end = time.time() + p["time"] + 60
    while True:
        try:
            _, err = proc.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if stop.is_set() or time.time() > end:
                os.killpg(proc.pid, signal.SIGKILL)
                proc.communicate()
                return None if stop.is_set() else {"failed": "engine did not stop"}
    if stop.is_set():
        return None
    try:
        o = json.load(open(out))
        os.unlink(out)
        return o
    except (OSError, ValueError):
        return {"failed": "engine ended with %d: %s" % (proc.returncode, err.decode(errors="replace")[-300:])}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop, tier = a.property, a.tier
    P = config.PROPERTIES[prop]
    deadline = t0 + (P.get("budget", 420) if tier == "quick" else 7000)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(a, P, prop, tier, seed, t0, deadline, tmp)
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)


def decide(a, P, prop, tier, seed, t0, deadline, tmp):
    os.makedirs(V + "/evidence", exist_ok=True)
    for f in os.listdir(V + "/evidence"):
        if f.startswith("replay_%s_" % prop):
            os.unlink(V + "/evidence/" + f)
    runs = [r for r in P["runs"] if tier == "thorough" or not r.get("thorough")]
    H = build.Harnesses(tmp)
    specs = sorted({config.spec(r) for r in runs})
    progs = H.build(specs)
    real = build.Real(tmp)
    tb = time.time() - t0
    tot = {k: 0 for k in COUNTERS}
    solver = 0.0
    asserts, reach, messages, functions, perrun, samples = {}, {}, {}, set(), [], []
    confirmed, unconfirmed, validated, mismatched, failures = [], 0, 0, 0, []
    stop = threading.Event()
    rep = replay.replay_history if P.get("judge") == "history" else replay.replay
    lock = threading.Lock()

    def job(i, r):
        if stop.is_set():
            return i, r, None
        params = dict(jobs=6)
        if r.get("int"):
            params["intmode"] = 1
        params.update(r["params"])
        if r.get("main", "").startswith("py"):
            params["gen"] = int(r["main"] == "pygen")
            params["pydir"] = H.python_dir(r["main"])
        return i, r, execute(progs[config.spec(r)], params, tmp, i, seed, deadline, stop)

    def report(what, calls, fail, inputs):
        path = "%s/evidence/replay_%s_%d.json" % (V, prop, len(confirmed))
        json.dump({"property": prop, "violated": what, "observed_on_real_build": fail, "inputs": inputs, "calls": calls}, open(path, "w"), indent=1)
        confirmed.append({"what": what, "observed": fail, "replay": path})
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  claim: %s\n  real build: %s" % (what, fail))
        sys.stdout.flush()

    with ThreadPoolExecutor(P.get("parallel", 3)) as ex:
        futs = [ex.submit(job, i, r) for i, r in enumerate(runs)]
        for fu in as_completed(futs):
            i, r, o = fu.result()
            fu._result = None
            label = r["h"] + " " + " ".join("%s=%s" % kv for kv in r["params"].items()) + "".join(" " + k for k in ("asan", "ndebug", "int") if r.get(k))
            if o is None or stop.is_set():
                failures.append(label + ": not run (stopped or out of time)")
                continue
            if "failed" in o:
                failures.append(label + ": " + o["failed"])
                continue
            for k in COUNTERS:
                tot[k] += o[k]
            solver += o["solver_s"]
            for k, v in o["asserts"].items():
                x = asserts.setdefault(k, dict(proved=0, violated=0, unknown=0, trivial=0))
                for q in x:
                    x[q] += v[q]
            for k, v in o["reach"].items():
                reach[k] = reach.get(k, 0) + v
            for k, v in o["messages"].items():
                messages[k] = messages.get(k, 0) + v
            functions.update(o["functions"])
            if r.get("witness", "result") and not o["reach"].get(r.get("witness", "result")):
                failures.append(label + ": the assertion was never reached")
            perrun.append({"run": label, "paths": o["paths"], "queries": o["queries"], "wall_s": round(o["wall_s"], 2), "complete": not (o["capped"] or o["unknown_paths"] or o["unsupported"] or o["lost"] or o["unknown"] or o["skipped"] or o["irrational"])})
            if a.verbose:
                print(perrun[-1], {k: v for k, v in o["asserts"].items()})
            # counterexamples, replayed on the real build
            variants = r.get("variants", ["plain"])
            seen = {}
            for v in o["violations"]:
                w = v["what"]
                if seen.get(w) == "done" or seen.get(w, 0) >= 40 or len(confirmed) >= 3 or time.time() > deadline + 60:
                    continue
                if r.get("only") and not any(k in w for k in r["only"]):
                    continue
                fail = rep(real, tmp, v["calls"], variants, (0, 165, 90), P.get("loose"))
                if fail:
                    report(w, v["calls"], fail, v["inputs"])
                    seen[w] = "done"
                    stop.set()
                else:
                    unconfirmed += 1
                    seen[w] = seen.get(w, 0) + 1
                    if a.verbose:
                        print("  unconfirmed:", w, json.dumps(v)[:600])
            # sampled paths, run on the real build
            if r.get("validate", True) and len(confirmed) < 3:
                ss = o["samples"][: r.get("nsamples", 12)]
                for s in ss:
                    if time.time() > deadline + 60:
                        break
                    if not s["calls"]:
                        continue
                    fail = rep(real, tmp, s["calls"], variants[:1], (0,), P.get("loose", 1e-6))
                    validated += 1
                    if fail:
                        mismatched += 1
                        if P.get("sample_alarm", True) and len(confirmed) < 3:
                            report("real build at a sampled point of an explored path", s["calls"], fail, s["inputs"])
                            stop.set()
                        elif a.verbose:
                            print("  sample mismatch:", fail, json.dumps(s)[:600])
                samples.extend({"run": label, "inputs": s["inputs"], "calls": clip(s["calls"])} for s in ss[:2])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["sum_decisions"], "traces_validated_against_impl": validated, "samples": samples[:12],
            "explanation": "states = symbolic paths executed, each covering every input that takes the same decisions; transitions = symbolic branch decisions on them; "
                           "every assertion on every path is decided by z3 for all inputs of the path",
            "bounds": P["bounds"], "functions_encoded": sorted(functions), "queries_discharged": tot["queries"], "solver_s": round(solver, 2), "assertions": asserts,
            "reachability_witnesses": reach, "path_outcomes": tot, "messages": messages, "runs": perrun, "not_decided": failures,
            "unconfirmed_counterexamples": unconfirmed, "sample_mismatches": mismatched, "build_s": round(tb, 2),
        },
        "assumptions": P.get("base", config.ASSUMPTIONS) + P.get("assumptions", []),
        "violations": len(confirmed), "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for l in open(V + "/known-findings.txt"):
        if l.startswith("finding: property=%s " % prop):
            print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    pr = sum(x["proved"] + x["trivial"] for x in asserts.values())
    un = sum(x["unknown"] for x in asserts.values())
    print("%s %s: %d runs, %d paths, %d assertions decided, %d undecided, %d queries (%.1f s solver), %d traces on the real build, %d unconfirmed, %.1f s" % (
        prop, tier, len(perrun), tot["paths"], pr, un, tot["queries"], solver, validated, unconfirmed, time.time() - t0))
    for f in failures:
        print("  not decided:", f)
    return 1 if confirmed else 0


def clip(calls):
    r = []
    for c in calls[:4]:
        r.append({k: (v[:12] + ["..."] if isinstance(v, list) and len(v) > 12 else v) for k, v in c.items()})
    return r


if __name__ == "__main__":
    sys.exit(main())
