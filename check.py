#!/usr/bin/env python3-vt
"""Decide one property: verify every contract of the property on the present source of the
repository, and cross-check the same contracts at run time on the real code.

usage: python3-vt /verif/check.py C01 [quick|thorough]
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("PYVC_REPO", "/repo")
EVID = os.environ.get("PYVC_EVIDENCE", os.path.join(HERE, "evidence"))
PYTHON = "/opt/venv/bin/python"

TRUSTED = [
    "pyvc: extraction of the functions, symbolic execution and loop summaries (cross-checked at run "
    "time by the concrete harness of each property and by seeded changes)",
    "z3 (z3-solver) and cvc5",
    "Python integers are mathematical integers; floats are mathematical reals with an explicit "
    "not-a-number flag (no rounding, no overflow, no infinities)",
    "models of the standard library and numpy functions (pyvc/models.py, pyvc/npmodel.py)",
]


def worker(conn, prop, idx, timeout_ms, budget):
    try:
        sys.setrecursionlimit(20000)
        from pyvc import spec
        r = spec.run_contract(spec.REGISTRY[prop][idx], timeout_ms=timeout_ms, budget_s=budget)
        r = json.loads(json.dumps(r, default=str))
    except BaseException as e:      # noqa
        r = {"crash": f"{type(e).__name__}: {e}"}
    conn.send(r)
    conn.close()


def verify(prop, timeout_ms, budget, nproc):
    from pyvc import spec
    todo = list(range(len(spec.REGISTRY[prop])))
    running, results = {}, {}
    ctx = mp.get_context("fork")
    end = time.time() + 560
    while todo or running:
        while todo and len(running) < nproc:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            c = spec.REGISTRY[prop][i]
            bud = max(5, min(c.opts.get("budget", budget), end - time.time()))
            p = ctx.Process(target=worker, args=(b, prop, i, c.opts.get("timeout_ms", timeout_ms), bud))
            p.start()
            b.close()
            running[i] = (p, a, time.time() + bud + 40)
        for i, (p, a, dl) in list(running.items()):
            if a.poll(0.02):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {"crash": "the verifier process died"}
                p.join(5)
                del running[i]
            elif time.time() > dl or not p.is_alive() and not a.poll(0.2):
                p.kill()
                p.join()
                results[i] = {"crash": "time limit of the contract exceeded" if time.time() > dl
                              else "the verifier process died"}
                del running[i]
        time.sleep(0.01)
    out = []
    for i, c in enumerate(spec.REGISTRY[prop]):
        r = results[i]
        if "crash" in r:
            r = dict(contract=c.name, doc=c.doc, obligations=[dict(name=f"{c.name}: verified", status="undecided",
                     backend="-", t=0)], failures=[dict(name=f"{c.name}: verified", kind="undecided", model=None,
                     detail=r["crash"], goal="")], covers=[], functions={}, assumed=[], dropped=[], solver_s=0,
                     queries=0, backends={}, wall_s=0, paths=0, bounded=None)
        if not r["obligations"]:
            r["failures"].append(dict(name=f"{c.name}: at least one obligation", kind="undecided", model=None,
                                      detail="no obligation was generated (every path cut)", goal=""))
        for n, ok in r["covers"]:
            if not ok:
                r["failures"].append(dict(name=n, kind="undecided", model=None,
                                          detail="unreachable: the contract is vacuous here", goal=""))
        out.append(r)
    return out


def start_concrete(prop, seed, tier, strong, budget):
    out = os.path.join(EVID, f".{prop}.concrete.{'s' if strong else 'n'}.json")
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="agg",
               TRANSONIC_NO_REPLACE="1", PYVC_REPO=REPO, PATH="/opt/venv/bin:" + os.environ["PATH"])
    cmd = [PYTHON, os.path.join(HERE, "replay", "run.py"), prop, "--seed", str(seed), "--tier", tier,
           "--budget", str(budget), "--out", out] + (["--strong"] if strong else [])
    log = open(out + ".log", "w")
    return subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd="/", start_new_session=True), out, cmd


def end_concrete(h, timeout):
    p, out, cmd = h
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()
    if os.path.exists(out):
        with open(out) as f:
            r = json.load(f)
    else:
        log = open(out + ".log").read()[-3000:]
        r = {"cases": 0, "evaluations": 0, "failures": [], "error": f"harness ended without result (exit {p.returncode}): {log}"}
    for x in (out, out + ".log"):
        if os.path.exists(x):
            os.unlink(x)
    r["cmd"] = " ".join(cmd[:-2] if cmd[-1] != "--strong" else cmd)
    return r


def known(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: ") and f"property={prop} " in line:
                rest = line.split(f"property={prop} ", 1)[1]
                key, _, what = rest.partition(" | ")
                out.append((key.strip(), what.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    thorough = tier == "thorough"
    harness = os.path.exists(os.path.join(HERE, "replay", prop.lower() + ".py"))
    hb = 240 if thorough else 25
    h = start_concrete(prop, seed, tier, False, hb) if harness else None
    try:
        importlib.import_module("contracts." + prop.lower())
        results = verify(prop, 20000 if thorough else 8000, 400, 8 if thorough else 7)
    except Exception as e:
        import traceback
        results = [dict(contract="all", doc="", obligations=[], failures=[dict(
            name="contracts of the property", kind="undecided", model=None,
            detail=f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:], goal="")], covers=[],
            functions={}, assumed=[], dropped=[], solver_s=0, queries=0, backends={}, wall_s=0, paths=0, bounded=None)]
    conc = end_concrete(h, hb + 60) if h else dict(cases=0, evaluations=0, failures=[])

    failures = [f for r in results for f in r["failures"]]
    if failures and h and not conc["failures"]:
        # search harder for a failing input
        conc2 = end_concrete(start_concrete(prop, seed + 1, tier, True, 240 if thorough else 90), 330)
        conc["strong"] = {k: conc2.get(k) for k in ("cases", "evaluations", "error")}
        conc["failures"] = conc2["failures"]
    kn = known(prop)
    known_hit = []

    def is_known(key):
        for k, what in kn:
            if k == key:
                if (k, what) not in known_hit:
                    known_hit.append((k, what))
                return True
        return False
    failures = [f for f in failures if not is_known("obligation=" + f["name"])]
    cfail = [f for f in conc["failures"] if not is_known("input=" + f.get("key", f["check"]))]
    if conc.get("error"):
        failures.append(dict(name="run-time cross-check", kind="undecided", model=None,
                             detail="the concrete harness failed: " + conc["error"], goal=""))

    obls = [o for r in results for o in r["obligations"] if not r["bounded"]]
    bounded = [r["contract"] for r in results if r["bounded"]]
    discharged = [o for o in obls if o["status"] == "valid"]
    violations = []
    replay = os.path.join(EVID, f"replay_{prop}.json")
    if os.path.exists(replay):
        os.unlink(replay)
    if failures or cfail:
        with open(replay, "w") as f:
            json.dump(dict(property=prop, repo=REPO, failed_obligations=failures, failing_inputs=cfail,
                           replay_command=conc.get("cmd"), search=conc.get("strong")), f, indent=1, default=str)
        violations.append(dict(replay=replay, failing_input=bool(cfail),
                               obligations=[f["name"] for f in failures][:20],
                               inputs=[f["check"] for f in cfail][:20]))
    backends, funcs, assumed, dropped = {}, {}, [], []
    for r in results:
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
        funcs.update(r["functions"])
        assumed += [a for a in r["assumed"] if a not in assumed]
        dropped += [a for a in r["dropped"] if a not in dropped]
    nfun = len(funcs)
    sample = sorted((o for o in obls), key=lambda o: -o["t"])[:3]
    cov = dict(
        obligations=max(len(obls), 0), discharged=len(discharged),
        checker_cmd=f"python3-vt /verif/check.py {prop} {tier}",
        trusted_base=TRUSTED,
        contracts=[dict(name=r["contract"], states=r["doc"], paths=r["paths"], obligations=len(r["obligations"]),
                        failures=len(r["failures"]), wall_s=r["wall_s"], bounded=r["bounded"]) for r in results],
        functions_under_contract=funcs, backends=backends,
        solver_s=round(sum(r["solver_s"] for r in results), 2), queries=sum(r["queries"] for r in results),
        slowest=sample, covers=sum(len(r["covers"]) for r in results),
        covers_reached=sum(1 for r in results for _, ok in r["covers"] if ok),
        bounded_contracts=bounded,
        runtime_crosscheck=dict(cases=conc.get("cases"), evaluations=conc.get("evaluations"),
                                failures=len(conc["failures"]), what=conc.get("what")),
        extraction_drops=dropped)
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="proof",
              coverage=cov, assumptions=assumed + ["dropped by the extraction: " + d for d in dropped],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if violations:
        ev["coverage"]["violation_details"] = violations
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, what in known_hit:
        print(f"KNOWN-FINDING: property={prop} {what or k}")
    print(f"{prop}: {len(discharged)}/{len(obls)} obligations discharged, {len(results)} contracts, {nfun} functions, "
          f"run-time cross-check {conc.get('evaluations')} evaluations, {time.time() - t0:.1f} s")
    if failures or cfail:
        for f in failures[:10]:
            print(f"  failed obligation: {f['name']} [{f['kind']}] {str(f['detail'])[:300]}")
        for f in cfail[:5]:
            print(f"  failing input: {f['check']}: {str(f['input'])[:300]} -> {str(f['message'])[:300]}")
        print(f"VIOLATION property={prop} replay={replay}" + ("" if cfail else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:      # a crash of the machinery leaves the property undecided
        import traceback
        traceback.print_exc()
        prop = sys.argv[1] if len(sys.argv) > 1 else "?"
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, f"replay_{prop}.json")
        with open(replay, "w") as f:
            json.dump(dict(property=prop, error=traceback.format_exc()), f)
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        sys.exit(1)
