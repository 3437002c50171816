#!/opt/venv/bin/python
"""Decide one property: python check.py <ID> [--tier quick|thorough].

Two processes run side by side on /repo's current working tree:
  proof    the contracts of specs/<id>.py, every obligation discharged by z3/cvc5
  bounded  the same contracts, executable, on the real code (bounded/<id>.py):
           the replay layer that looks for a concrete failing input, and the
           labelled bounded stand-in for what the prover cannot reach
"""
import argparse
import json
import os
import pickle
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

LIMITS = {"quick": (400, 420), "thorough": (3000, 3000)}


def child_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYVC_REPO=REPO, PYTHONHASHSEED="0",
               OMP_NUM_THREADS="2", MKL_NUM_THREADS="2", CUDA_VISIBLE_DEVICES="",
               PYTHONPATH="")
    env.pop("PYTHONPATH")
    return env


def launch(kind, pid, tier, seed, out, scratch):
    cmd = [sys.executable, os.path.abspath(__file__), "--child", kind, "--out", out,
           "--tier", tier, "--seed", str(seed), "--scratch", scratch, pid]
    log = open(out + ".log", "w")
    return subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=child_env(),
                            cwd=scratch, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


# --------------------------------------------------------------------------
# children
# --------------------------------------------------------------------------

def child_proof(pid, tier, seed, out):
    sys.path.append(VT)
    sys.path.insert(0, HERE)
    import importlib
    from pyvc.engine import Session
    spec = importlib.import_module(f"specs.{pid.lower()}")
    S = Session(crosscheck=(tier == "thorough"),
                timeout_ms=20000 if tier == "quick" else 60000,
                func_budget_s=150 if tier == "quick" else 900)
    S.tier = tier
    problem = None
    try:
        spec.prove(S)
    except Exception as e:
        problem = f"{type(e).__name__}: {e}\n" + traceback.format_exc(limit=-8)
    res = {
        "functions": S.functions,
        "obligations": len(S.obligations),
        "discharged": sum(o.status == "proved" for o in S.obligations),
        "backends": {},
        "failed": [{"function": o.func, "obligation": o.label, "status": o.status,
                    "backend": o.backend, "model": o.model, "path": o.path}
                   for o in S.failed],
        "problems": [list(p) for p in S.problems],
        "crashed": problem,
        "assumed": S.assumed,
        "solver_s": round(S.solver_time, 2), "branch_s": round(S.branch_time, 2),
        "branch_queries": S.branch_queries, "crosschecked": S.crosschecked,
        "trusted": list(getattr(spec, "TRUSTED", [])),
    }
    for o in S.obligations:
        res["backends"][o.backend] = res["backends"].get(o.backend, 0) + 1
    json.dump(res, open(out, "w"))


def child_bounded(pid, tier, seed, out, scratch):
    sys.path.append(VT)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import importlib
    from bounded import harness
    H = harness.Harness(pid, tier, seed, scratch, REPO)
    err = None
    try:
        mod = importlib.import_module(f"bounded.{pid.lower()}")
        mod.run(H)
    except harness.Stop:
        pass
    except Exception as e:
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()
    json.dump({"violations": H.violations, "cases": H.counts, "bounds": H.bounds, "error": err,
               "skipped": H.skipped}, open(out, "w"), default=repr)


# --------------------------------------------------------------------------
# parent
# --------------------------------------------------------------------------

def read(out):
    try:
        return json.load(open(out))
    except Exception:
        return None


def tail(path, n=4000):
    try:
        return open(path).read()[-n:]
    except OSError:
        return ""


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"]
            if f["property"] == pid and f.get("status") == "open"]


def write_replay(pid, tag, body):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{tag}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=repr)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--child")
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    a = ap.parse_args()
    tier = a.tier if a.tier in LIMITS else "quick"
    if a.child == "proof":
        return child_proof(a.pid, tier, a.seed, a.out)
    if a.child == "bounded":
        return child_bounded(a.pid, tier, a.seed, a.out, a.scratch)

    t0 = time.time()
    pid = a.pid
    scratch = tempfile.mkdtemp(prefix=f"pyvc-{pid}-")
    try:
        return decide(pid, tier, a.seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, tier, seed, scratch, t0):
    lim_p, lim_b = LIMITS[tier]
    outs = {k: os.path.join(scratch, k + ".json") for k in ("proof", "bounded")}
    dirs = {}
    for k in outs:
        dirs[k] = os.path.join(scratch, k)
        os.makedirs(dirs[k])
    has_proof = os.path.exists(os.path.join(HERE, "specs", pid.lower() + ".py"))
    has_bounded = os.path.exists(os.path.join(HERE, "bounded", pid.lower() + ".py"))
    procs = {}
    if has_proof:
        procs["proof"] = (launch("proof", pid, tier, seed, outs["proof"], dirs["proof"]), lim_p)
    if has_bounded:
        procs["bounded"] = (launch("bounded", pid, tier, seed, outs["bounded"], dirs["bounded"]), lim_b)
    status = {}
    while procs:
        for k, (p, lim) in list(procs.items()):
            rc = p.poll()
            if rc is not None:
                status[k] = rc
                stop(p)
                procs.pop(k)
            elif time.time() - t0 > lim:
                stop(p)
                status[k] = "timeout"
                procs.pop(k)
        if "bounded" not in procs and "proof" in procs and not status.get("_cut"):
            b = read(outs["bounded"]) if has_bounded else None
            if b and any(v.get("key") not in {f["key"] for f in known_findings(pid)} for v in b["violations"]):
                # a failing input settles it; the proof gets a little longer for the report
                status["_cut"] = True
                procs["proof"] = (procs["proof"][0], time.time() - t0 + 15)
        time.sleep(0.1)
    proof = read(outs["proof"]) if has_proof else None
    bounded = read(outs["bounded"]) if has_bounded else None

    violations = []      # (message, replay path, concrete?)
    notes = []
    known = known_findings(pid)
    known_hit = set()
    for i, v in enumerate((bounded or {}).get("violations", [])):
        hit = next((f for f in known if f["key"] == v.get("key")), None)
        if hit:
            known_hit.add(hit["key"])
            continue
        path = write_replay(pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", str(v.get("key", i)))[:60], {
            "property": pid, "kind": "concrete failing input on the real code", **v,
            "replay_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier {tier} --seed {seed}"})
        violations.append((v["what"], path, True))

    failed = (proof or {}).get("failed", [])
    undecided = []
    if has_proof:
        if proof is None:
            undecided.append(f"the prover gave no result ({status.get('proof')}): "
                             + tail(outs["proof"] + ".log"))
        else:
            if proof["crashed"]:
                undecided.append("a contract could not be set up on this tree: " + proof["crashed"])
            undecided += [f"{f}: {e}" for f, e in proof["problems"]]
    if has_bounded:
        if bounded is None:
            undecided.append(f"the bounded layer gave no result ({status.get('bounded')}): "
                             + tail(outs["bounded"] + ".log"))
        elif bounded["error"]:
            undecided.append("the bounded harness does not fit this tree: " + bounded["error"])
    if failed and not any(c for _, _, c in violations):
        names = sorted({f"{f['function']} / {f['obligation']} [{f['status']}]" for f in failed})
        path = write_replay(pid, "obligation", {
            "property": pid, "kind": "failed proof obligation; no failing input found",
            "obligations": names, "verifier_output": failed[:20],
            "replay_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier {tier} --seed {seed}"})
        violations.append(("obligation(s) not discharged: " + "; ".join(names[:4]), path, False))
    elif undecided and not violations and (bounded is None or bounded["error"]
                                           or not sum(bounded["cases"].values())):
        # neither the proof nor its bounded stand-in decided the property
        path = write_replay(pid, "undecided", {
            "property": pid, "kind": "the contracts could not be established on this tree",
            "verifier_output": undecided})
        violations.append(("contracts not established: " + undecided[0].splitlines()[0][:200], path, False))

    for f in known:
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    level, cov, assumptions = evidence(pid, proof, bounded, undecided)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
        "violations": [{"what": w, "replay": p, "concrete": c} for w, p, c in violations],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for w, p, c in violations:
        print(f"  {w}"[:600])
    for u in undecided:
        print("UNDECIDED (bounded stand-in only): " + u.strip()[:1500])
    if violations:
        concrete = [v for v in violations if v[2]]
        if concrete:
            for _, p, _ in concrete[:5]:
                print(f"VIOLATION property={pid} replay={p}")
        else:
            for _, p, _ in violations[:5]:
                print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
        return 1
    n = (proof or {}).get("obligations", 0)
    d = (proof or {}).get("discharged", 0)
    print(f"OK property={pid} obligations={n} discharged={d} "
          f"bounded_cases={sum((bounded or {}).get('cases', {}).values())} "
          f"wall={time.time() - t0:.1f}s")
    return 0


def evidence(pid, proof, bounded, undecided):
    proof = proof or {}
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(
        os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "proof")
    cov = {
        "obligations": proof.get("obligations", 0),
        "discharged": proof.get("discharged", 0),
        "checker_cmd": f"/opt/venv/bin/python /verif/check.py {pid}",
        "trusted_base": ["CPython 3.12 (the instrumented source is executed by it)",
                         "pyvc: AST instrumentation, symbolic values, path enumeration (/verif/pyvc)",
                         "z3 5.3.2; cvc5 1.1.2 as second opinion"] + proof.get("trusted", []),
        "functions_under_contract": proof.get("functions", {}),
        "backends": proof.get("backends", {}),
        "solver_s": proof.get("solver_s", 0), "branch_s": proof.get("branch_s", 0),
        "crosschecked_with_cvc5": proof.get("crosschecked", 0),
        "bounded_standins": (bounded or {}).get("cases", {}),
        "bounds": (bounded or {}).get("bounds", {}),
        "bounded_skipped": (bounded or {}).get("skipped", []),
        "not_established_this_run": undecided,
    }
    assumptions = list(proof.get("assumed", []))
    return level, cov, assumptions


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(rc or 0)
