"""python -m dst check <property> | replay <file> | show <property> <index>"""
from __future__ import annotations

import json
import os
import shutil
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def bootstrap():
    """Import the code under test from /repo's working tree, compiled afresh."""
    sys.dont_write_bytecode = True
    sys.path[:0] = [REPO]
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import kmcpy
    if not os.path.abspath(kmcpy.__file__).startswith(REPO + "/"):
        raise SystemExit(f"kmcpy was imported from {kmcpy.__file__}, not {REPO}")


def warm(prop, root):
    """Compile the jitted kernels once, before forking.  A defect that breaks
    the warm-up is left for the search to find."""
    from .engine import execute
    from .core import rng_for
    fn = getattr(prop, "warm", None)
    try:
        if fn is not None:
            fn(os.path.join(root, "warm"))
        elif getattr(prop, "NEEDS_JIT", True):
            from .props.common import warm_jit
            warm_jit(os.path.join(root, "warm"))
    except Exception:
        pass


def reexec():
    """One controlled environment for every entry point."""
    want = {"PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"), "OMP_NUM_THREADS": "1",
            "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "NUMBA_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPYCACHEPREFIX": "/nonexistent-pycache", "MPLBACKEND": "Agg",
            "LC_ALL": "C.UTF-8", "TZ": "UTC"}
    from . import shim
    so = shim.ensure()
    want["LD_PRELOAD"] = so
    want["DST_ENV"] = "1"
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = dict(os.environ)
    env.update(want)
    os.execve(sys.executable, [sys.executable, "-m", "dst"] + sys.argv[1:], env)


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        sys.exit(2)
    os.chdir(VERIF)
    reexec()
    from .engine import scratch_root
    bootstrap()
    root = scratch_root()
    code = 2
    try:
        if args[0] == "check":
            code = check(args[1], root)
        elif args[0] == "replay":
            code = replay(args[1], root)
        elif args[0] == "show":
            code = show(args[1], int(args[2]), root)
        elif args[0] == "digests":
            code = digests(args[1], int(args[2]), int(args[3]), root)
        else:
            print(__doc__)
    finally:
        sys.stdout.flush()
        shutil.rmtree(root, ignore_errors=True)
    os._exit(code)


def _known():
    """known_findings.txt: lines `known: property=<id> kind=<kind> match=<substring> | <text>`."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                head, _, text = line[6:].partition("|")
                fields = dict(f.split("=", 1) for f in head.split() if "=" in f)
                fields["text"] = text.strip()
                out.append(fields)
    return out


def check(pid, root):
    from .engine import (fresh_replay, load_prop, minimise, run_sequence, search)
    from .core import rng_for
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = load_prop(pid)
    warm(prop, root)
    nruns = int(os.environ.get("DST_RUNS") or prop.RUNS[tier])
    nproc = int(os.environ.get("DST_PROCS") or min(8, os.cpu_count() or 1))
    cap = float(os.environ.get("DST_WALL") or (420 if tier == "quick" else 3000))
    print(f"property={pid} tier={tier} VERIF_SEED={seed} runs={nruns} procs={nproc}", flush=True)
    t1 = time.time()
    results, bad = search(pid, seed, tier, nruns, nproc, root, cap)
    search_s = time.time() - t1
    code = 0
    violations = 0
    harness = [b for b in bad if b[2]["status"] == "harness"]
    viol = [b for b in bad if b[2]["status"] == "violation"]
    died = [b for b in bad if b[2]["status"] == "died"]
    if died and not viol:
        # a worker that died on a scenario: decide it alone, in its own process
        i = died[0][0]
        sc = prop.gen(rng_for(seed, pid, i), tier, i) if i >= 0 else None
        r = run_sequence(prop, [sc], root) if sc is not None else None
        if r is not None and r["status"] == "violation":
            viol = [(i, sc, r)]
        else:
            print(f"HARNESS-ERROR property={pid} {died[0][2]['detail']}")
            code = 2
    if harness and not viol:
        print(f"HARNESS-ERROR property={pid} run={harness[0][0]}\n{harness[0][2]['detail']}")
        code = 2
    # self check: replay a sample in other processes and compare event logs
    sample = [i for i in sorted(results) if results[i]["status"] == "ok"]
    step = max(1, len(sample) // (12 if tier == "quick" else 60))
    sample = sample[::step]
    mism = 0
    if not viol and code == 0:
        for i in sample:
            sc = json.loads(json.dumps(prop.gen(rng_for(seed, pid, i), tier, i)))
            r = run_sequence(prop, [sc], root)
            if r["digest"] != results[i]["digest"]:
                mism += 1
                print(f"note: run {i} gave another event log in a fresh process ({r['status']} {r.get('detail')})")
    replay_path = None
    kind = detail = None
    if viol:
        i, sc, res = viol[0]
        kind, detail = res["kind"], res["detail"]
        sc = json.loads(json.dumps(sc))
        seq = [sc]
        alone = run_sequence(prop, seq, root)
        if not (alone["status"] == "violation" and alone["kind"] == kind):
            # needs the history of that worker process
            seq = [json.loads(json.dumps(prop.gen(rng_for(seed, pid, j), tier, j)))
                   for j in range(i % nproc, i, nproc)] + [sc]
            seq = seq[-400:]
            alone = run_sequence(prop, seq, root)
        if alone["status"] == "violation":
            kind = alone["kind"]
            budget = float(os.environ.get("DST_SHRINK_S", "60"))
            small, tried = minimise(prop, seq, kind, root, budget)
            final = run_sequence(prop, small, root, keep_log=True)
            if not (final["status"] == "violation" and final["kind"] == kind):
                small = seq
                final = run_sequence(prop, small, root, keep_log=True)
            detail = final.get("detail", detail)
        else:
            small, tried, final = seq, 0, {"digest": res["digest"], "log": [], "detail": detail}
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", f"{pid}-{seed}-{i}.json")
        with open(replay_path, "w") as f:
            json.dump({"property": pid, "seed": seed, "run": i, "tier": tier, "kind": kind,
                       "detail": detail, "digest": final.get("digest"),
                       "minimiser_executions": tried,
                       "scenarios": small, "log": final.get("log", [])[-400:]}, f, indent=1)
        code = 1
        violations = 1
    for k in _known():
        if k.get("property") == pid:
            print(f"KNOWN-FINDING: property={pid} {k['text']}")
    write_evidence(pid, prop, tier, seed, results, search_s, time.time() - t0,
                   violations, mism, len(sample), nruns, nproc)
    n_ok = sum(1 for r in results.values() if r["status"] == "ok")
    n_skip = sum(1 for r in results.values() if r["status"] == "skip")
    print(f"executed={len(results)} ok={n_ok} skipped={n_skip} replayed={len(sample)} "
          f"digest_mismatches={mism} search_s={search_s:.1f} wall_s={time.time() - t0:.1f}")
    if viol:
        print(f"violation kind={kind}: {detail}")
        print(f"VIOLATION property={pid} replay={replay_path}")
    return code


def write_evidence(pid, prop, tier, seed, results, search_s, wall, violations,
                   mism, replayed, nruns, nproc):
    from .core import rng_for
    faults, probes, states, inters = {}, {}, set(), set()
    digests = set()
    simt, steps, sw = 0.0, 0, 0
    for r in results.values():
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        states |= r.get("states", set())
        if r.get("inter"):
            inters.add(r["inter"])
        if r.get("nontrivial"):
            digests.add(r["digest"])
        if r.get("sim_time", 0) < float("inf"):
            simt += r.get("sim_time", 0.0)
        steps += r.get("steps", 0)
        sw += r.get("switches", 0)
    n = len(results)
    sample_ids = sorted(results)[:2]
    samples = []
    for i in sample_ids:
        sc = prop.gen(rng_for(seed, pid, i), tier, i)
        samples.append({"run": i, "scenario": sc, "event_log_digest": results[i].get("digest")})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(digests),
            "rule": prop.RULE,
            "samples": samples,
            "exhaustive": False,
            "runs_requested": nruns, "worker_processes": nproc,
            "runs_per_hour": round(n / max(search_s, 1e-6) * 3600),
            "seeds_per_hour": round(n / max(search_s, 1e-6) * 3600),
            "seed_note": "run i uses the PRNG seeded with (VERIF_SEED, property, i); one run is one seed",
            "simulated_seconds": simt, "simulated_steps": steps,
            "faults_fired": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "distinct_interleavings": len(inters),
            "scheduler_decisions": sw,
            "distinct_states": len(states),
            "state_measure": getattr(prop, "STATE_MEASURE", "distinct (occupation vector, executed event) pairs"),
            "skipped_undecidable": sum(1 for r in results.values() if r["status"] == "skip"),
            "replayed_in_another_process": replayed, "replay_digest_mismatches": mism,
            "real_components": prop.REAL, "stub_components": prop.STUB,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 3), "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))


def replay(path, root):
    from .engine import load_prop, run_sequence
    data = json.load(open(path))
    prop = load_prop(data["property"])
    warm(prop, root)
    r = run_sequence(prop, data["scenarios"], root, keep_log=True)
    for line in r.get("log", [])[-60:]:
        print("  ", line)
    if r["status"] == "violation":
        same = r["kind"] == data["kind"] and r["digest"] == data["digest"]
        print(f"violation kind={r['kind']}: {r['detail']}")
        print("replay is exact" if same else "replay differs from the recorded event log")
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    print(f"status={r['status']} {r.get('detail') or ''}")
    return 0 if r["status"] in ("ok", "skip") else 2


def show(pid, i, root):
    from .engine import load_prop, run_sequence
    from .core import rng_for
    prop = load_prop(pid)
    warm(prop, root)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sc = prop.gen(rng_for(seed, pid, i), tier, i)
    print(json.dumps(sc))
    r = run_sequence(prop, [sc], root, keep_log=True)
    for line in r.get("log", []):
        print("  ", line)
    print({k: v for k, v in r.items() if k not in ("log", "states")})
    return 0


def digests(pid, seed, n, root):
    """Print one event-log digest per run (determinism proof)."""
    from .engine import load_prop, search
    prop = load_prop(pid)
    warm(prop, root)
    nproc = int(os.environ.get("DST_PROCS") or 8)
    results, bad = search(pid, seed, "quick", n, nproc, root, 3000)
    for i in sorted(results):
        print("DIGEST", pid, seed, i, results[i].get("status"), results[i].get("digest"))
    return 0
