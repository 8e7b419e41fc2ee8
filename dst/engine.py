"""Seeded search: generate, execute in forked workers, minimise, report."""
from __future__ import annotations

import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .core import Ctx, HarnessError, InjectedFault, SkipRun, Violation, canon, rng_for

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
HANG_S = 150


class Hang(BaseException):
    pass


def load_prop(pid: str):
    from .props import REGISTRY
    if pid not in REGISTRY:
        raise SystemExit(f"unknown property {pid}")
    return importlib.import_module("dst.props." + REGISTRY[pid])


# -- executing one scenario ---------------------------------------------------
def _from_sut(exc: BaseException) -> bool:
    """Was this exception raised by the code under test (not by our code)?"""
    frames = traceback.extract_tb(exc.__traceback__)
    if not frames:
        return False
    inside = [f for f in frames if f.filename.startswith(REPO + "/")]
    if not inside:
        return False
    return not frames[-1].filename.startswith(VERIF + "/")


def execute(prop, scenario: dict, scratch: str, keep_log=False) -> dict:
    """Run one scenario; never raises for a property outcome."""
    os.makedirs(scratch, exist_ok=True)
    old = os.getcwd()
    ctx = Ctx(scratch, keep_log)
    res = {"status": "ok", "kind": None, "detail": None}
    try:
        os.chdir(scratch)
        prop.run(scenario, ctx)
    except Violation as v:
        res.update(status="violation", kind=v.kind, detail=v.detail)
    except SkipRun as s:
        res.update(status="skip", detail=str(s))
    except Hang:
        res.update(status="violation", kind="no-progress",
                   detail=f"the run made no progress within {HANG_S}s")
    except (Exception, KeyboardInterrupt) as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if _from_sut(e):
            res.update(status="violation", kind="unexpected-exception",
                       detail=f"{type(e).__name__}: {str(e)[:500]} @ {_where(e)}")
        else:
            res.update(status="harness", kind="harness", detail=text)
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    if res["status"] == "violation":
        ctx.log("VIOLATION", res["kind"], _scrub(res["detail"], scratch))
        res["detail"] = _scrub(res["detail"], scratch)
    res.update(digest=ctx.digest, faults=ctx.faults, probes=ctx.probes,
               states=ctx.states, inter=ctx.interleaving.hexdigest()[:16] if ctx.switches else None,
               switches=ctx.switches, sim_time=ctx.sim_time, steps=ctx.steps,
               nontrivial=ctx.nontrivial)
    if keep_log:
        res["log"] = [_scrub(x, scratch) for x in ctx.lines]
    return res


def _scrub(text, scratch):
    return (text or "").replace(scratch, "<scratch>")


def _where(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + "/")]
    return f"{os.path.relpath(fr[-1].filename, REPO)}:{fr[-1].name}" if fr else "?"


def _arm(seconds):
    def onalarm(signum, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def _disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


def in_child(fn, timeout):
    """Run fn() in a forked child, return its (picklable) result or None."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            out = fn()
            with os.fdopen(wfd, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    data = b""
    deadline = time.monotonic() + timeout
    import select
    with os.fdopen(rfd, "rb") as f:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return None
            ready, _, _ = select.select([f], [], [], min(left, 1.0))
            if ready:
                chunk = os.read(f.fileno(), 1 << 20)
                if not chunk:
                    break
                data += chunk
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run_sequence(prop, scenarios, root, keep_log=False, timeout=HANG_S):
    """Fresh forked process; run the scenarios in order; outcome of the last."""
    def body():
        res = None
        for k, sc in enumerate(scenarios):
            _arm(timeout)
            res = execute(prop, sc, os.path.join(root, f"s{os.getpid()}_{k}"), keep_log)
            _disarm()
        return res
    out = in_child(body, timeout * 2 + 30)
    if out is None:
        return {"status": "violation", "kind": "no-progress",
                "detail": f"the process running the scenario died or made no progress within {timeout}s",
                "digest": "", "log": []}
    return out


# -- minimisation ---------------------------------------------------------------
def minimise(prop, scenarios, kind, root, budget_s=60.0):
    deadline = time.monotonic() + budget_s
    tried = 0

    def fails(seq):
        nonlocal tried
        tried += 1
        r = run_sequence(prop, seq, root, timeout=40)
        return r["status"] == "violation" and r["kind"] == kind

    # drop predecessors (a violation that needs process history)
    if len(scenarios) > 1:
        chunk = len(scenarios) - 1
        while chunk >= 1 and time.monotonic() < deadline:
            i = 0
            while i < len(scenarios) - 1 and time.monotonic() < deadline:
                cand = scenarios[:i] + scenarios[min(i + chunk, len(scenarios) - 1):]
                if len(cand) < len(scenarios) and fails(cand):
                    scenarios = cand
                else:
                    i += chunk
            chunk //= 2
    shrinker = getattr(prop, "shrink", None)
    if shrinker is not None:
        progress = True
        while progress and time.monotonic() < deadline:
            progress = False
            last = scenarios[-1]
            for cand in shrinker(last):
                if time.monotonic() > deadline:
                    break
                if cand is None or canon(cand) == canon(last):
                    continue
                if fails(scenarios[:-1] + [cand]):
                    scenarios = scenarios[:-1] + [cand]
                    progress = True
                    break
    return scenarios, tried


# -- the search ------------------------------------------------------------------
def worker(prop, pid, seed, tier, idxs, root, wfd, stop_file, deadline):
    """Forked worker: executes its share of run indices and streams results."""
    out = os.fdopen(wfd, "wb", buffering=0)

    def send(msg):
        blob = pickle.dumps(msg)
        out.write(len(blob).to_bytes(4, "big") + blob)

    for i in idxs:
        if os.path.exists(stop_file) or time.monotonic() > deadline:
            break
        try:
            sc = prop.gen(rng_for(seed, pid, i), tier, i)
        except Exception:
            send((i, None, {"status": "harness", "kind": "harness",
                            "detail": traceback.format_exc()}))
            break
        _arm(HANG_S)
        res = execute(prop, sc, os.path.join(root, f"r{i}"))
        _disarm()
        send((i, sc if res["status"] in ("violation", "harness") else None, res))
        if res["status"] in ("violation", "harness"):
            break
    out.close()
    os._exit(0)


def search(pid, seed, tier, nruns, nproc, root, wall_cap):
    """Run `nruns` seeded scenarios over `nproc` forked workers."""
    import select
    prop = load_prop(pid)
    stop_file = os.path.join(root, "STOP")
    deadline = time.monotonic() + wall_cap
    pipes = {}
    for w in range(nproc):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            for fd in pipes:
                os.close(fd)
            try:
                worker(prop, pid, seed, tier, range(w, nruns, nproc), root, wr, stop_file, deadline)
            except BaseException:
                traceback.print_exc()
            os._exit(4)
        os.close(wr)
        pipes[r] = {"pid": p, "w": w, "buf": b""}
    results, bad = {}, []
    hard = deadline + 2 * HANG_S
    while pipes:
        if time.monotonic() > hard:
            for v in pipes.values():
                os.kill(v["pid"], signal.SIGKILL)
        ready, _, _ = select.select(list(pipes), [], [], 1.0)
        for fd in ready:
            st = pipes[fd]
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                os.close(fd)
                _, status = os.waitpid(st["pid"], 0)
                if status != 0:
                    idx = [i for i in range(st["w"], nruns, nproc) if i not in results]
                    bad.append((idx[0] if idx else -1, None,
                                {"status": "died", "kind": "process-death",
                                 "detail": f"worker ended with status {status}"}))
                del pipes[fd]
                continue
            st["buf"] += chunk
            while len(st["buf"]) >= 4:
                n = int.from_bytes(st["buf"][:4], "big")
                if len(st["buf"]) < 4 + n:
                    break
                i, sc, res = pickle.loads(st["buf"][4:4 + n])
                st["buf"] = st["buf"][4 + n:]
                results[i] = res
                if res["status"] in ("violation", "harness"):
                    bad.append((i, sc, res))
                    open(stop_file, "w").close()
    return results, sorted(bad, key=lambda t: t[0])


def fresh_replay(path):
    """Replay in a brand-new interpreter; returns (exit code, stdout)."""
    p = subprocess.run([sys.executable, "-m", "dst", "replay", path], cwd=VERIF,
                       capture_output=True, text=True, timeout=600)
    return p.returncode, p.stdout


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="kmcdst-", dir=base)
