"""failure-recovery: an error during a run leaves a simulation that can go on."""
from __future__ import annotations

import copy
import math

from ..core import Violation
from .. import world as W
from ..session import LIB_STYLES, Session, gen_faults
from .common import shrink_with_world
from .rates import restart

LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("distinct event-log digests of runs in which at least one injected failure ended a run "
        "and a later run on the surviving objects completed at least one step")
REAL = ["kmcpy.simulator.kmc.KMC", "kmcpy.simulator.state.State", "kmcpy.simulator.tracker.Tracker",
        "kmcpy.simulator.results", "kmcpy.event.EventLib", "kmcpy.models.*", "numpy/pandas file output"]
STUB = ["user callbacks and error handlers", "seeded rate-table model (in the runs that draw it)",
        "external site-energy evaluator", "file system errors (LD_PRELOAD shim)"]
ASSUMPTIONS = ["interrupts are delivered while user code (callback, model, evaluator) runs, "
               "not between two arbitrary bytecodes of kMCpy",
               "a failed file operation reports an errno to the caller"]
STATE_MEASURE = "distinct (hop, occupation vector after it) pairs"


def gen(r, tier, i):
    kind = r.choice(["table", "table", "barrier", "lce", "composite"])
    w = W.gen_world(r, max_sites=14, model=kind, passes=(1, 4))
    ref = W.RefWorld(w)
    steps = max(1, ref.pass_length * (w["cfg"]["kmc_passes"] + w["cfg"]["equilibration_passes"]))
    ops = []
    for k in range(r.choice([2, 2, 3, 4])):
        if ops and r.random() < 0.2:
            ops.append({"op": "restart", "via": r.choice(["copy", "json"])})
        ops.append({"op": "run", "faults": gen_faults(r, steps) if r.random() < 0.75 else []})
    ops.append({"op": "run", "faults": []})
    return {"world": w, "lib": r.choice(LIB_STYLES), "k": r.randint(1, max(1, len(w["events"]) - 1)),
            "ops": ops}


def run(sc, ctx):
    w = sc["world"]
    s = Session(w, ctx, lib=sc["lib"], lib_k=sc["k"])
    s.open()
    failed = False
    for op in sc["ops"]:
        if op["op"] == "restart":
            restart(s, op["via"])
            ctx.probe("restart-" + op["via"])
            continue
        out = s.watch_run(faults=op.get("faults", ()))
        if s.dead:
            break
        if out.err is not None:
            failed = True
            check_failure(s, out, ctx)
        else:
            _unreported(out)
            if failed and out.rec.rows:
                ctx.nontrivial = True
    ctx.log("end", "".join(map(str, s.kmc.simulation_state.occupations)))


def _unreported(out):
    """A run that returned normally must not have swallowed a failure that the
    user did not ask to tolerate."""
    if out.io_fired:
        raise Violation("write-failure-swallowed", "a file operation failed while results were written but run() returned normally")
    for e in out.injected:
        f = e.dst
        if f["at"] == "callback" and f["policy"] == "true" and isinstance(e, Exception):
            continue
        raise Violation("failure-swallowed", f"{f} failed but run() returned normally")


def check_failure(s, out, ctx):
    """The error is reported and the state sits on a step boundary."""
    from kmcpy.simulator.tracker import CallbackExecutionError
    e = out.err
    last = out.injected[-1] if out.injected else None
    if last is not None and last.dst["at"] == "callback" and isinstance(last, Exception) \
            and not isinstance(e, CallbackExecutionError) and not out.io_fired:
        raise Violation("wrong-error-type", f"callback failure surfaced as {type(e).__name__}")
    if last is not None and isinstance(last, KeyboardInterrupt) and e is not last:
        raise Violation("interrupt-swallowed", f"interrupt surfaced as {type(e).__name__}")
    st = s.kmc.simulation_state
    occ = tuple(int(o) for o in st.occupations)
    rows = out.rec.rows
    ck = out.ck
    cands = []
    if rows:
        cands.append((rows[-1][0], rows[-1][1], rows[-1][2]))
        base = rows[-1][1]
    else:
        for k, o in enumerate(ck.eq_states):
            cands.append((o, out.step0 + k, out.time0))
        base = out.step0 + len(ck.eq_states) - 1
    for o, t in ck.peek():
        cands.append((o, base + 1, t))
    for o, step, t in cands:
        if o == occ and step == int(st.step) and abs(t - st.time) <= 1e-8 * abs(t - out.time0) + 4e-15 * abs(t):
            break
    else:
        raise Violation("torn-state", (
            f"after {type(e).__name__} the state (step {st.step}, time {st.time!r}, "
            f"{s.ref.species(occ)}) is neither the last completed step nor the next one"))
    if out.attachments_after != out.attachments:
        raise Violation("attachments-lost", f"{out.attachments} before the failed run, {out.attachments_after} after")
    ctx.probe("failed-in-equilibration" if not rows else "failed-in-production")
    ctx.log("failure", type(e).__name__, int(st.step))


def shrink(sc):
    if sc["lib"] != "gen":
        n = copy.deepcopy(sc)
        n["lib"] = "gen"
        yield n
    for i, op in enumerate(sc["ops"]):
        fs = op.get("faults") or []
        for j in range(len(fs)):
            n = copy.deepcopy(sc)
            del n["ops"][i]["faults"][j]
            yield n
            if fs[j]["n"] > 1:
                for v in {1, fs[j]["n"] // 2, fs[j]["n"] - 1}:
                    n = copy.deepcopy(sc)
                    n["ops"][i]["faults"][j]["n"] = v
                    yield n
    yield from shrink_with_world(sc, "ops")
