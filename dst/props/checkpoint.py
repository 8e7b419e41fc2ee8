"""checkpoint durability: old or new, never damaged, and the same simulation."""
from __future__ import annotations

import copy
import os
import random
import struct

from ..core import HarnessError, Violation
from .. import disk
from .. import world as W
from .common import Recorder, shrink_with_world

LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 60000}
RULE = ("distinct event-log digests of runs in which at least one injected fault hit a file "
        "operation of a checkpoint save and a checkpoint was loaded afterwards")
REAL = ["kmcpy.simulator.state.State (save_checkpoint, load_checkpoint, from_file, from_dict)",
        "kmcpy.simulator.kmc.KMC", "monty.serialization", "Python file objects, libc calls up to the shim"]
STUB = ["disk below libc: crash, power loss, errors, short and torn writes (LD_PRELOAD shim and dst/disk.py)",
        "h5py (absent here): a minimal stand-in that writes through Python file objects, in the .h5 runs",
        "seeded rate-table model"]
ASSUMPTIONS = ["rename is atomic and metadata operations reach the disk in order (journalling file system)",
               "fsync that returned 0 made the data durable",
               "the .h5 format is exercised through a stand-in for h5py, which is not installed here"]
STATE_MEASURE = "distinct (file operation index hit, fault kind, surviving checkpoint: old/new/none) triples"

NAMES = ["ck.json", "ck.json", "sub/ck.json", "link.json", "other.json", "ck.h5"]
TIMES = [0.0, 3.5, 0.1 + 0.2, 5e-324, 1e-12 / 3, 1e22, 2.0 ** -40 + 2.0 ** -92]
LOADERS = ["load_checkpoint", "load_checkpoint", "from_file", "from_file_order"]


def gen(r, tier, i):
    w = W.gen_world(r, max_sites=12, model="table", bare=0.0, passes=(1, 3))
    if r.random() < 0.25:
        w["big"] = r.randint(1, 3)  # larger files: several pages
    rounds = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        names = r.sample(NAMES, r.choice([1, 1, 2]))
        every = r.randint(1, 4)
        rounds.append({
            "names": names, "every": every, "tolerate": r.random() < 0.5,
            "via": r.choice(LOADERS), "from": r.choice(["file", "file", "fresh"]),
            "fault": disk.gen_fault(r, r.choice([8, 20, 60])) if r.random() < 0.85 else None,
            # a state of the user's own making, saved before the run starts
            "own": [r.choice(TIMES), r.choice([0, 0, 1, 7, 2 ** 53 + 1])] if r.random() < 0.3 else None})
    return {"world": w, "rounds": rounds, "mem": r.random() < 0.3}


def snap(st):
    """The exact value of a state, types included."""
    return (tuple((type(o).__name__ if not hasattr(o, "item") else "int", int(o)) for o in st.occupations),
            struct.pack("<d", float(st.time)).hex(), int(st.step))


def pretty(s):
    return f"step {s[2]}, time {struct.unpack('<d', bytes.fromhex(s[1]))[0]!r}, occupations {[o for _, o in s[0]]}"


def prepare(root):
    os.makedirs(os.path.join(root, "sub"))
    with open(os.path.join(root, "sub", "keep"), "w"):
        pass
    os.symlink("target.json", os.path.join(root, "link.json"))


def load(path, via, order=None):
    from kmcpy.simulator.state import State
    if via == "from_file":
        return State.from_file(path)
    if via == "from_file_order" and order is not None:
        return State.from_file(path, active_site_order=order)
    return State.load_checkpoint(path)


def run(sc, ctx):
    from ..fakeh5 import installed
    with installed():
        _run(sc, ctx)


def _run(sc, ctx):
    w = sc["world"]
    b = W.build(w)
    pad = [0, 1] * (1500 * w.get("big", 0))
    root = os.path.join(ctx.scratch, "ck")
    os.makedirs(root)
    prepare(root)
    allowed = {n: [None] for n in NAMES}   # what a load of each name may give
    last = None
    for k, rd in enumerate(sc["rounds"]):
        start = None
        if rd["from"] == "file":
            for n in rd["names"]:
                if allowed[n][0] is not None:
                    start = n
        before = disk.snapshot(root)
        msgs, code, log = disk.spawn(lambda rep: life(rep, sc, b, rd, root, start, pad), root, rd["fault"])
        died = disk.crashed(rd["fault"], code)
        fault = rd["fault"]
        power = fault is not None and fault["kind"].startswith("power") and died
        if power:
            lost, mode = disk.power_loss(root, before, log, random.Random(fault["salt"]))
            ctx.probe(f"power-loss-{mode}")
        fired = died
        open_save = None
        for m in msgs:
            if m[0] == "begin":
                open_save = (m[1], m[2])
                allowed[m[1]] = allowed[m[1]][:1] + [m[2]]
            elif m[0] == "done":
                allowed[m[1]] = [m[2]]
                open_save = None
            elif m[0] == "failed":
                ctx.probe("save-reported-" + m[2])
                open_save = None
            elif m[0] == "ops" and m[3]:
                fired = True
        if fired:
            ctx.fault(fault["kind"])
            ctx.nontrivial = True
        ctx.log("round", k, [m[:2] for m in msgs if m[0] in ("begin", "done", "failed")], code)
        # everything the survivor can look at
        for n in NAMES:
            got = look(os.path.join(root, n), rd["via"], b.order, pad)
            ok = allowed[n]
            if got not in ok:
                what = "nothing" if got is None else (got if isinstance(got, str) else pretty(got))
                raise Violation("checkpoint-damaged" if isinstance(got, str) else
                                ("checkpoint-lost" if got is None else "wrong-checkpoint"),
                                f"{n} after {fault and fault['kind']} in round {k}: loading gives {what}; "
                                f"acceptable: {[x and pretty(x) for x in ok]}")
            which = "new" if got == ok[-1] else "old"
            if fired and open_save and open_save[0] == n:
                ctx.state(fault["n"], fault["kind"], which if got else "none")
                ctx.probe("in-flight-survived-" + which)
            allowed[n] = [got]
            if got is not None:
                last = n
        for m in msgs:
            if m[0] == "steps":
                ctx.steps += m[1]
                ctx.sim_time += m[2]
    if last is not None and not pad:
        continue_same(w, root, last, sc["rounds"][-1]["via"], allowed[last][0], ctx)


def look(path, via, order, pad):
    """What loading gives: a snapshot, None (no file) or an error text."""
    if not os.path.exists(path):
        return None
    try:
        st = load(path, "load_checkpoint" if pad or path.endswith(".h5") else via, order)
    except Exception as e:
        return f"{type(e).__name__}: {str(e)[:120]}"
    return snap(st)


def life(report, sc, b, rd, root, start, pad):
    """One process: load or start, run, save checkpoints from a callback."""
    from kmcpy.simulator.state import State
    out = os.path.join(os.path.dirname(root), "out")
    os.makedirs(out, exist_ok=True)
    os.chdir(out)  # result files are written outside the checkpoint directory
    base = "../ck/" if rd["every"] % 2 else root + "/"
    st = b.state.copy()
    if start is not None:
        st = load(os.path.join(root, start), "load_checkpoint")
        st.occupations = st.occupations[:len(st.occupations) - len(pad)] if pad else st.occupations
    kmc = b.kmc(state=st)
    count = [0]

    def save(state, step, time):
        count[0] += 1
        if count[0] % rd["every"]:
            return
        store(state)

    def store(state):
        for n in rd["names"]:
            s = State(occupations=list(state.occupations) + pad, time=state.time, step=state.step) \
                if pad else state
            want = snap(s)
            report("begin", n, want)
            try:
                s.save_checkpoint(base + n)
            except (OSError, KeyboardInterrupt) as e:
                report("failed", n, type(e).__name__)
                if not rd["tolerate"]:
                    raise
                continue
            report("done", n, want)

    kmc.attach(save, interval=1, name="save", store=False)
    t0 = st.time
    try:
        if rd.get("own"):
            store(State(occupations=list(st.occupations), time=rd["own"][0], step=rd["own"][1]))
        kmc.run()
    except (Exception, KeyboardInterrupt):
        pass  # a failed save that was not tolerated, or no possible event: C01, C06
    report("steps", count[0], st.time - t0)


def continue_same(w, root, name, via, s, ctx):
    """A simulation continued from the file equals one continued from memory."""
    from kmcpy.simulator.state import State
    occ = [o for _, o in s[0]]
    time = struct.unpack("<d", bytes.fromhex(s[1]))[0]
    outs = []
    for src in ("file", "memory"):
        b = W.build(w)
        st = load(os.path.join(root, name), "load_checkpoint" if name.endswith(".h5") else via, b.order) \
            if src == "file" else State(occupations=occ, time=time, step=s[2])
        kmc = b.kmc(state=st)
        rec = Recorder()
        kmc.attach(rec, interval=1, name="recorder", store=False)
        err = None
        try:
            kmc.run()
        except Exception as e:
            err = type(e).__name__
        outs.append((rec.rows, err, snap(st)))
        ctx.steps += len(rec.rows)
    if outs[0] != outs[1]:
        raise Violation("continuation-differs", f"continuing from {name} and from memory give different "
                        f"trajectories from row {next((i for i, (x, y) in enumerate(zip(outs[0][0], outs[1][0])) if x != y), 'end')}")
    ctx.log("continued", len(outs[0][0]), outs[0][2][1])


def shrink(sc):
    if sc["world"].get("big"):
        n = copy.deepcopy(sc)
        del n["world"]["big"]
        yield n
    for i, rd in enumerate(sc["rounds"]):
        if rd["fault"] is not None:
            n = copy.deepcopy(sc)
            n["rounds"][i]["fault"] = None
            yield n
            for v in sorted({1, rd["fault"]["n"] // 2, rd["fault"]["n"] - 1}):
                if 1 <= v < rd["fault"]["n"]:
                    n = copy.deepcopy(sc)
                    n["rounds"][i]["fault"]["n"] = v
                    yield n
        if rd.get("own"):
            n = copy.deepcopy(sc)
            n["rounds"][i]["own"] = None
            yield n
        if len(rd["names"]) > 1:
            for k in range(len(rd["names"])):
                n = copy.deepcopy(sc)
                del n["rounds"][i]["names"][k]
                yield n
    yield from shrink_with_world(sc, "rounds")
