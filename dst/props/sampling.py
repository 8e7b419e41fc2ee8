"""C05: properties and callbacks are sampled when due, and only then.

An online reference scheduler follows every callback invocation.  Callbacks,
error handlers and re-entrant plan changes are driven by the scenario.
"""
from __future__ import annotations

import copy
import math

from ..core import HarnessError, InjectedFault, SkipRun, Violation
from .. import world as W
from ..session import make_exc
from .common import shrink_with_world

LEVEL = "exploration"
RUNS = {"quick": 9000, "thorough": 250000}
RULE = ("distinct event-log digests of runs with at least 6 callback invocations of at least two "
        "callbacks, or with a plan change made from inside a callback")
REAL = ["kmcpy.simulator.property", "kmcpy.simulator.tracker.Tracker", "kmcpy.simulator.kmc.KMC",
        "kmcpy.simulator.config.Configuration (property settings)", "kmcpy.simulator.state.State"]
STUB = ["rate model (seeded table)", "user callbacks and error handlers"]
ASSUMPTIONS = ["a time trigger within 1e-12 relative of its threshold is not judged",
               "both global triggers are not cleared while a run is going on"]
STATE_MEASURE = "distinct (attachment settings, due reason, step modulo interval, outcome) tuples"
BUILTIN = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio",
           "correlation_factor")
NAMES = ["a", "b", "c", "d", "time_probe"]
TICK = "tick"

_CURRENT = None


def cfg_cb_one(state, step, time):
    return _CURRENT.config_call("cfg_one", state, step, time)


def cfg_cb_two(state, step, time):
    return _CURRENT.config_call("cfg_two", state, step, time)


# -- generation -------------------------------------------------------------------
def _interval(r):
    return r.choice([None, None, 1, 1, 2, 3, 4, 7, 50])


def _tint(r, tau):
    return r.choice([None, None, None, tau * 10 ** r.uniform(-1.5, 1.3)])


def gen_op(r, tau, inside, depth=0):
    k = r.choice(["attach"] * 5 + ["detach"] * 3 + ["enable"] * 4 + ["freq"] * 2 + ["clear", "bad"])
    if k == "attach":
        op = {"op": "attach", "name": r.choice(NAMES), "interval": _interval(r),
              "ti": _tint(r, tau), "store": r.random() < 0.85,
              "max": r.choice([None, None, None, 1, 2, 3, 5]), "enabled": r.random() < 0.85,
              "policy": r.choice(["none", "true", "true", "false", "raise", "truthy", "falsy"]),
              "ref": r.choice(["kw", "fname"]), "acts": {}, "fail": {}}
        if r.random() < 0.35:
            for _ in range(r.randint(1, 3)):
                op["fail"][str(r.randint(1, 10))] = r.choice(
                    ["error", "error", "error", "os", "memory", "interrupt"])
        if depth < 2 and r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                op["acts"][str(r.randint(1, 8))] = [
                    gen_op(r, tau, True, depth + 1) for _ in range(r.randint(1, 2))]
        return op
    if k == "detach":
        return {"op": "detach", "name": r.choice(NAMES + ["cfg_one"])}
    if k == "enable":
        return {"op": "enable", "name": r.choice(NAMES * 2 + list(BUILTIN) + ["cfg_two", "nobody"]),
                "on": r.random() < 0.5}
    if k == "freq":
        iv, ti = r.choice([1, 2, 3, 5, 9, None]), _tint(r, tau)
        if inside and iv is None and ti is None:
            iv = 2
        return {"op": "freq", "interval": iv, "ti": ti}
    if k == "clear":
        return {"op": "clear"} if r.random() < 0.5 else {"op": "detach", "name": r.choice(NAMES)}
    return r.choice([
        {"op": "bad", "what": "interval", "value": r.choice([0, -2, 1.5])},
        {"op": "bad", "what": "ti", "value": r.choice([0.0, -1e-9])},
        {"op": "bad", "what": "max", "value": r.choice([0, -1])},
        {"op": "bad", "what": "reserved", "value": r.choice(BUILTIN)},
        {"op": "bad", "what": "freq", "value": r.choice([0, -3])},
    ])


def gen(r, tier, i):
    w = W.gen_world(r, max_sites=10, model="table", hetero=0.1, passes=(1, 5), rare_zero=False)
    w["model"]["spread"] = min(w["model"]["spread"], 6.0)
    tau = 1.0 / W.RefWorld(w).total_rate(w["occ"])
    cfg = {}
    if r.random() < 0.3:
        if r.random() < 0.7:
            cfg["property_sampling_interval"] = r.choice([1, 2, 3, 6])
        if r.random() < 0.4:
            cfg["property_sampling_time_interval"] = tau * 10 ** r.uniform(-1, 1)
        if r.random() < 0.5:
            cfg["builtin_property_enabled"] = {n: r.random() < 0.5 for n in r.sample(BUILTIN, 2)}
        if r.random() < 0.6:
            cfg["property_callbacks"] = [
                {"callable": "dst.props.sampling:cfg_cb_" + n, "name": "cfg_" + n,
                 "interval": _interval(r), "time_interval": _tint(r, tau),
                 "store": r.random() < 0.8, "max_records": r.choice([None, 1, 3]),
                 "enabled": r.random() < 0.8}
                for n in r.sample(["one", "two"], r.randint(1, 2))]
    ops = []
    for _ in range(r.choice([1, 2, 2, 3])):
        for _ in range(r.randint(0, 5)):
            ops.append(gen_op(r, tau, False))
        ops.append({"op": "run"})
    if r.random() < 0.5:
        ops.append(gen_op(r, tau, False))
    return {"world": w, "config": cfg, "ops": ops, "t0": r.choice([0.0, 0.0, tau * 3, 1.0])}


# -- reference scheduler ------------------------------------------------------------
class Att:
    def __init__(self, op, name, fn=None):
        self.op, self.name, self.fn = op, name, fn
        self.enabled = bool(op["enabled"])
        self.last = None
        self.calls = 0
        self.records = []


class Harness:
    def __init__(self, sc, ctx):
        self.sc, self.ctx = sc, ctx
        w = sc["world"]
        self.b = W.build(w)
        over = copy.deepcopy(sc["config"])
        self.b.config = W.make_config(w, **over)
        self.b.state.time = float(sc["t0"])
        self.gi = sc["config"].get("property_sampling_interval")
        self.gt = sc["config"].get("property_sampling_time_interval")
        self.on = {n: True for n in BUILTIN}
        self.on.update(sc["config"].get("builtin_property_enabled", {}))
        self.atts = {}
        for c in sc["config"].get("property_callbacks", []):
            self.atts[c["name"]] = Att(
                {"interval": c["interval"], "ti": c["time_interval"], "store": c["store"],
                 "max": c["max_records"], "enabled": c["enabled"], "policy": "none",
                 "acts": {}, "fail": {}}, c["name"])
        self.found = None
        self.run_no = 0
        self.in_run = False
        self.finished = []      # (tracker, rows, records)
        self.inside_changes = 0
        self.total_calls = 0
        self.callers = set()
        global _CURRENT
        _CURRENT = self
        self.kmc = self.b.kmc()
        self.tick_no = 0
        self.attach_tick()

    def fail(self, kind, text):
        if self.found is None:
            self.found = Violation(kind, text)
        raise self.found

    # -- plan operations, applied to both sides ---------------------------------
    def attach_tick(self):
        op = {"op": "attach", "name": TICK, "interval": 1, "ti": None, "store": False, "max": None,
              "enabled": True, "policy": "none", "ref": "kw", "acts": {}, "fail": {}}
        self.apply(op)

    def apply(self, op):
        k, kmc = op["op"], self.kmc
        self.ctx.log("op", k, str(op.get("name")))
        if self.in_run:
            self.inside_changes += 1
        if k == "attach":
            exists = op["name"] in self.atts
            att = Att(op, op["name"])

            def cb(state, step, time):
                return self.called(att, state, step, time)

            def handler(exc, state, step, time):
                return self.handled(att, exc, state, step, time)

            kw = dict(interval=op["interval"], time_interval=op["ti"], store=op["store"],
                      max_records=op["max"], enabled=op["enabled"],
                      on_error=None if op["policy"] == "none" else handler)
            if op.get("ref") == "fname":
                cb.__name__ = op["name"]
            else:
                kw["name"] = op["name"]
            got = self.attempt(lambda: kmc.attach(cb, **kw), ValueError if exists else None, op)
            if not exists:
                if got != op["name"]:
                    self.fail("attach-name", f"attached as {got!r}, asked for {op['name']!r}")
                self.atts[op["name"]] = att
                if self.in_run:
                    att.calls_base = 0
        elif k == "detach":
            known = op["name"] in self.atts and op["name"] != TICK
            self.attempt(lambda: kmc.detach(op["name"]), None if known else ValueError, op)
            if known:
                del self.atts[op["name"]]
        elif k == "enable":
            n = op["name"]
            known = n in self.on or n in self.atts
            self.attempt(lambda: kmc.set_property_enabled(n, op["on"]), None if known else ValueError, op)
            if n in self.on:
                self.on[n] = op["on"]
            elif known:
                self.atts[n].enabled = op["on"]
        elif k == "freq":
            self.attempt(lambda: kmc.set_property_frequency(interval=op["interval"], time_interval=op["ti"]), None, op)
            self.gi, self.gt = op["interval"], op["ti"]
            if self.in_run:
                self.run_gi, self.run_gt = self.gi, self.gt
        elif k == "clear":
            self.attempt(kmc.clear_attachments, None, op)
            self.atts.clear()
            self.attach_tick()
        elif k == "bad":
            v = op["value"]
            f = {"interval": lambda: kmc.attach(lambda *a: None, interval=v, name="zz"),
                 "ti": lambda: kmc.attach(lambda *a: None, time_interval=v, name="zz"),
                 "max": lambda: kmc.attach(lambda *a: None, max_records=v, name="zz"),
                 "reserved": lambda: kmc.attach(lambda *a: None, name=v),
                 "freq": lambda: kmc.set_property_frequency(interval=v)}[op["what"]]
            self.attempt(f, (ValueError, TypeError), op)
        else:
            raise HarnessError(k)
        self.compare_plan()

    def attempt(self, fn, expect, op):
        try:
            out = fn()
        except Exception as e:
            if expect is not None and isinstance(e, expect):
                return None
            self.fail("plan-operation-failed", f"{brief(op)} raised {type(e).__name__}: {e}")
        if expect is not None:
            self.fail("bad-operation-accepted", f"{brief(op)} was accepted")
        return out

    def compare_plan(self):
        got = self.kmc.list_attachments()
        if list(got) != list(self.atts):
            self.fail("attachment-list", f"kMCpy lists {list(got)}, attached are {list(self.atts)}")
        c = self.kmc.list_property_calculations()
        want = {"built_in_enabled": [n for n in BUILTIN if self.on[n]],
                "built_in_disabled": [n for n in BUILTIN if not self.on[n]],
                "attached_enabled": [n for n, a in self.atts.items() if a.enabled],
                "attached_disabled": [n for n, a in self.atts.items() if not a.enabled]}
        for k, v in want.items():
            if sorted(c[k]) != sorted(v):
                self.fail("calculation-list", f"{k}: kMCpy says {c[k]}, reference {v}")

    # -- what happens during a run -----------------------------------------------
    def due(self, step, time, iv, ti, last):
        if iv is not None and step % iv == 0:
            return "step"
        if ti is not None:
            since = time if last is None else time - last
            if abs(since - ti) <= 1e-12 * max(abs(time), abs(ti)):
                raise SkipRun("time trigger on its threshold")
            if since >= ti:
                return "time"
        return None

    def begin_step(self, step, time):
        self.end_step()
        if step != self.step_no + 1:
            self.fail("step-skipped", f"callbacks were called at step {step} after step {self.step_no}")
        self.step_no, self.time = step, time
        self.steps_seen += 1
        if self.due(step, time, self.run_gi, self.run_gt, self.last_row) is not None:
            self.rows.append((time, dict(self.on), time > self.t_start))
            self.last_row = time
        self.queue = list(self.atts.values())

    def end_step(self):
        nxt = self.next_due()
        if nxt is not None:
            self.fail("missed-sample", f"step {self.step_no} (time {self.time!r}): {nxt.name} was due "
                                       f"({self.reason(nxt)}) and was not called")

    def reason(self, att):
        return self.due(self.step_no, self.time, *self.schedule(att), att.last)

    def schedule(self, att):
        iv = att.op["interval"] if att.op["interval"] is not None else self.run_gi
        ti = att.op["ti"] if att.op["ti"] is not None else self.run_gt
        return iv, ti

    def next_due(self):
        while self.queue:
            a = self.queue[0]
            if self.atts.get(a.name) is a and a.enabled and self.reason(a) is not None:
                return a
            self.queue.pop(0)
        return None

    def called(self, att, state, step, time):
        if self.found is not None:
            raise self.found
        try:
            return self._called(att, state, step, time)
        except (Violation, SkipRun) as v:
            if self.found is None:
                self.found = v
            raise

    def _called(self, att, state, step, time):
        if not self.in_run:
            self.fail("called-outside-run", f"{att.name} was called with no run going on")
        step, time = int(step), float(time)
        if step != self.step_no or time != self.time:
            self.begin_step(step, time)
        if state is not self.kmc.simulation_state or int(state.step) != step or float(state.time) != time:
            self.fail("wrong-arguments", f"{att.name} got step {step} time {time!r}, the state is at step "
                                         f"{state.step} time {state.time!r}")
        want = self.next_due()
        if want is not att:
            live = self.atts.get(att.name) is att and att.enabled
            why = ("is not attached any more or disabled" if not live else
                   f"was not due (settings {self.schedule(att)}, last {att.last!r})" if
                   self.due(step, time, *self.schedule(att), att.last) is None or att not in self.queue
                   else f"is out of order, {want.name if want else None} comes first")
            self.fail("wrong-call", f"step {step} time {time!r}: {att.name} was called but {why}")
        self.queue.pop(0)
        reason = self.reason(att)
        att.calls += 1
        self.total_calls += 1
        self.callers.add(att.name)
        self.ctx.log("call", att.name, step, repr(time))
        prev, att.last = att.last, time
        bad = att.op["fail"].get(str(att.calls))
        self.ctx.state(att.op["interval"], att.op["ti"] is None, reason, step % 5,
                       bad, att.op["policy"], att.op["store"], att.op["max"])
        for op in att.op["acts"].get(str(att.calls), []):
            self.apply(op)
        if bad is not None:
            e = make_exc(bad, f"{att.name}#{att.calls}")
            self.pending = (att, e, step, time)
            self.ctx.fault("callback-" + bad)
            if bad == "interrupt":
                self.fatal = e
            elif att.op["policy"] == "none":
                self.fatal = e
            raise e
        value = f"{att.name}:{att.calls}:{step}"
        if att.op["store"] and self.atts.get(att.name) is att:
            att.records.append({"name": att.name, "step": step, "time": time, "value": value})
            if att.op["max"] is not None:
                del att.records[:-att.op["max"]]
        return value

    def config_call(self, name, state, step, time):
        att = self.atts.get(name)
        if att is None:
            self.fail("wrong-call", f"{name} from the configuration was called after it was detached")
        return self.called(att, state, step, time)

    def handled(self, att, exc, state, step, time):
        if self.found is not None:
            return False
        p, self.pending = self.pending, None
        if p is None or p[0] is not att or p[1] is not exc or p[2] != int(step) or p[3] != float(time) \
                or state is not self.kmc.simulation_state:
            self.found = Violation("wrong-handler-call", f"handler of {att.name} got {exc!r} at step {step}")
            return False
        self.ctx.probe("handler-" + att.op["policy"])
        pol = att.op["policy"]
        if pol == "raise":
            self.fatal = exc
            raise InjectedFault("handler failed")
        out = {"true": True, "false": False, "truthy": 1, "falsy": None}[pol]
        if not out:
            self.fatal = exc
        return out

    def run(self):
        from kmcpy.simulator.tracker import CallbackExecutionError
        ref = self.b.ref
        c = ref.cfg
        pl = ref.pass_length
        st = self.kmc.simulation_state
        self.step_no = int(st.step) + c["equilibration_passes"] * pl
        self.t_start = self.time = float(st.time)
        self.run_gi, self.run_gt = self.gi, self.gt
        if self.gi is None and self.gt is None:
            self.run_gi = max(pl, 1)
        self.rows, self.last_row, self.queue = [], None, []
        self.pending = self.fatal = None
        for a in self.atts.values():
            a.last, a.records, a.calls = None, [], 0
        self.steps_seen = 0
        self.in_run = True
        tracker = err = None
        try:
            tracker = self.kmc.run(label=f"r{self.run_no}")
        except (Exception, KeyboardInterrupt) as e:
            err = e
        self.in_run = False
        self.run_no += 1
        self.ctx.steps += self.steps_seen
        if math.isfinite(st.time):
            self.ctx.sim_time += st.time - self.t_start
        if self.found is not None:
            raise self.found
        if err is not None:
            self.ctx.log("raised", type(err).__name__)
            if self.fatal is None:
                if isinstance(err, CallbackExecutionError):
                    raise Violation("tolerated-error-ended-run", f"{err}: the handler accepted the error")
                raise err
            if isinstance(self.fatal, KeyboardInterrupt):
                if err is not self.fatal:
                    raise Violation("interrupt-changed", f"interrupt became {type(err).__name__}")
            elif not isinstance(err, CallbackExecutionError):
                raise Violation("wrong-error", f"a failed callback surfaced as {type(err).__name__}: {err}")
            elif not any(x is self.fatal or isinstance(x, InjectedFault) for x in chain(err)):
                raise Violation("cause-lost", "the reported error does not carry the callback's own error")
            self.compare_plan()
            return
        if self.fatal is not None:
            raise Violation("error-swallowed", f"{self.fatal!r} should have ended the run")
        self.end_step()
        if self.found is not None:
            raise self.found
        want = c["kmc_passes"] * pl
        if self.steps_seen != want:
            raise Violation("wrong-step-count", f"{self.steps_seen} steps sampled, {want} production steps requested")
        records = {n: list(a.records) for n, a in self.atts.items()}
        self.judge(tracker, self.rows, records, "at the end of the run")
        self.finished.append((tracker, list(self.rows), records))
        self.compare_plan()

    def judge(self, tr, rows, records, when):
        res = tr.results
        if len(res["time"]) != len(rows):
            raise Violation("row-count", f"{when}: {len(res['time'])} result rows, {len(rows)} due")
        for k, (time, on, elapsed) in enumerate(rows):
            if float(res["time"][k]) != time:
                raise Violation("row-time", f"{when}: row {k} has time {res['time'][k]!r}, due at {time!r}")
            for n in BUILTIN:
                v = res[n][k]
                if not on[n] and not math.isnan(v):
                    raise Violation("disabled-value", f"{when}: row {k} has {n} = {v!r} while disabled")
                if on[n] and math.isnan(v) and n in ("msd", "correlation_factor"):
                    raise Violation("enabled-value-missing", f"{when}: row {k} has no {n} although enabled")
                if on[n] and math.isnan(v) and elapsed and n in ("jump_diffusivity", "tracer_diffusivity", "conductivity"):
                    raise Violation("enabled-value-missing", f"{when}: row {k} has no {n} although enabled")
        got = tr.get_property_records()
        if set(got) != set(records):
            raise Violation("record-names", f"{when}: records for {sorted(got)}, attached {sorted(records)}")
        for n, want in records.items():
            have = [{k: x[k] for k in ("name", "step", "time", "value")} for x in got[n]]
            if have != want:
                raise Violation("records", f"{when}: {n} has {short(have)}, reference {short(want)}")
            for x in got[n]:
                x["value"] = "scribble"
            got[n].append("scribble")
            if [{k: x[k] for k in ("name", "step", "time", "value")}
                    for x in tr.get_property_records(n)] != want:
                raise Violation("records-aliased", f"{n}: editing a returned list changed the tracker")


def brief(op):
    return {k: v for k, v in op.items() if k not in ("acts", "fail")}


def short(rows):
    return [(x["step"], x["value"]) for x in rows][:12]


def chain(e):
    seen = 0
    while e is not None and seen < 8:
        yield e
        e = e.__cause__ or e.__context__
        seen += 1


def run(sc, ctx):
    global _CURRENT
    h = Harness(sc, ctx)
    try:
        for op in sc["ops"]:
            if op["op"] == "run":
                h.run()
            else:
                h.apply(op)
            for tr, rows, records in h.finished:
                h.judge(tr, rows, records, f"after {op['op']}")
    finally:
        _CURRENT = None
    if h.inside_changes:
        ctx.probe("plan-changed-inside-run", h.inside_changes)
    ctx.probe("callback-invocations", h.total_calls)
    if (h.total_calls >= 6 and len(h.callers) >= 2) or h.inside_changes:
        ctx.nontrivial = True


def shrink(sc):
    for i, op in enumerate(sc["ops"]):
        if op["op"] == "attach":
            for key in ("acts", "fail"):
                for k in list(op[key]):
                    n = copy.deepcopy(sc)
                    del n["ops"][i][key][k]
                    yield n
            for key in ("ti", "interval", "max"):
                if op[key] is not None:
                    n = copy.deepcopy(sc)
                    n["ops"][i][key] = None
                    yield n
    for k in list(sc["config"]):
        n = copy.deepcopy(sc)
        del n["config"][k]
        yield n
    yield from shrink_with_world(sc, "ops")
