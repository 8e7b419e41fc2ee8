"""local-barrier rules: the first matching rule decides, through every way of building, changing and copying the table."""
from __future__ import annotations

import copy
import math
import os

from .. import world as W
from ..core import Violation, canon

LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 150000}
RULE = ("distinct event-log digests of runs in which barriers were read from a table after it had been changed, copied or "
        "refused a change")
REAL = ["LocalBarrierModel: construction, add_rule and its helpers, build, from_exact_entries, entry_from_event_state, files, "
        "compute, compute_probability", "kmcpy.event.Event, State, hop direction"]
STUB = []
ASSUMPTIONS = ["one thread", "files are written without faults here (faults on model files are injected under C09)"]
STATE_MEASURE = "distinct (operation, rule type, outcome) tuples"

LABELS = ["Na", "X", "K", "Si", "P"]
SITES = ["local_env", "canonical", "mobile_ion", "from", "to", "all"]
KB = W.KB_MEV


def gen_rule(r, sc):
    n, ev = sc["n"], r.choice(sc["events"])
    t = r.choice(["state_count", "state_count", "species_count", "pattern", "pattern", "exact", "exact", "constant"])
    if t == "constant" and r.random() < 0.7:
        t = "state_count"
    rule = {"type": t, "props": {"barrier": round(r.uniform(10, 900), 2)}}
    if r.random() < 0.4:
        rule["props"]["alt"] = round(r.uniform(10, 900), 2)
    sites = r.choice(SITES + [None]) if r.random() < 0.75 else [r.randrange(n) for _ in range(r.randint(1, 4))]
    if t in ("state_count", "species_count"):
        rule["sites"] = sites
        rule.update(W._count_rule(r))
        if t == "state_count":
            rule["state"] = r.randint(0, 2)
        else:
            rule["species"] = r.choice(LABELS) if r.random() < 0.6 else r.sample(LABELS, 2)
    elif t == "exact":
        can = canonical(ev)
        rule.update(mobile_ion_indices=list(ev["m"]), local_env_indices=list(ev["env"]),
                    occupations=[r.randint(0, 1) for _ in can])
    elif t == "pattern":
        size = {"mobile_ion": 2, "from": 1, "to": 1}.get(sites if isinstance(sites, str) else None)
        if isinstance(sites, list):
            size = len(sites)
        if size is None:
            sites = None if r.random() < 0.5 else "canonical"
            rule.update(mobile_ion_indices=list(ev["m"]), local_env_indices=list(ev["env"]))
            size = len(canonical(ev))
        rule["sites"] = sites
        if size is not None and "mobile_ion_indices" in rule and r.random() < 0.15:
            del rule["mobile_ion_indices"], rule["local_env_indices"]      # applies to events with other numbers of sites too
        rule["pattern"] = [r.choice([0, 1, 2, "*", "*", "*"]) for _ in range(size)]
    if t != "exact" and t != "pattern" and r.random() < 0.2:
        rule["mobile_ion_indices"] = list(ev["m"])
        if r.random() < 0.3:
            rule["local_env_indices"] = list(ev["env"])
    if rule.get("sites", 1) is None:
        del rule["sites"]
    return rule


def canonical(e):
    return list(dict.fromkeys(list(e["m"]) + list(e["env"])))


BAD = ["type", "count-mix", "no-count", "negative", "sites", "state", "species", "pattern", "length", "barrier", "property", "float-count",
       "indices"]


def gen(r, tier, i):
    n = r.randint(4, 9)
    events = []
    for _ in range(r.randint(2, 4)):
        m = r.sample(range(n), 2)
        env = r.sample(range(n), r.randint(0, min(5, n)))
        events.append({"m": m, "env": env})
    sc = {"n": n, "events": events, "ops": [], "unknown": []}
    if r.random() < 0.2:
        sc["unknown"] = [[r.randrange(n), r.randint(0, 2)] for _ in range(r.randint(1, 4))]
    for _ in range(r.choice([4, 6, 9, 12])):
        kind = r.choice(["add", "add", "add", "read", "read", "read", "bad", "dup", "build", "build", "copy", "fresh", "exact"])
        op = {"do": kind, "m": r.randrange(3)}
        if kind == "add":
            op.update(rule=gen_rule(r, sc), form=r.choice(["typed", "bare", "helper", "helper", "entry"]), words=r.random() < 0.3,
                      named=r.random() < 0.6, short=r.random() < 0.6)
        elif kind == "read":
            op.update(occ=[[r.choice([0, 1, 1, 0, 2]) for _ in range(n)] for _ in range(3)],
                      prop=r.choice([None, None, "barrier", "alt"]), T=r.choice([300.0, 450.0, 900.5]), f=r.choice([1e13, 5e12]))
        elif kind == "bad":
            op.update(kind=r.choice(BAD))
        elif kind in ("build", "fresh"):
            rules = [gen_rule(r, sc) for _ in range(r.randint(0, 4))]
            op.update(rules=rules, default=r.choice([None, round(r.uniform(10, 900), 2), {"barrier": 55.5, "alt": 66.25}]),
                      spoil=r.random() < 0.3, chosen=r.choice([None, "barrier", "alt"]), prop=r.choice([None, "barrier", "alt"]),
                      words=r.random() < 0.3)
        elif kind == "exact":
            op.update(rules=[x for x in (gen_rule(r, sc) for _ in range(8)) if x["type"] == "exact"],
                      default=round(r.uniform(10, 900), 2))
        elif kind == "copy":
            op.update(to=r.randrange(3), via=r.choice(["dict", "file", "payload"]))
        sc["ops"].append(op)
    return sc


class Ref:
    """What the table is meant to hold."""

    def __init__(self):
        self.rules, self.default, self.chosen, self.prob = [], None, "barrier", "barrier"

    def copy(self):
        return copy.deepcopy(self)

    def keys(self):
        return {key(x) for x in self.rules if x["type"] == "exact"}

    def match(self, sc, e, occ):
        shim = type("S", (), {"n": sc["n"], "allowed": sc_labels(sc)})()
        for rule in self.rules:
            if rule["type"] == "constant":
                if "mobile_ion_indices" in rule and rule["mobile_ion_indices"] != e["m"] or \
                        "local_env_indices" in rule and rule["local_env_indices"] != e["env"]:
                    continue
                return rule["props"]
            if rule["type"] == "pattern" and rule.get("sites", "canonical") == "canonical" and \
                    rule.get("mobile_ion_indices", e["m"]) == e["m"] and rule.get("local_env_indices", e["env"]) == e["env"] and \
                    len(rule["pattern"]) != len(canonical(e)):
                raise Undecided("pattern length")
            if W.RefWorld._rule_matches(shim, rule, e, canonical(e), occ):
                return rule["props"]
        return self.default


class Undecided(Exception):
    """The table does not say what the barrier is: reading it has to fail."""


def key(x):
    return canon([x["mobile_ion_indices"], list(dict.fromkeys(x["mobile_ion_indices"] + x["local_env_indices"])), x["occupations"]])


def sc_labels(sc):
    gone = sc.get("unknown", [])
    return [{s: LABELS[(i + s) % len(LABELS)] for s in range(3) if [i, s] not in gone} for i in range(sc["n"])]


def species(sc):
    return {i: dict(a) for i, a in enumerate(sc_labels(sc)) if a}


def spell(rule, words=False, bare=False, short=True):
    out = {k: copy.deepcopy(v) for k, v in rule.items() if k != "props"}
    props = dict(rule["props"])
    if short:
        out["barrier"] = props.pop("barrier")
    if props:
        out["properties"] = props
    if words:
        w = {0: "occupied", 1: "vacant"}
        if "state" in out:
            out["occupation"] = w.get(out["state"], str(out["state"]))
            del out["state"]
        if "pattern" in out:
            out["pattern"] = [w.get(v, v) for v in out["pattern"]]
    if bare:
        del out["type"]
    return out


def spoiled(kind, sc):
    e = sc["events"][0]
    base = {"type": "state_count", "state": 0, "count": 1, "barrier": 5.0}
    n = len(canonical(e))
    return {"type": dict(base, type="sometimes"), "count-mix": dict(base, min_count=0),
            "no-count": {"type": "state_count", "state": 0, "barrier": 5.0}, "negative": dict(base, count=-1),
            "sites": dict(base, sites="nearby"), "state": dict(base, state="half"), "species": {"type": "species_count", "count": 1,
                                                                                                 "species": [], "barrier": 5.0},
            "pattern": {"type": "pattern", "pattern": [], "barrier": 5.0},
            "length": {"type": "exact", "mobile_ion_indices": e["m"], "local_env_indices": e["env"], "occupations": [0] * (n + 1),
                       "barrier": 5.0},
            "barrier": dict(base, barrier="high"), "property": {**{k: v for k, v in base.items() if k != "barrier"},
                                                               "properties": {"barrier": "high"}},
            "float-count": dict(base, count=1.5), "indices": dict(base, sites=[0.5])}[kind]


def run(sc, ctx):
    from kmcpy.event import Event
    from kmcpy.models.local_barrier_model import LocalBarrierModel
    from kmcpy.simulator.state import State
    from kmcpy.simulator.config import Configuration
    models, refs = {}, {}
    events = [Event(mobile_ion_indices=tuple(e["m"]), local_env_indices=tuple(e["env"])) for e in sc["events"]]

    def refused(what, fn, m, ref):
        before = canon(m.as_dict())
        try:
            fn()
        except (Exception, KeyboardInterrupt) as e:
            ctx.probe("refused")
            ctx.log("refused", what, type(e).__name__)
        else:
            raise Violation("bad-input-accepted", what)
        if canon(m.as_dict()) != before:
            raise Violation("refusal-changed-table", f"{what}: {before} became {canon(m.as_dict())}")

    changed = reads = 0
    for n, op in enumerate(sc["ops"]):
        k, do = op["m"], op["do"]
        if k not in models and do not in ("fresh", "exact"):
            models[k] = LocalBarrierModel(default_barrier=111.5, site_species=species(sc))
            refs[k] = Ref()
            refs[k].default = {"barrier": 111.5}
        if do in ("fresh", "build"):
            rules, seen, dup = [], set(), False
            for x in op["rules"]:
                if x["type"] == "exact":
                    if key(x) in seen:
                        dup = True
                    seen.add(key(x))
                rules.append(x)
            given = [spell(x, words=op["words"]) for x in rules]
            if op["spoil"]:
                given.append(spoiled(BAD[n % len(BAD)], sc))
            kw = {"rules": given}
            if isinstance(op["default"], dict):
                kw["default_properties"] = dict(op["default"])
            elif op["default"] is not None:
                kw["default_barrier"] = op["default"]
            if op["chosen"]:
                kw["default_property"] = op["chosen"]
            if op["prop"]:
                kw["probability_property"] = op["prop"]
            shown = canon(kw)
            if do == "fresh":
                try:
                    m = LocalBarrierModel(site_species=species(sc), **kw)
                except (Exception, KeyboardInterrupt) as e:
                    if not (dup or op["spoil"]):
                        raise Violation("refused", f"table {shown}: {type(e).__name__}: {e}")
                    ctx.log("fresh", "refused", type(e).__name__)
                    continue
                if dup or op["spoil"]:
                    raise Violation("bad-input-accepted", f"table {shown}")
                ref = Ref()
            else:
                m, ref = models[k], refs[k]
                if dup or op["spoil"]:
                    refused(f"build {shown}", lambda: m.build(**kw), m, ref)
                    changed += 1
                    continue
                m.build(**kw)
            if canon(kw) != shown:
                raise Violation("arguments-changed", f"{shown} became {canon(kw)}")
            for x in given:
                scramble(x)
            scramble(kw.get("default_properties", {}))
            ref.rules = [copy.deepcopy(x) for x in rules]
            if isinstance(op["default"], dict):
                ref.default = dict(op["default"])
            elif op["default"] is not None:
                ref.default = {**(ref.default or {}), "barrier": op["default"]}
            ref.chosen, ref.prob = op["chosen"] or ref.chosen, op["prop"] or ref.prob
            models[k], refs[k] = m, ref
            changed += 1
            ctx.log(do, canon(m.as_dict()))
        elif do == "exact":
            uniq = {}
            for x in op["rules"]:
                uniq.setdefault(key(x), x)
            entries = [{kk: v for kk, v in spell(x, short=False).items() if kk != "type"} for x in uniq.values()]
            models[k] = LocalBarrierModel.from_exact_entries(entries, default_barrier=op["default"], site_species=species(sc))
            refs[k] = Ref()
            refs[k].rules, refs[k].default = [copy.deepcopy(x) for x in uniq.values()], {"barrier": op["default"]}
            changed += 1
        elif do == "copy":
            m = models[k]
            if op["via"] == "file":
                p = os.path.join(ctx.scratch, "model.json")
                m.to(p)
                m = LocalBarrierModel.from_file(p)
            elif op["via"] == "dict":
                m = LocalBarrierModel.from_dict(m.as_dict())
            else:
                d = m.as_dict()
                m = LocalBarrierModel.from_dict({"model_type": "local_barrier", "local_barrier": d})
                d["rules"].clear()
                if d["default_properties"]:
                    d["default_properties"]["barrier"] = -1.0
            models[op["to"]], refs[op["to"]] = m, refs[k].copy()
            changed += 1
        elif do == "add":
            m, ref, rule = models[k], refs[k], op["rule"]
            add(op, m, rule, sc, ref, refused, LocalBarrierModel, State, Event)
            changed += 1
            ctx.state("add", rule["type"], op["form"])
        elif do == "dup":
            m, ref = models[k], refs[k]
            have = [x for x in ref.rules if x["type"] == "exact"]
            if have:
                x = dict(have[n % len(have)], props={"barrier": 1.0})
                refused("a second exact rule for the same environment", lambda: m.add_rule(spell(x)), m, ref)
                changed += 1
        elif do == "bad":
            m, ref = models[k], refs[k]
            refused(f"rule {op['kind']}", lambda: m.add_rule(spoiled(op["kind"], sc)), m, ref)
            changed += 1
        else:
            reads += 1
            for kk in sorted(models):
                for occ in op["occ"]:
                    read(sc, op, models[kk], refs[kk], events, occ, State, Configuration, ctx)
        ctx.steps += 1
        ctx.state(do)
    for kk in sorted(models):
        ctx.log("end", kk, canon(models[kk].as_dict()))
        if len(models[kk].rules) != len(refs[kk].rules):
            raise Violation("wrong-table", f"table {kk} has {len(models[kk].rules)} rules, {len(refs[kk].rules)} were accepted")
    if changed and reads:
        ctx.nontrivial = True


def scramble(given):
    """The caller goes on using the objects it passed in."""
    for v in list(given.values()):
        if isinstance(v, list):
            v.reverse()
            v.append(0)
        elif isinstance(v, dict):
            v.clear()
    given.clear()


def add(op, m, rule, sc, ref, refused, LocalBarrierModel, State, Event):
    t = rule["type"]
    given = spell(rule, words=op["words"], bare=op["form"] == "bare", short=op["short"])
    if op["named"]:
        given["name"] = f"n{len(ref.rules)}"

    def go():
        if op["form"] == "helper" and t != "constant" and (t == "exact" or not {"mobile_ion_indices", "local_env_indices"} & set(rule)):
            kw = {a: b for a, b in given.items() if a != "type"}
            if "occupation" in kw:
                kw["state"] = kw.pop("occupation")
            name = getattr(m, f"add_{t}_rule")(**kw)
            if op["named"] and name != given["name"]:
                raise Violation("wrong-name", f"rule {given['name']} was named {name}")
        elif op["form"] == "entry" and t == "exact":
            e = {"m": rule["mobile_ion_indices"], "env": rule["local_env_indices"]}
            occ = [2] * sc["n"]
            for i, v in zip(canonical(e), rule["occupations"]):
                occ[i] = v
            m.add_rule(LocalBarrierModel.entry_from_event_state(
                Event(mobile_ion_indices=tuple(e["m"]), local_env_indices=tuple(e["env"])), State(occupations=occ),
                dict(rule["props"]), name=given.get("name")))
        else:
            shown = canon(given)
            m.add_rule(given)
            if canon(given) != shown:
                raise Violation("arguments-changed", f"{shown} became {canon(given)}")
            scramble(given)
    if t == "exact" and key(rule) in ref.keys():
        refused("a second exact rule for the same environment", go, m, ref)
        return
    go()
    ref.rules.append(copy.deepcopy(rule))


def read(sc, op, m, ref, events, occ, State, Configuration, ctx):
    st = State(occupations=list(occ))
    for e, ev in zip(sc["events"], events):
        try:
            props = ref.match(sc, e, occ)
        except (Undecided, KeyError):
            props = None
            ctx.probe("undecided")
        want = None if props is None else props.get(op["prop"] or ref.chosen)
        try:
            got = m.compute(st, ev, property_name=op["prop"]) if op["prop"] else m.compute(st, ev)
        except (Exception, KeyboardInterrupt) as err:
            if want is not None:
                raise Violation("refused", f"event {e} in {occ}: {type(err).__name__}: {err}")
            ctx.log("none", type(err).__name__)
        else:
            if want is None or got != want:
                raise Violation("wrong-barrier", f"event {e} in {occ}: {got}, the first matching rule gives {want} "
                                                 f"(rules {ref.rules}, default {ref.default})")
            ctx.log("barrier", got)
        want = None if props is None else props.get(ref.prob)
        cfg = Cfg(op["T"], op["f"])
        try:
            got = m.compute_probability(event=ev, runtime_config=cfg, simulation_state=st)
        except (Exception, KeyboardInterrupt) as err:
            if want is not None:
                raise Violation("refused", f"rate of event {e} in {occ}: {type(err).__name__}: {err}")
            continue
        a, b = occ[e["m"][0]], occ[e["m"][1]]
        if want is None and {a, b} != {0, 1} and got == 0:
            continue
        rate = op["f"] * math.exp(-want / (KB * op["T"])) if want is not None and {a, b} == {0, 1} else 0.0
        if want is None or abs(got - rate) > 1e-9 * max(rate, got):
            raise Violation("wrong-rate", f"event {e} in {occ}: {got}, barrier {want} at {op['T']} K gives {rate}")
    if list(st.occupations) != list(occ):
        raise Violation("state-changed", f"{occ} became {st.occupations}")


class Cfg:
    def __init__(self, temperature, attempt_frequency):
        self.temperature, self.attempt_frequency = temperature, attempt_frequency


def shrink(sc):
    for k in range(len(sc["ops"]) - 1, -1, -1):
        if len(sc["ops"]) > 1:
            n = copy.deepcopy(sc)
            del n["ops"][k]
            yield n
    for k, op in enumerate(sc["ops"]):
        for j in range(len(op.get("rules", ()))):
            n = copy.deepcopy(sc)
            del n["ops"][k]["rules"][j]
            yield n
        if op["do"] == "read" and len(op["occ"]) > 1:
            for j in range(len(op["occ"])):
                n = copy.deepcopy(sc)
                n["ops"][k]["occ"] = [op["occ"][j]]
                yield n


def warm(path):
    from kmcpy.models.local_barrier_model import LocalBarrierModel
    LocalBarrierModel(default_barrier=1.0)
