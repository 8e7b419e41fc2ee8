"""local-environment enumeration and NEB endpoints: complete, consistent, untouched by what came before."""
from __future__ import annotations

import copy
import itertools
import json
import math
import random

import numpy as np

from ..core import InjectedFault, InjectedInterrupt, Violation, canon
from .generation import matrix

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 60000}
RULE = ("distinct event-log digests of runs in which environments, endpoints or conversions were judged and, besides, "
        "something was computed before on the same lattice, a request was refused or the provider failed")
REAL = ["enumerate_local_environments, generate_neb_endpoint_pair, enumerate_neb_endpoint_pairs",
        "LatticeStructure conversions and supercells, LocalLatticeStructure, ActiveSiteOrder, LocalSiteOrder, Occupation",
        "pymatgen's neighbour search"]
STUB = ["the transformation that orders disordered structures (an external program: replies, failures and interrupts are "
        "the simulator's)"]
ASSUMPTIONS = ["cutoffs stay 0.02 A away from every distance of the crystal", "one thread",
               "structures given back are within a hundredth of the cell of the lattice's sites"]
STATE_MEASURE = "distinct (operation, outcome, provider, sizes) tuples"

MAPS = {"Na": [["Na", "X"], ["Na", "X"], ["Na", "K", "X"], ["Na", "X", "K"], ["Na", "K"]],
        "Li": [["Li", "X"], ["Li", "Na", "X"], ["X", "Li"]],
        "Si": [["Si", "P"], ["Si", "P", "Ge"], ["P", "Si"], ["Si", "Al"]],
        "O": [["O"]], "Zr": [["Zr"]]}
VAC = ("X", "Vacancy", "Va")


# -- scenarios -------------------------------------------------------------------------
def gen_crystal(r):
    while True:
        a, b, c = (round(r.uniform(4.5, 9.0), 3) for _ in range(3))
        cell = r.choice([[a, a, a, 90, 90, 90], [a, b, c, 90, 90, 90], [a, b, c, 90, round(r.uniform(75, 110), 2), 90],
                         [a, b, c, 80.0, round(r.uniform(75, 105), 2), 95.5]])
        names = ["Na"] * r.choice([1, 2, 2, 3]) + ["Si"] * r.choice([0, 1, 2]) + ["Li"] * r.choice([0, 0, 1, 2])
        names += ["O"] * r.choice([1, 1, 2]) + (["Zr"] if r.random() < 0.2 else [])
        r.shuffle(names)
        sites = [[n, [r.choice([0.0, 0.25, 0.5, 0.75]) if r.random() < 0.5 else round(r.random(), 4) for _ in range(3)]]
                 for n in names]
        mp = {n: r.choice(MAPS[n]) for n in dict.fromkeys(names)}
        if r.random() < 0.3:
            mp = dict(reversed(list(mp.items())))
        # one element may stand for one kind of site only, so that readers can tell the sites apart
        cr = {"cell": cell, "sites": sites, "map": mp, "basis": "occupation" if r.random() < 0.2 else "chebyshev",
              "words": r.random() < 0.3}
        if cr["basis"] == "occupation" and any(len(v) > 2 for v in mp.values()):
            cr["basis"] = "chebyshev"
        m = matrix(cr)
        cells = np.array(list(itertools.product([-1, 0, 1], repeat=3)))
        ok = True
        for i, (_, p) in enumerate(sites):
            for j, (_, q) in enumerate(sites):
                if j <= i:
                    continue
                d = np.array(p) - np.array(q) + cells
                if np.min(np.linalg.norm(d @ m, axis=1)) < 1.3 or np.min(np.linalg.norm(d, axis=1)) < 0.15:
                    ok = False
        if ok:
            return cr


def actives(c):
    return [i for i, (n, _) in enumerate(c["sites"]) if len(c["map"][n]) > 1]


def allowed(c, k):
    """Allowed species of active site k."""
    return c["map"][c["sites"][actives(c)[k]][0]]


def sphere(c, center, cutoff, active=True):
    """[(active index, distance)] within the cutoff, every image counted; closest call to the cutoff."""
    m = matrix(c)
    act = actives(c)
    x = np.array(c["sites"][act[center]][1] if isinstance(center, int) else center)
    inv = np.linalg.norm(np.linalg.inv(m), axis=0)
    n = [int(math.ceil(cutoff * v)) + 2 for v in inv]
    cells = np.array(list(itertools.product(*[range(-k, k + 1) for k in n])))
    out, gap = [], 9.0
    for k, i in enumerate(act):
        d = np.linalg.norm((np.array(c["sites"][i][1]) + cells - x) @ m, axis=1)
        gap = min(gap, float(np.min(np.abs(d - cutoff))))
        out += [(k, float(v)) for v in d[d < cutoff]]
    return out, gap


ORDERS = [None, None, "kmcpy_default", "nasicon_nat_commun_2022", {"name": "mine", "sort_keys": ["species_string", "cartesian_z"]},
          {"name": "mine", "sort_keys": ["cartesian_y", "species_string"], "exclude_center_site": True}]
KEYS = {None: ["species_string"], "kmcpy_default": ["species_string"], "nasicon_nat_commun_2022": ["species", "cartesian_x"]}


def excluded(q):
    if q["exclude"] is not None:
        return q["exclude"]
    o = q["order"]
    if isinstance(o, dict):
        return bool(o.get("exclude_center_site", False))
    return o == "nasicon_nat_commun_2022"


def local(c, q):
    out, gap = sphere(c, q["center"], q["cutoff"])
    if excluded(q):
        out = [(k, d) for k, d in out
               if not (isinstance(q["center"], int) and k == q["center"]) and d > 1e-3]
    return sorted(k for k, _ in out), gap


def matches(token, sp):
    return token in VAC if sp == "X" else token == sp


def choices(c, k, vspecies):
    return [s for s in allowed(c, k) if vspecies is None or any(matches(t, s) for t in vspecies)]


def expected(c, q):
    """('refuse', why) | ('ok', local multiset, variable sites, [decorations as state tuples])"""
    loc, _ = local(c, q)
    if q["max"] < 1:
        return ("refuse", "max_results")
    if q["vars"] is not None:
        var = list(dict.fromkeys(q["vars"]))
        if any(v not in loc for v in var):
            return ("refuse", "variable site outside the environment")
        if any(not choices(c, v, q["vspecies"]) for v in var):
            return ("refuse", "no species for a variable site")
    else:
        var = [k for k in dict.fromkeys(loc) if len(choices(c, k, q["vspecies"])) > 1]
    if q["counts"] is not None and sum(n for _, n in q["counts"]) != len(var):
        return ("refuse", "counts")
    base = q["base"]["occ"] if q["base"] else [0] * len(actives(c))
    out = []
    want = None
    if q["counts"] is not None:
        want = {}
        for s, n in q["counts"]:
            if n:
                s = "X" if s in VAC else s
                want[s] = want.get(s, 0) + n
    for pick in itertools.product(*[choices(c, k, q["vspecies"]) for k in var]):
        if want is not None:
            have = {}
            for s in pick:
                have[s] = have.get(s, 0) + 1
            if have != want:
                continue
        occ = list(base)
        for k, s in zip(var, pick):
            occ[k] = allowed(c, k).index(s)
        out.append(tuple(occ))
    return ("ok", loc, var, out)


def rand_occ(r, c):
    return [r.randrange(len(allowed(c, k))) for k in range(len(actives(c)))]


def gen_enum(r, c):
    n = len(actives(c))
    for _ in range(60):
        q = {"center": r.randrange(n) if r.random() < 0.6 else [round(r.random(), 3) for _ in range(3)],
             "cutoff": round(r.uniform(1.5, 6.5), 3), "exclude": r.choice([None, None, True, False]),
             "order": r.choice(ORDERS), "vars": None, "vspecies": None, "counts": None, "base": None, "max": 10000,
             "provider": None}
        if not isinstance(q["center"], int) and r.random() < 0.35:      # an abstract centre on top of a site
            q["center"] = [x + r.choice([0.0, 1e-5]) for x in r.choice(c["sites"])[1]]
        if r.random() < 0.5:
            q["base"] = {"occ": rand_occ(r, c), "salt": r.randrange(10 ** 6)}
            if not atoms(c, q["base"]["occ"], False):
                continue
        loc, gap = local(c, q)
        if gap < 0.02 or len(loc) > 40:
            continue
        if r.random() < 0.45 and loc:
            q["vars"] = r.sample(sorted(set(loc)), r.randint(1, min(4, len(set(loc)))))
            if r.random() < 0.1:
                q["vars"].append(r.randrange(n))
        labels = sorted({s for k in range(n) for s in allowed(c, k)})
        if r.random() < 0.4:
            q["vspecies"] = r.sample(labels, r.randint(1, len(labels)))
            q["vspecies"] = [r.choice(VAC) if s == "X" else s for s in q["vspecies"]]
        e = expected(c, q)
        if e[0] == "ok":
            size = len(e[3])
            if size > 150:
                continue
            if r.random() < 0.45 and e[2]:
                pick = [r.choice(choices(c, k, q["vspecies"])) for k in e[2]]
                cnt = {}
                for s in pick:
                    cnt[s] = cnt.get(s, 0) + 1
                if r.random() < 0.3:
                    cnt.setdefault(r.choice(labels), 0)
                if r.random() < 0.1:
                    cnt[pick[0]] += 1
                q["counts"] = [[r.choice(VAC) if s == "X" else s, v] for s, v in cnt.items()]
            e = expected(c, q)
            if e[0] == "ok":
                q["max"] = r.choice([10000, 10000, 10000, len(e[3]), max(len(e[3]) - 1, 0), r.randint(1, 3)])
            if e[0] == "ok" and e[2] and r.random() < 0.35:
                q["provider"] = {"mode": r.choice(["list", "list", "dicts", "single", "raise", "interrupt", "garbage", "foreign"]),
                                 "salt": r.randrange(10 ** 6), "n": r.choice([0, 1, 2, 4, 8]),
                                 "ranked": r.choice([True, True, False, 3])}
        return q
    return None


def gen_pair(r, c):
    n = len(actives(c))
    good = [(a, b) for a in range(n) for b in range(n) if a != b and hop_ok(c, a, b)]
    if good and r.random() < 0.85:
        return list(r.choice(good))
    return [r.randrange(n), r.randrange(n)]


def hop_ok(c, a, b):
    x, y = allowed(c, a), allowed(c, b)
    return a != b and x[0] == y[0] and x[0] != "X" and "X" in x and "X" in y


def gen(r, tier, i):
    crystals = [gen_crystal(r) for _ in range(r.choice([1, 1, 2]))]
    ops = []
    for _ in range(r.choice([2, 3, 4, 6])):
        k = r.randrange(len(crystals))
        c = crystals[k]
        what = r.choice(["enum", "enum", "enum", "pair", "pairs", "pairs", "round", "grow"])
        op = {"c": k, "do": what, "fresh": r.random() < 0.3, "again": r.random() < 0.3}
        if what in ("enum", "pairs"):
            op["q"] = gen_enum(r, c)
            if op["q"] is None:
                continue
        if what == "pairs":
            op["hop"] = gen_pair(r, c)
            if isinstance(op["q"]["center"], int) and r.random() < 0.5 and op["q"]["provider"] is None:
                q = dict(op["q"], center=op["hop"][0])
                if local(c, q)[1] > 0.02 and expected(c, q)[0] == "ok" and len(expected(c, q)[3]) <= 150:
                    op["q"], op["center"] = q, "default"
        if what == "pair":
            op["hop"], op["occ"] = gen_pair(r, c), rand_occ(r, c)
            op["form"] = r.choice(["list", "occupation", "enumeration"])
        if what in ("round", "grow"):
            shape = [r.choice([1, 1, 2]) for _ in range(3)]
            op["shape"] = shape
            op["salt"] = r.randrange(10 ** 6)
        ops.append(op)
    if not ops:
        return gen(r, tier, i)
    return {"crystals": crystals, "ops": ops}


# -- the code under test -----------------------------------------------------------------
def template(c):
    from pymatgen.core import Lattice, Structure
    return Structure(Lattice(matrix(c)), [s[0] for s in c["sites"]], [s[1] for s in c["sites"]])


def lattice(c):
    from kmcpy.structure import LatticeStructure
    mp = {k: (v[0] if len(v) == 1 and c["words"] else [("Vacancy" if c["words"] and s == "X" else s) for s in v])
          for k, v in c["map"].items()}
    return LatticeStructure(template(c), mp, basis_type=c["basis"])


def value(c, state):
    return int(state) if c["basis"] == "chebyshev" else 1 - int(state)


def states(c, occ):
    return tuple(value(c, v) for v in occ)       # both maps are their own inverse


def atoms(c, occ, fixed=True):
    """[(species, template index)] present for these active states."""
    act = {i: k for k, i in enumerate(actives(c))}
    out = []
    for i, (n, _) in enumerate(c["sites"]):
        if i in act:
            s = c["map"][n][occ[act[i]]]
            if s != "X":
                out.append((s, i))
        elif fixed:
            out.append((c["map"][n][0], i))
    return out


def given(c, occ, salt, fixed=True):
    """These atoms as somebody else writes them: any order, slightly off, in any cell."""
    from pymatgen.core import Lattice, Structure
    r = random.Random(salt)
    ats = atoms(c, occ, fixed)
    if len(ats) < len(c["sites"]):       # a full structure is taken in the order of the template
        r.shuffle(ats)
    pos = [np.array(c["sites"][i][1]) + np.array([r.uniform(-0.004, 0.004) + r.choice([0, 0, 0, 1, -1]) for _ in range(3)])
           for _, i in ats]
    return Structure(Lattice(matrix(c)), [s for s, _ in ats], pos)


def found(c, structure):
    """[(species, template index)] of a structure's atoms in their order; -1: at no site of the template."""
    out = []
    for s in structure:
        d = [np.max(np.abs((np.array(s.frac_coords) - np.array(x) + 0.5) % 1.0 - 0.5)) for _, x in c["sites"]]
        k = int(np.argmin(d))
        out.append((s.specie.symbol, k if d[k] < 1e-5 else -1))
    return out


def content(c, structure, occ, what):
    have, want = sorted(found(c, structure)), sorted(atoms(c, occ))
    if have != want:
        raise Violation("wrong-structure", f"{what}: occupation {list(occ)} is {want}, the structure holds {have}")


def image(L):
    return canon([L.template_structure.as_dict(), [[str(s) for s in a or ()] for a in L.allowed_species],
                  {str(k): [str(x) for x in v] for k, v in L.site_mapping.items()}])


class Provider:
    """The external program that orders structures."""

    def __init__(self, c, q, exp):
        self.c, self.q, self.exp, self.calls = c, q, exp, []
        p = q["provider"]
        r = random.Random(p["salt"])
        free = expected(c, dict(q, counts=None))[3]
        self.replies = [r.choice(free) for _ in range(max(p["n"], 1 if p["mode"] == "single" else 0))]
        self.replies = [o for o in self.replies if atoms(c, o, False)] or [None]
        if self.replies == [None]:
            self.replies = []
        self.salts = [r.randrange(10 ** 6) for _ in self.replies]

    def apply_transformation(self, structure, return_ranked_list=False):
        mode = self.q["provider"]["mode"]
        self.calls.append((structure, return_ranked_list))
        if mode == "raise":
            raise InjectedFault("the ordering program failed")
        if mode == "interrupt":
            raise InjectedInterrupt()
        if mode == "garbage":
            return [42]
        out = [given(self.c, o, s, fixed=False) for o, s in zip(self.replies, self.salts)]
        if mode == "foreign" and out:
            out[0][0] = "U"
            return out
        if mode == "single" and out:
            return out[0]
        if mode == "dicts":
            return [{"structure": s, "energy": 0.5 * k} for k, s in enumerate(out)]
        return out

    def outcome(self):
        mode = self.q["provider"]["mode"]
        if mode in ("raise", "interrupt", "garbage") or (mode == "foreign" and self.replies):
            return None
        seq = self.replies[:1] if mode == "single" else self.replies
        good = set(self.exp[3])
        return [o for o in seq if o in good][:self.q["max"]]

    def check(self):
        if len(self.calls) != 1:
            raise Violation("wrong-request", f"the ordering program was called {len(self.calls)} times")
        s, ranked = self.calls[0]
        c, q = self.c, self.q
        _, _, var, _ = self.exp
        p = q["provider"]["ranked"]
        want = (q["max"] if p else False) if isinstance(p, bool) else p
        if ranked != want or isinstance(ranked, bool) != isinstance(want, bool):
            raise Violation("wrong-request", f"{ranked!r} structures were asked for, the caller wanted {want!r}")
        act = actives(c)
        base = q["base"]["occ"] if q["base"] else [0] * len(act)
        need = {}
        for k, i in enumerate(act):
            if k in var:
                ch = choices(c, k, q["vspecies"])
                need[i] = {x: 1 / len(ch) for x in ch if x != "X"}
            elif allowed(c, k)[base[k]] != "X":
                need[i] = {allowed(c, k)[base[k]]: 1.0}
        have = {}
        for site in s:
            d = [np.max(np.abs((np.array(site.frac_coords) - np.array(x) + 0.5) % 1.0 - 0.5)) for _, x in c["sites"]]
            have[int(np.argmin(d))] = {e.symbol: float(v) for e, v in site.species.items()}
        if set(have) != set(need) or any(set(have[i]) != set(need[i]) or any(abs(have[i][x] - need[i][x]) > 1e-6 for x in need[i])
                                         for i in need):
            raise Violation("wrong-request", f"the ordering program was given {have}, the environment is {need}")


def arguments(c, q, prov):
    kw = {"cutoff": q["cutoff"], "center": q["center"] if isinstance(q["center"], int) else list(q["center"])}
    if q["order"] is not None:
        kw["local_site_order"] = copy.deepcopy(q["order"])
    if q["exclude"] is not None:
        kw["exclude_center_site"] = q["exclude"]
    if q["vars"] is not None:
        kw["variable_site_indices"] = list(q["vars"])
    if q["vspecies"] is not None:
        kw["variable_species"] = list(q["vspecies"])
    if q["counts"] is not None:
        kw["species_counts"] = {s: n for s, n in q["counts"]}
    if q["base"]:
        kw["base_structure"] = given(c, q["base"]["occ"], q["base"]["salt"])
    if q["max"] != 10000:
        kw["max_results"] = q["max"]
    if prov is not None:
        kw["transformation"] = prov
        kw["return_ranked_list"] = q["provider"]["ranked"]
    return kw


def shown(kw):
    return canon({k: (v.as_dict() if hasattr(v, "as_dict") else "" if isinstance(v, Provider) else v) for k, v in kw.items()})


def judge_enum(c, q, exp, res, seq):
    _, loc, var, want = exp
    got = [states(c, e.full_occupation.data) for e in res]
    if seq is not None:
        if got != seq:
            raise Violation("wrong-environments", f"the ordering program gave {seq}, the environments are {got}")
    else:
        if len(set(got)) != len(got):
            raise Violation("duplicate", f"{len(got)} environments, only {len(set(got))} differ ({q})")
        if not set(got) <= set(want):
            raise Violation("wrong-environments", f"{sorted(set(got) - set(want))[:3]} do not fit the request {q}")
        if len(got) != min(len(want), q["max"]):
            raise Violation("incomplete", f"{len(got)} environments of {len(want)} (at most {q['max']}): {q}")
    for e, o in zip(res, got):
        judge_one(c, q, e, o, loc, var)


def judge_one(c, q, e, o, loc, var):
    if sorted(e.local_site_indices) != loc:
        raise Violation("wrong-local-sites", f"{sorted(e.local_site_indices)}, the sphere holds {loc}")
    if sorted(e.variable_site_indices) != sorted(var):
        raise Violation("wrong-variable-sites", f"{e.variable_site_indices}, expected {var}")
    if list(e.local_occupation.data) != [value(c, o[k]) for k in e.local_site_indices]:
        raise Violation("inconsistent", f"local occupation {list(e.local_occupation.data)} of {list(o)} at {e.local_site_indices}")
    names = {k: allowed(c, k)[o[k]] for k in var}
    if {int(k): str(v) for k, v in e.species_by_site.items()} != names:
        raise Violation("inconsistent", f"species {e.species_by_site} for {list(o)}: {names}")
    content(c, e.structure, o, "environment")


def judge_pair(c, hop, pair, occ):
    a, b = hop
    va, vb = allowed(c, a).index("X"), allowed(c, b).index("X")
    first, last = list(occ), list(occ)
    first[a], first[b] = 0, vb
    last[a], last[b] = va, 0
    if tuple(pair.mobile_ion_indices) != (a, b):
        raise Violation("wrong-endpoints", f"hop {hop} became {pair.mobile_ion_indices}")
    for what, o, have, s in (("initial", first, pair.initial_occupation, pair.initial),
                             ("final", last, pair.final_occupation, pair.final)):
        if states(c, have.data) != tuple(o):
            raise Violation("wrong-endpoints", f"{what} occupation {list(have.data)}, the hop {hop} in {list(occ)} has states {o}")
        content(c, s, o, what)
    x, y = found(c, pair.initial), found(c, pair.final)
    act = actives(c)
    moved = [(p, q) for p, q in zip(x, y) if p != q]
    mobile = allowed(c, a)[0]
    if moved != [((mobile, act[a]), (mobile, act[b]))]:
        raise Violation("wrong-endpoints", f"atoms that differ between the endpoints: {moved}, the hop is {hop}")


def run(sc, ctx):
    from kmcpy.structure import (LatticeStructure, LocalLatticeStructure, enumerate_local_environments,
                                 enumerate_neb_endpoint_pairs, generate_neb_endpoint_pair)
    from kmcpy.structure.basis import Occupation, get_basis
    from kmcpy.event import Event
    shared = [lattice(c) for c in sc["crystals"]]
    images = [image(L) for L in shared]
    judged = extra = 0
    last = {}
    for n, op in enumerate(sc["ops"]):
        c = sc["crystals"][op["c"]]
        L = lattice(c) if op["fresh"] else shared[op["c"]]
        extra += not op["fresh"] and n > 0
        do = op["do"]
        if do in ("enum", "pairs"):
            q = op["q"]
            exp = expected(c, q)
            prov = Provider(c, q, exp) if q["provider"] and exp[0] == "ok" else None
            kw = arguments(c, q, prov)
            if do == "pairs":
                if op.get("center") == "default":
                    del kw["center"]
                e = Event(mobile_ion_indices=tuple(op["hop"]), local_env_indices=()) if op["again"] else tuple(op["hop"])

                def call(kw=kw, e=e):
                    return enumerate_neb_endpoint_pairs(L, e, **kw)
            else:
                def call(kw=kw):
                    return enumerate_local_environments(L, **kw)
            before = shown(kw)
            seq = prov.outcome() if prov else None
            ok = exp[0] == "ok" and not (prov and seq is None)
            if do == "pairs" and ok:
                count = len(seq) if prov else min(len(exp[3]), q["max"])
                ok = hop_ok(c, *op["hop"]) or count == 0
            if exp[0] == "ok" and prov and any(not [s for s in choices(c, k, q["vspecies"]) if s != "X"] for k in exp[2]):
                ok = False
                prov = None           # nothing but vacancies to order: refused before the program is asked
            try:
                res = call()
            except (Exception, KeyboardInterrupt) as err:
                if ok:
                    raise Violation("refused", f"{do} {q} {op.get('hop')}: {type(err).__name__}: {err}")
                mode = prov and q["provider"]["mode"]
                if mode == "raise" and not isinstance(err, InjectedFault) and not isinstance(err.__cause__, InjectedFault):
                    raise Violation("hidden-failure", f"the ordering program's failure became {type(err).__name__}: {err}")
                if mode == "interrupt" and not isinstance(err, KeyboardInterrupt):
                    raise Violation("hidden-failure", f"an interrupt became {type(err).__name__}: {err}")
                if mode in ("raise", "interrupt", "garbage", "foreign"):
                    ctx.fault("provider-" + mode)
                else:
                    ctx.probe("refused")
                extra += 1
                ctx.log(do, n, "refused", type(err).__name__)
                res = None
            else:
                if not ok:
                    raise Violation("bad-input-accepted", f"{do} {q} {op.get('hop')} gave {len(res)} results; expected {exp[:2]}")
                if prov:
                    prov.check()
                    ctx.probe("provider-" + q["provider"]["mode"])
                if do == "enum":
                    judge_enum(c, q, exp, res, seq)
                    if res:
                        last[op["c"]] = (res, [states(c, x.full_occupation.data) for x in res])
                    ctx.log(do, n, canon([states(c, x.full_occupation.data) for x in res]))
                    if res and not q["provider"]:
                        same_order(c, q, res[0], LocalLatticeStructure)
                else:
                    judge_pairs(c, q, op, exp, res, seq)
                    ctx.log(do, n, canon([states(c, x.initial_occupation.data) for x in res]))
                judged += 1
                if op["again"] and prov is None:
                    again = call()
                    if [repr(x) for x in again] != [repr(x) for x in res]:
                        raise Violation("not-repeatable", f"{do} {q} gave another answer the second time")
            if shown(kw) != before:
                raise Violation("arguments-changed", f"{do} {q} changed its arguments")
            ctx.state(do, res is None, q["provider"] and q["provider"]["mode"], None if res is None else min(len(res), 9),
                      q["counts"] is not None, q["vars"] is not None)
        elif do == "pair":
            judged += pair_op(sc, ctx, op, c, L, last, generate_neb_endpoint_pair, Occupation, get_basis)
        else:
            grow_op(ctx, op, c, L, LatticeStructure, Occupation)
            judged += 1
        # earlier results stay what they were
        for k, (res, occs) in last.items():
            if [states(sc["crystals"][k], x.full_occupation.data) for x in res] != occs:
                raise Violation("results-changed", f"environments returned earlier changed in operation {n} ({do})")
        for k, Ls in enumerate(shared):
            if image(Ls) != images[k]:
                raise Violation("lattice-changed", f"operation {n} ({do}) changed the lattice of crystal {k}")
        ctx.steps += 1
    if judged and (extra or judged > 1):
        ctx.nontrivial = True


def same_order(c, q, e, LocalLatticeStructure):
    """Models of the same environment list its sites in the same order."""
    if not e.local_site_indices:
        return
    mp = {k: list(v) for k, v in c["map"].items()}
    kw = {}
    if q["order"] is not None:
        kw["local_site_order"] = copy.deepcopy(q["order"])
    if q["exclude"] is not None:
        kw["exclude_center_site"] = q["exclude"]
    center = actives(c)[q["center"]] if isinstance(q["center"], int) else list(q["center"])
    local_env = LocalLatticeStructure(template_structure=template(c), center=center, cutoff=q["cutoff"], site_mapping=mp,
                                      basis_type=c["basis"], **kw)
    if tuple(int(i) for i in local_env.site_indices) != tuple(e.local_site_indices):
        raise Violation("wrong-local-order", f"the model's sites are {local_env.site_indices}, the environment's {e.local_site_indices}")
    keys = q["order"]["sort_keys"] if isinstance(q["order"], dict) else KEYS[q["order"]]
    rows = []
    m = matrix(c)
    x0 = np.array(c["sites"][center][1] if isinstance(center, int) else center) @ m
    for s in local_env.structure:
        p = np.array(s.coords) + x0
        rows.append([{"species_string": s.species_string, "species": s.specie.X if hasattr(s.specie, "X") else 0,
                      "cartesian_x": round(p[0], 4), "cartesian_y": round(p[1], 4), "cartesian_z": round(p[2], 4)}[k] for k in keys])
    for a, b in zip(rows, rows[1:]):
        for key, u, v in zip(keys, a, b):
            if u == v and key.startswith("species"):
                continue
            if isinstance(u, str) and u > v or not isinstance(u, str) and u > v + 2e-4:
                raise Violation("wrong-local-order", f"sites are not sorted by {keys}: {rows}")
            break


def judge_pairs(c, q, op, exp, res, seq):
    want = seq if seq is not None else exp[3]
    if len(res) != (len(seq) if seq is not None else min(len(want), q["max"])):
        raise Violation("incomplete", f"{len(res)} endpoint pairs of {len(want)} environments (at most {q['max']}): {q}")
    seen = []
    for k, p in enumerate(res):
        names = {int(a): str(b) for a, b in p.metadata["species_by_site"].items()}
        base = q["base"]["occ"] if q["base"] else [0] * len(actives(c))
        occ = list(base)
        for a, b in names.items():
            occ[a] = allowed(c, a).index(b)
        if sorted(p.metadata["local_site_indices"]) != exp[1] or p.metadata["local_environment_index"] != k:
            raise Violation("inconsistent", f"pair {k} says {p.metadata['local_environment_index']}, {p.metadata['local_site_indices']}")
        judge_pair(c, op["hop"], p, occ)
        seen.append(tuple(occ))
    if seq is not None:
        if seen != list(seq):
            raise Violation("wrong-environments", f"pairs for {seen}, the ordering program gave {seq}")
    elif len(set(seen)) != len(seen) or not set(seen) <= set(want):
        raise Violation("wrong-environments", f"pairs for {seen}, the environments are {want}")


def pair_op(sc, ctx, op, c, L, last, generate, Occupation, get_basis):
    hop, occ = op["hop"], list(op["occ"])
    vals = [value(c, s) for s in occ]
    if op["form"] == "enumeration" and op["c"] in last:
        src = last[op["c"]][0][-1]
        occ = list(last[op["c"]][1][-1])
    elif op["form"] == "occupation":
        src = Occupation(np.array(vals), basis=L.basis, validate=True)
    else:
        src = list(vals)
    try:
        p = generate(L, src, tuple(hop))
    except (Exception, KeyboardInterrupt) as err:
        if hop_ok(c, *hop):
            raise Violation("refused", f"hop {hop} in {occ}: {type(err).__name__}: {err}")
        ctx.probe("refused")
        ctx.log("pair", "refused", type(err).__name__)
        return 0
    if not hop_ok(c, *hop):
        raise Violation("bad-input-accepted", f"endpoints for {hop} with {allowed(c, hop[0])} and {allowed(c, hop[1])}")
    judge_pair(c, hop, p, occ)
    if isinstance(src, list) and src != vals:
        raise Violation("arguments-changed", f"{vals} became {src}")
    ctx.log("pair", canon([hop, occ]))
    ctx.state("pair", op["form"], len(allowed(c, hop[0])))
    return 1


def grow_op(ctx, op, c, L, LatticeStructure, Occupation):
    """Occupation to structure and back, in a supercell."""
    r = random.Random(op["salt"])
    shape = np.diag(op["shape"])
    big = template(c)
    big.add_site_property("origin", list(range(len(big))))
    big.make_supercell(shape)
    org = [int(s.properties["origin"]) for s in big]
    sp = [c["map"][c["sites"][i][0]] for i in org]
    st = [r.randrange(len(a)) for a in sp]
    vals = np.array([value(c, s) for s in st])
    names = [a[s] for a, s in zip(sp, st)]
    atoms_want = sorted((nm, tuple(np.round(np.mod(s.frac_coords, 1.0), 4) % 1.0)) for nm, s in zip(names, big) if nm != "X")
    if op["do"] == "round":
        given = Occupation(vals, basis=L.basis, validate=True)
        if np.prod(op["shape"]) == 1 and r.random() < 0.5:
            s = L.get_structure_from_occ(given)
        else:
            s = L.get_structure_from_occ(given, sc_matrix=shape)
        if list(given.data) != list(vals):
            raise Violation("arguments-changed", f"{list(vals)} became {list(given.data)}")
        reader = L
    else:
        reader = lattice(c)
        reader.make_supercell(shape)
        s = big.copy()
        for i, nm in enumerate(names):
            s[i] = nm if nm != "X" else "X"
        s.remove_sites([i for i, nm in enumerate(names) if nm == "X"])
        for i, (a, v) in enumerate(zip(names, vals)):
            got = reader.species_for_occupation_value(i, v)
            if got.symbol != a:
                raise Violation("wrong-supercell", f"site {i} ({sp[i]}) with value {v} is {got.symbol}, not {a}")
    have = sorted((x.specie.symbol, tuple(np.round(np.mod(x.frac_coords, 1.0), 4) % 1.0)) for x in s)
    if have != atoms_want:
        raise Violation("wrong-structure", f"occupation {list(vals)} in {op['shape']}: {len(atoms_want)} atoms expected, got {have[:4]}...")
    order = list(range(len(s)))
    r.shuffle(order)
    from pymatgen.core import Structure
    other = Structure(s.lattice, [s[i].specie for i in order],
                      [np.array(s[i].frac_coords) + np.array([r.uniform(-0.002, 0.002) + r.choice([0, 0, 1, -1]) for _ in range(3)])
                       for i in order])
    kw = {}
    full = [i for i, nm in enumerate(names) if nm != "X"]
    if r.random() < 0.4:
        kw["sc_matrix"] = np.eye(3, dtype=int) if reader is not L else shape
    if r.random() < 0.4:
        kw["structure_site_mapping"] = [full[i] for i in order]
    shown = (other.copy(), copy.deepcopy(kw))
    back = reader.get_occ_from_structure(other, **kw)
    if list(back.data) != list(vals):
        raise Violation("wrong-occupation", f"structure of {list(vals)} read as {list(back.data)} (shape {op['shape']}, {op['do']}, "
                                            f"{sorted(kw)})")
    if other != shown[0] or canon([np.array(v).tolist() for v in kw.values()]) != \
            canon([np.array(v).tolist() for v in shown[1].values()]):
        raise Violation("arguments-changed", f"reading a structure changed it or its options {kw}")
    if len(other):
        spoilt, kw = other.copy(), {}
        how = r.choice(["foreign", "twice", "cell", "length", "beyond", "same"])
        if how == "foreign":
            spoilt[r.randrange(len(spoilt))] = "Xe"
        elif how == "twice":
            x = spoilt[r.randrange(len(spoilt))]
            spoilt.append(x.specie, np.array(x.frac_coords) + 0.001, validate_proximity=False)
        elif how == "cell":
            spoilt = Structure(np.array(s.lattice.matrix) * 1.5, [x.specie for x in other], [x.frac_coords for x in other])
            kw = {"sc_matrix": np.eye(3, dtype=int) if reader is not L else shape}
        else:
            where = [full[i] for i in order]
            where = where[:-1] if how == "length" else where[:-1] + [len(vals)] if how == "beyond" else where[:-1] + where[:1]
            if how == "same" and len(order) < 2:
                where = [-1]
            kw = {"structure_site_mapping": where}
        try:
            got = reader.get_occ_from_structure(spoilt, **kw)
        except (Exception, KeyboardInterrupt) as err:
            ctx.probe("structure-refused")
            ctx.log("refused", how, type(err).__name__)
        else:
            raise Violation("bad-input-accepted", f"structure with {how} read as {list(got.data)}")
    ctx.log(op["do"], canon([int(v) for v in vals]))
    ctx.state(op["do"], len(vals))


def shrink(sc):
    for k in range(len(sc["ops"]) - 1, -1, -1):
        if len(sc["ops"]) > 1:
            n = copy.deepcopy(sc)
            del n["ops"][k]
            yield n
    for k, op in enumerate(sc["ops"]):
        for key in ("fresh", "again"):
            if op[key] != (key == "fresh"):
                n = copy.deepcopy(sc)
                n["ops"][k][key] = key == "fresh"
                yield n
        if "q" in op:
            for key, v in (("base", None), ("order", None), ("exclude", None), ("provider", None), ("max", 10000), ("counts", None)):
                if op["q"][key] != v:
                    n = copy.deepcopy(sc)
                    n["ops"][k]["q"][key] = v
                    yield n


def warm(path):
    from kmcpy.structure import enumerate_local_environments
    c = {"cell": [5, 5, 5, 90, 90, 90], "sites": [["Na", [0, 0, 0]], ["O", [.5, .5, .5]]], "map": {"Na": ["Na", "X"], "O": ["O"]},
         "basis": "chebyshev", "words": False}
    enumerate_local_environments(lattice(c), center=0, cutoff=2.0)
