"""Synthetic KMC worlds: a JSON spec, the real kMCpy objects built from it,
and an independent reference description of the same world.

The spec is plain JSON, so that it is the replay file.  Nothing in the
reference side calls kMCpy.
"""
from __future__ import annotations

import copy
import math
import random
import struct
import zlib

import numpy as np

VACANCY = "X"
KB_MEV = 8.617333262145179e-02  # meV/K, CODATA


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------
def gen_world(r: random.Random, *, max_sites: int = 14, hetero: float = 0.25,
              bare: float = 0.2, model: str | None = None,
              passes=(1, 4), eq=(0, 3), rare_zero: bool = True,
              nonlocal_rules: bool = True, project: bool = False) -> dict:
    """Draw one world.  Every structural knob varies per run (swarm)."""
    for _ in range(5000):
        w = _try_world(r, max_sites, hetero, 0.0 if project else bare, model, passes, eq,
                       rare_zero, nonlocal_rules, project)
        if w is not None:
            return w
    raise RuntimeError("world generator did not converge")


def _try_world(r, max_sites, hetero, bare, model, passes, eq, rare_zero, nonlocal_rules,
               project=False):
    is_bare = r.random() < bare
    is_hetero = (not is_bare) and r.random() < hetero
    lattice = [round(r.uniform(3.0, 8.0), 4) for _ in range(3)] + (
        [90.0, 90.0, 90.0] if r.random() < 0.4
        else [round(r.uniform(70.0, 110.0), 3) for _ in range(3)]
    )
    mobile = r.choice(["Na", "Li"])
    other = "Li" if mobile == "Na" else "Na"
    # Allowed-state order of the main mobile sublattice.
    if is_bare:
        main_allowed = [mobile, VACANCY]
    else:
        main_allowed = r.choice([
            [mobile, VACANCY], [mobile, VACANCY], [VACANCY, mobile],
            [mobile, "K", VACANCY], ["K", VACANCY, mobile],
        ])
    mapping = {mobile: main_allowed}
    sites = []
    nm = r.randint(1, 3)
    for _ in range(nm):
        sites.append({"sp": mobile})
    if is_hetero:
        mapping[other] = r.choice([
            [other, mobile, VACANCY], [VACANCY, mobile],
            [mobile, other, VACANCY], [other, VACANCY, mobile],
        ])
        if mapping[other] == main_allowed:
            return None
        for _ in range(r.randint(1, 2)):
            sites.append({"sp": other})
    if r.random() < 0.6:
        mapping["Si"] = ["Si", "P"]
        for _ in range(r.randint(1, 2)):
            sites.append({"sp": "Si"})
    if r.random() < 0.5:
        mapping["O"] = ["O"]
        sites.append({"sp": "O"})
    if project:  # the order in which a CIF file is read back
        sites.sort(key=lambda s: {"Na": 0.93, "Li": 0.98, "Si": 1.9, "O": 3.44}[s["sp"]])
    elif not is_bare:
        r.shuffle(sites)
    for s in sites:
        s["f"] = [round(r.random(), 4) for _ in range(3)]
    # keep sites apart so that pymatgen never merges anything
    shape = [r.randint(1, 3) for _ in range(3)]
    ncell = shape[0] * shape[1] * shape[2]
    active = [s for s in sites if len(mapping[s["sp"]]) > 1]
    n_active = ncell * len(active)
    if n_active > max_sites or n_active < 3:
        return None
    # order of compact sites: primitive-site major, lattice image minor
    site_sp = [s["sp"] for s in active for _ in range(ncell)]
    hop_sites = [i for i, sp in enumerate(site_sp)
                 if mobile in mapping[sp] and VACANCY in mapping[sp]]
    if len(hop_sites) < 2:
        return None
    pass_length = sum(1 for sp in site_sp if mobile in sp)
    if pass_length < 1:
        return None

    # occupations
    occ = []
    vac_p = r.choice([0.2, 0.4, 0.6, 0.8])
    for i, sp in enumerate(site_sp):
        allowed = mapping[sp]
        if i in hop_sites:
            u = r.random()
            if u < vac_p:
                occ.append(allowed.index(VACANCY))
            elif u < vac_p + (1 - vac_p) * 0.85:
                occ.append(allowed.index(mobile))
            else:
                occ.append(r.randrange(len(allowed)))
        else:
            occ.append(r.randrange(len(allowed)))

    # events: a connected-ish random graph over hop sites
    pairs = set()
    order = hop_sites[:]
    r.shuffle(order)
    for a, b in zip(order, order[1:]):
        pairs.add((a, b))
    for _ in range(r.randint(0, 2 * len(order))):
        a, b = r.sample(hop_sites, 2)
        if (a, b) not in pairs and (b, a) not in pairs:
            pairs.add((a, b))
    pairs = sorted(pairs)
    r.shuffle(pairs)
    kind = model or r.choice(["table", "table", "table", "barrier", "lce"])
    env_max = r.choice([0, 1, 2, 4, 7])
    events = []
    n_env = r.randint(1, min(5, n_active - 1))
    for a, b in pairs:
        rest = [i for i in range(n_active) if i not in (a, b)]
        k = min(len(rest), r.randint(0, env_max))
        env = r.sample(rest, k)
        if r.random() < 0.15:
            env = env + [r.choice([a, b])]  # endpoint listed in its own env
        if kind == "lce":
            # one ordered local environment of fixed length for every event
            pool = rest + ([b] if r.random() < 0.5 else [])
            env = r.sample(pool, min(n_env, len(pool)))
            if len(env) != n_env:
                return None
        if kind == "composite":
            # the energy couples ions on event-joined sites
            env = env + sorted(
                {y for p in pairs for x, y in (p, p[::-1])
                 if x in (a, b) and y not in (a, b) and y not in env})
        events.append({"m": [a, b], "env": env})
    if r.random() < 0.1 and len(events) > 1:
        e = r.choice(events)
        events.append({"m": list(e["m"]), "env": list(reversed(e["env"]))})

    world = {
        "lattice": lattice, "sites": sites, "mapping": mapping, "shape": shape,
        "mobile": mobile, "bare": is_bare, "hetero": is_hetero,
        "occ": occ, "events": events,
        "model": gen_model(r, kind, mapping, site_sp, n_active, events, mobile,
                           rare_zero, nonlocal_rules),
        "cfg": {
            "temperature": round(r.uniform(200.0, 900.0), 2),
            "attempt_frequency": float(f"{10 ** r.uniform(6, 13):.6e}"),
            "equilibration_passes": r.choice([0, 0, r.randint(*eq)]),
            "kmc_passes": r.randint(*passes),
            "random_seed": r.randrange(2 ** 31),
            "dimension": r.choice([1, 2, 3, 3]),
            "mobile_ion_charge": r.choice([1.0, -1.0, 2.0, 1.5]),
            "elementary_hop_distance": round(r.uniform(1.0, 4.0), 3),
        },
    }
    ref = RefWorld(world)
    if not ref.geometry_ok():
        return None
    if ref.total_rate(occ) <= 0:
        return None
    if not any(ref.code_mobile[i] == occ[i] for i in ref.hop_sites):
        return None
    return world


def gen_model(r, kind, mapping, site_sp, n_active, events, mobile, rare_zero,
              nonlocal_rules=True):
    if kind == "table":
        return {
            "kind": "table", "salt": r.randrange(2 ** 30),
            "spread": r.choice([0.0, 1.0, 3.0, 8.0, 20.0]),
            "zero": r.choice([0.0, 0.0, 0.1, 0.3]) if rare_zero else 0.0,
            "base": float(f"{10 ** r.uniform(3, 12):.5e}"),
        }
    if kind == "barrier":
        rules = []
        for _ in range(r.randint(0, 4)):
            t = r.choice(["state_count", "species_count", "pattern", "exact"])
            barrier = round(r.uniform(20.0, 600.0), 2)
            if t == "state_count":
                rule = {"type": t, "sites": r.choice(
                    ["local_env", "canonical", "mobile_ion", "from", "to"]),
                    "state": r.randint(0, 2), "barrier": barrier}
                if nonlocal_rules and r.random() < 0.3:
                    rule["sites"] = _nonlocal_sites(r, n_active)
                rule.update(_count_rule(r))
            elif t == "species_count":
                labels = sorted({s for v in mapping.values() for s in v})
                rule = {"type": t, "sites": r.choice(["local_env", "canonical"]),
                        "species": r.choice(labels), "barrier": barrier}
                if len(labels) > 1 and r.random() < 0.3:
                    rule["species"] = sorted(r.sample(labels, 2))
                if nonlocal_rules and r.random() < 0.3:
                    rule["sites"] = _nonlocal_sites(r, n_active)
                rule.update(_count_rule(r))
            elif t == "pattern" and r.random() < 0.35:
                # a pattern over selected sites of every event
                sites = r.choice(["mobile_ion", "from", "to"])
                k = 2 if sites == "mobile_ion" else 1
                if nonlocal_rules and r.random() < 0.4:
                    sites = [r.randrange(n_active) for _ in range(r.randint(1, 3))]
                    k = len(sites)
                rule = {"type": t, "sites": sites, "barrier": barrier,
                        "pattern": [r.choice([0, 1, 2, "*", "*"]) for _ in range(k)]}
            else:
                e = r.choice(events)
                canonical = []
                for i in list(e["m"]) + list(e["env"]):
                    if i not in canonical:
                        canonical.append(i)
                vals = [r.randrange(len(mapping[site_sp[i]])) for i in canonical]
                if t == "pattern":
                    pat = [v if r.random() < 0.4 else "*" for v in vals]
                    rule = {"type": t, "pattern": pat, "barrier": barrier,
                            "mobile_ion_indices": list(e["m"]),
                            "local_env_indices": list(e["env"])}
                else:
                    rule = {"type": t, "occupations": vals, "barrier": barrier,
                            "mobile_ion_indices": list(e["m"]),
                            "local_env_indices": list(e["env"])}
            rules.append(rule)
        # exact rules must be unique per key
        seen, uniq = set(), []
        for rule in rules:
            if rule["type"] == "exact":
                key = (tuple(rule["mobile_ion_indices"]),
                       tuple(rule["local_env_indices"]), tuple(rule["occupations"]))
                if key in seen:
                    continue
                seen.add(key)
            uniq.append(rule)
        return {"kind": "barrier", "default": round(r.uniform(50.0, 500.0), 2),
                "rules": uniq, "prop": r.choice(["barrier", "barrier", "alt"]),
                "words": r.random() < 0.3,
                "via": r.choice(["add", "bare", "list", "build", "helpers", "dict"])}
    if kind == "lce":
        n_env = len(events[0]["env"])
        return {"kind": "lce", "kra": gen_lce(r, n_env, 60.0),
                "site": gen_lce(r, n_env, 30.0) if r.random() < 0.6 else None}
    if kind == "composite":
        ns = n_active
        return {
            "kind": "composite", "salt": r.randrange(2 ** 30),
            "kra": round(r.uniform(50.0, 400.0), 2),
            "field": [round(r.uniform(-120.0, 120.0), 3) for _ in range(ns)],
            "pair": round(r.uniform(-40.0, 40.0), 3),
            "units": r.choice(["meV", "eV"]),
            "map": gen_site_energy_map(r, mapping, site_sp, ns),
        }
    raise ValueError(kind)


def _nonlocal_sites(r, n_active):
    if r.random() < 0.4:
        return "all"
    return sorted(r.sample(range(n_active), r.randint(1, min(4, n_active))))


def gen_lce(r, n_env, scale):
    """A local cluster expansion over ordered local-environment positions:
    features of decorated clusters, per-site basis tables and ECIs."""
    states, nbasis = 3, r.randint(1, 2)
    clusters, basis = [], []
    for _ in range(r.randint(1, 4)):
        feats, bidx = [], []
        size = r.randint(1, min(3, n_env))
        for _ in range(r.randint(1, 3)):
            c = r.sample(range(n_env), size)
            feats.append(c)
            bidx.append([r.randrange(nbasis) for _ in c])
        clusters.append(feats)
        basis.append(bidx)
    return {"clusters": clusters, "basis": basis,
            "values": [[[round(r.uniform(-1, 1), 3) for _ in range(nbasis)]
                        for _ in range(states)] for _ in range(n_env)],
            "keci": [round(r.uniform(-scale, scale), 3) for _ in clusters],
            "empty": round(r.uniform(100.0, 400.0) if scale > 50 else r.uniform(-50, 50), 3)}


def lce_value(spec, local):
    """Reference evaluation of gen_lce's expansion."""
    out = spec["empty"]
    for feats, bidx, eci in zip(spec["clusters"], spec["basis"], spec["keci"]):
        tot = 0.0
        for c, bs in zip(feats, bidx):
            p = 1.0
            for site, bi in zip(c, bs):
                p *= spec["values"][site][local[site]][bi]
            tot += p
        out += eci * tot
    return out


def gen_site_energy_map(r, mapping, site_sp, ns):
    """External site order and state encoding for a SiteEnergyModel."""
    out = {"sites": None, "states": None, "by_site": None, "size": None,
           "initial": None, "dtype": None}
    if r.random() < 0.7:
        size = ns + r.randint(0, 3)
        ext = list(range(size))
        r.shuffle(ext)
        out["sites"] = ext[:ns]
        if r.random() < 0.5:
            out["size"] = size
        elif r.random() < 0.4:
            out["initial"] = size
    style = r.choice(["none", "int", "str", "float", "by_site"])
    nstates = 3
    if style == "int":
        out["states"] = r.sample([5, 7, 11, -3], nstates)
    elif style == "float":
        out["states"] = [v / 100 for v in r.sample(range(-200, 201), nstates)]
    elif style == "str":
        out["states"] = ["a", "b", "c"]
    elif style == "by_site":
        out["by_site"] = []
        mix = r.random() < 0.5
        for _ in range(ns):
            vals = r.sample([1, 2, 3, 4, 5, 6], nstates)
            if mix and r.random() < 0.5:
                vals = [v + 0.5 for v in vals]
            out["by_site"].append(vals)
    if out["initial"] is not None and style in ("str",):
        out["dtype"] = "object"
    if out["initial"] is not None and style in ("float", "by_site"):
        out["dtype"] = "float"
    return out


def _count_rule(r):
    k = r.choice(["count", "min_count", "max_count", "range"])
    if k == "range":
        lo = r.randint(0, 2)
        return {"min_count": lo, "max_count": lo + r.randint(0, 2)}
    return {k: r.randint(0, 3)}


# --------------------------------------------------------------------------
# reference side (no kMCpy here)
# --------------------------------------------------------------------------
def lattice_matrix(params):
    """pymatgen's convention: a in xz, c along z."""
    a, b, c, al, be, ga = params
    al, be, ga = (math.radians(x) for x in (al, be, ga))
    val = (math.cos(al) * math.cos(be) - math.cos(ga)) / (math.sin(al) * math.sin(be))
    val = max(min(val, 1.0), -1.0)
    gs = math.acos(val)
    return np.array([
        [a * math.sin(be), 0.0, a * math.cos(be)],
        [-b * math.sin(al) * math.cos(gs), b * math.sin(al) * math.sin(gs), b * math.cos(al)],
        [0.0, 0.0, c],
    ])


def _hash01(salt, parts) -> float:
    data = struct.pack("<q", salt) + b"".join(struct.pack("<q", int(p)) for p in parts)
    h = zlib.crc32(data) | (zlib.adler32(data[::-1]) << 32)
    h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15 & (2 ** 64 - 1)
    h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9 & (2 ** 64 - 1)
    h ^= h >> 32
    return (h >> 11) / float(1 << 53)


class RefWorld:
    """What the world is, independently of kMCpy's code."""

    def __init__(self, w: dict):
        self.w = w
        self.mobile = w["mobile"]
        mapping = w["mapping"]
        ncell = w["shape"][0] * w["shape"][1] * w["shape"][2]
        act = [s for s in w["sites"] if len(mapping[s["sp"]]) > 1]
        self.site_sp = [s["sp"] for s in act for _ in range(ncell)]
        self.allowed = [mapping[sp] for sp in self.site_sp]
        self.n = len(self.site_sp)
        self.code_mobile = [a.index(self.mobile) if self.mobile in a else None
                            for a in self.allowed]
        self.code_vac = [a.index(VACANCY) if VACANCY in a else None
                         for a in self.allowed]
        self.hop_sites = [i for i in range(self.n)
                          if self.code_mobile[i] is not None
                          and self.code_vac[i] is not None]
        self.pass_length = sum(1 for sp in self.site_sp if self.mobile in sp)
        prim = lattice_matrix(w["lattice"])
        self.matrix = np.array(w["shape"], float)[:, None] * prim
        self.volume = abs(float(np.linalg.det(self.matrix)))
        self.events = w["events"]
        self.cfg = w["cfg"]
        self._cache: dict = {}
        self.key_to_index = {}
        for i, e in enumerate(self.events):
            self.key_to_index.setdefault((tuple(e["m"]), tuple(e["env"])), i)
        self._canon = []
        for e in self.events:
            c = []
            for i in list(e["m"]) + list(e["env"]):
                if i not in c:
                    c.append(i)
            self._canon.append(tuple(c))
        self.frac = None  # compact fractional coordinates (set by attach_coords)
        self._guess_coords()

    # -- geometry ---------------------------------------------------------
    def _guess_coords(self):
        """Order of images inside one primitive site is taken from the built
        structure later; here any order works."""
        shape = self.w["shape"]
        mapping = self.w["mapping"]
        out = []
        for s in self.w["sites"]:
            if len(mapping[s["sp"]]) <= 1:
                continue
            for i in range(shape[0]):
                for j in range(shape[1]):
                    for k in range(shape[2]):
                        out.append([(s["f"][0] + i) / shape[0],
                                    (s["f"][1] + j) / shape[1],
                                    (s["f"][2] + k) / shape[2]])
        self.frac = np.array(out) % 1.0

    def attach_coords(self, frac):
        self.frac = np.array(frac, float)

    def geometry_ok(self) -> bool:
        """No two sites coincide."""
        f = self.frac
        for a in range(self.n):
            for b in range(a + 1, self.n):
                d = f[a] - f[b]
                d -= np.round(d)
                if np.linalg.norm(d @ self.matrix) < 0.6:
                    return False
        return True

    def tied(self, src, dst):
        """Is the minimum image of this hop ambiguous (half a cell along an axis)?"""
        d = self.frac[dst] - self.frac[src]
        return bool(np.any(np.abs(np.abs(d - np.round(d)) - 0.5) < 1e-9))

    def hop_vector(self, src, dst):
        d = self.frac[dst] - self.frac[src]
        d = d - np.round(d)
        return d @ self.matrix

    # -- chemistry --------------------------------------------------------
    def species(self, occ):
        out = []
        for i, o in enumerate(occ):
            if not (0 <= int(o) < len(self.allowed[i])):
                out.append(f"<invalid:{o}>")
            else:
                out.append(self.allowed[i][int(o)])
        return out

    def inventory(self, occ):
        inv: dict[str, int] = {}
        for s in self.species(occ):
            inv[s] = inv.get(s, 0) + 1
        return inv

    def direction(self, occ, e) -> int:
        a, b = e["m"]
        ca, cb = self.code_mobile[a], self.code_mobile[b]
        va, vb = self.code_vac[a], self.code_vac[b]
        if None in (ca, cb, va, vb):
            return 0
        if occ[a] == ca and occ[b] == vb:
            return 1
        if occ[a] == va and occ[b] == cb:
            return -1
        return 0

    def apply(self, occ, e):
        d = self.direction(occ, e)
        if d == 0:
            raise ValueError("reference applied an impossible event")
        src, dst = e["m"] if d == 1 else e["m"][::-1]
        new = list(occ)
        new[src] = self.code_vac[src]
        new[dst] = self.code_mobile[dst]
        return new, src, dst

    # -- rates ------------------------------------------------------------
    def rate(self, idx, occ) -> float:
        e = self.events[idx]
        idx = self.key_to_index[(tuple(e["m"]), tuple(e["env"]))]
        d = self.direction(occ, e)
        if d == 0:
            return 0.0
        m = self.w["model"]
        if m["kind"] == "composite":
            return self._composite_rate(m, idx, occ, d)
        if m["kind"] == "barrier":
            return self._barrier_rate(m, idx, occ)
        key = (idx,) + tuple(int(occ[i]) for i in self._canon[idx])
        hit = self._cache.get(key)
        if hit is not None:
            return hit
        if m["kind"] == "table":
            v = self._table_rate(m, idx, d, key)
        else:
            v = self._lce_rate(m, e, occ, d)
        self._cache[key] = v
        return v

    def _table_rate(self, m, idx, d, key):
        # the two orientations of one configuration keep detailed freedom
        if m["zero"] and _hash01(m["salt"] + 1, key) < m["zero"]:
            return 0.0
        return m["base"] * math.exp(-m["spread"] * _hash01(m["salt"], key))

    def _lce_rate(self, m, e, occ, d):
        local = [int(occ[i]) for i in e["env"]]
        en = lce_value(m["kra"], local)
        if m["site"] is not None:
            en += d * lce_value(m["site"], local) / 2.0
        return self.cfg["attempt_frequency"] * math.exp(
            -en / (KB_MEV * self.cfg["temperature"]))

    def _barrier_rate(self, m, idx, occ):
        e = self.events[idx]
        barrier = m["default"]
        for rule in m["rules"]:
            if self._rule_matches(rule, e, self._canon[idx], occ):
                barrier = rule["barrier"]
                break
        return self.cfg["attempt_frequency"] * math.exp(
            -barrier / (KB_MEV * self.cfg["temperature"]))

    def _rule_matches(self, rule, e, canonical, occ):
        t = rule["type"]
        if "mobile_ion_indices" in rule and list(rule["mobile_ion_indices"]) != list(e["m"]):
            return False
        if "local_env_indices" in rule and list(rule["local_env_indices"]) != list(e["env"]):
            return False
        if t == "exact":
            return [int(occ[i]) for i in canonical] == list(rule["occupations"])
        sites = rule.get("sites", "canonical" if t == "pattern" else "local_env")
        if isinstance(sites, str):
            sel = {"local_env": e["env"], "canonical": canonical,
                   "mobile_ion": e["m"], "from": e["m"][:1], "to": e["m"][1:],
                   "all": range(self.n)}[sites]
        else:
            sel = sites
        if t == "pattern":
            pat = rule["pattern"]
            if len(pat) != len(sel):
                return False
            return all(p == "*" or int(occ[i]) == p for p, i in zip(pat, sel))
        if t == "state_count":
            n = sum(1 for i in sel if int(occ[i]) == rule["state"])
        else:
            want = rule["species"]
            want = [want] if isinstance(want, str) else want
            n = sum(1 for i in sel if self.allowed[i][int(occ[i])] in want)
        if "count" in rule:
            return n == rule["count"]
        if "min_count" in rule and n < rule["min_count"]:
            return False
        if "max_count" in rule and n > rule["max_count"]:
            return False
        return True

    # external-evaluator energy: field on sites holding the mobile ion plus a
    # pair term between mobile ions on sites joined by an event
    def site_energy(self, occ):
        m = self.w["model"]
        mob = [self.code_mobile[i] is not None and int(occ[i]) == self.code_mobile[i]
               for i in range(self.n)]
        en = sum(f for f, on in zip(m["field"], mob) if on)
        for e in self.events:
            a, b = e["m"]
            if mob[a] and mob[b]:
                en += m["pair"]
        return en

    def _composite_rate(self, m, idx, occ, d):
        new, _, _ = self.apply(occ, self.events[idx])
        de = self.site_energy(new) - self.site_energy(occ)
        return self.cfg["attempt_frequency"] * math.exp(
            -(m["kra"] + de / 2.0) / (KB_MEV * self.cfg["temperature"]))

    def rates(self, occ):
        return [self.rate(i, occ) for i in range(len(self.events))]

    def total_rate(self, occ):
        return math.fsum(self.rates(occ))


# --------------------------------------------------------------------------
# real side
# --------------------------------------------------------------------------
class Built:
    """The real kMCpy objects of one world."""

    def __init__(self):
        self.structure = None
        self.order = None
        self.lookup = None
        self.lib = None
        self.config = None
        self.model = None
        self.state = None
        self.ref: RefWorld = None
        self.runtime = None

    def kmc(self, state=None, model=None, config=None):
        from kmcpy.simulator.kmc import KMC
        kw = {}
        if self.lookup is not None:
            kw = {"hop_state_lookup": self.lookup, "active_site_order": self.order}
        return KMC(structure=self.structure, model=model or self.model,
                   event_lib=self.lib, config=config or self.config,
                   simulation_state=state or self.state, **kw)


def make_config(w, name="sim", **over):
    from kmcpy.simulator.config import Configuration
    c = dict(w["cfg"])
    c.update(over)
    return Configuration(mobile_ion_specie=w["mobile"],
                         supercell_shape=tuple(w["shape"]), name=name, **c)


def build(w: dict, name="sim", model=None, with_deps=True) -> Built:
    from pymatgen.core import Lattice, Structure
    from kmcpy.event import Event, EventLib, HopStateLookup
    from kmcpy.simulator.state import State
    from kmcpy.structure.active_site_order import ActiveSiteOrder

    b = Built()
    b.ref = RefWorld(w)
    prim = Structure(Lattice.from_parameters(*w["lattice"]),
                     [s["sp"] for s in w["sites"]], [s["f"] for s in w["sites"]])
    mapping = {k: (list(v) if len(v) > 1 else v[0]) for k, v in w["mapping"].items()}
    b.order = ActiveSiteOrder.from_structure_and_mapping(
        prim, mapping, supercell_shape=w["shape"])
    b.structure = b.order.active_structure()
    b.ref.attach_coords(b.structure.frac_coords)
    if not w["bare"]:
        b.lookup = HopStateLookup.from_active_site_order(b.order, w["mobile"])
    b.lib = EventLib()
    for e in w["events"]:
        b.lib.add_event(Event(mobile_ion_indices=tuple(e["m"]),
                              local_env_indices=tuple(e["env"])))
    if with_deps:
        b.lib.generate_event_dependencies()
    b.config = make_config(w, name)
    b.state = State(occupations=list(w["occ"]))
    b.model = model if model is not None else make_model(w, b)
    return b


def make_model(w, b: Built):
    m = w["model"]
    if m["kind"] == "table":
        return make_table_model(b.ref)
    if m["kind"] == "barrier":
        return make_barrier(m, b)
    if m["kind"] == "lce":
        from kmcpy.models.composite_lce_model import CompositeLCEModel
        return CompositeLCEModel(
            kra_model=make_lce(m["kra"]),
            site_model=make_lce(m["site"]) if m["site"] is not None else None)
    if m["kind"] == "composite":
        return make_composite(w, b)
    raise ValueError(m["kind"])


def make_barrier(m, b: Built):
    """The real LocalBarrierModel, assembled through one of its interfaces."""
    from kmcpy.event import Event
    from kmcpy.models.local_barrier_model import LocalBarrierModel
    from kmcpy.simulator.state import State
    via, prop = m.get("via", "add"), m.get("prop", "barrier")

    def value(x):
        """The keys that say the barrier of a rule (or the default)."""
        if prop == "barrier":
            return {"barrier": x}
        return {"properties": {prop: x, "barrier": 1.0 + x / 2}}

    def word(v):
        return {0: "occupied", 1: "vacant"}.get(v, v) if m.get("words") else v

    rules = []
    for k, rule in enumerate(m["rules"]):
        rule = {key: copy.deepcopy(v) for key, v in rule.items() if key != "barrier"}
        rule.update(value(m["rules"][k]["barrier"]), name=f"r{k}")
        if "state" in rule:
            rule["state"] = word(rule["state"])
        if "pattern" in rule:
            rule["pattern"] = [word(v) for v in rule["pattern"]]
        rules.append(rule)
    default = value(m["default"])
    default = ({"default_barrier": default["barrier"]} if prop == "barrier"
               else {"default_properties": default["properties"]})
    species = {"site_species": {i: {s: lab for s, lab in enumerate(a)}
                                for i, a in enumerate(b.ref.allowed)}}
    chosen = {"probability_property": prop}
    if via == "list":
        return LocalBarrierModel(rules=rules, **default, **species, **chosen)
    if via == "build":
        model = LocalBarrierModel(rules=[{"barrier": 1.0}])
        model.build(rules=rules, **default, **species, **chosen)
        return model
    model = LocalBarrierModel(**default, **species, **chosen)
    for rule in rules:
        t = rule["type"]
        if via == "bare":
            del rule["type"]
        free = "mobile_ion_indices" not in rule and "local_env_indices" not in rule
        if via != "helpers":
            model.add_rule(rule)
        elif t == "exact" and len(model.rules) % 2:
            e = Event(mobile_ion_indices=tuple(rule["mobile_ion_indices"]),
                      local_env_indices=tuple(rule["local_env_indices"]))
            occ, order = [0] * b.ref.n, []
            for i in rule["mobile_ion_indices"] + rule["local_env_indices"]:
                if i not in order:
                    order.append(i)
            for i, v in zip(order, rule["occupations"]):
                occ[i] = v
            model.add_rule(LocalBarrierModel.entry_from_event_state(
                e, State(occupations=occ),
                rule.get("properties", {"barrier": rule.get("barrier")}), name=rule["name"]))
        elif t == "exact" or free:
            kw = {key: v for key, v in rule.items() if key != "type"}
            getattr(model, f"add_{t}_rule")(**kw)
        else:
            model.add_rule(rule)
    if via == "dict":
        return LocalBarrierModel.from_dict(model.as_dict())
    return model


def make_lce(spec):
    """The real LocalClusterExpansion, restored from a serialized payload."""
    from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
    lce = LocalClusterExpansion.from_dict({
        "name": "lce", "cluster_site_indices": spec["clusters"],
        "correlation_basis_indices": spec["basis"],
        "site_basis_values": spec["values"]})
    lce.set_parameters({"keci": spec["keci"], "empty_cluster": spec["empty"]})
    return lce


def table_model_class():
    """The stub rate model (a BaseModel subclass); defined lazily so that
    importing this module does not import kMCpy."""
    global _TABLE
    if _TABLE is None:
        from kmcpy.models.base import BaseModel

        class TableModel(BaseModel):
            """Simulated rate model: a seeded table over local configurations."""

            def __init__(self, ref):
                super().__init__(name="table")
                self.ref = ref
                self.hook = None

            def compute_probability(self, event, runtime_config, simulation_state):
                if self.hook is not None:
                    self.hook("compute", event, simulation_state)
                idx = self.ref.key_to_index[(tuple(event.mobile_ion_indices),
                                             tuple(event.local_env_indices))]
                return self.ref.rate(idx, simulation_state.occupations)

            def apply_event(self, *, event, simulation_state):
                if self.hook is not None:
                    self.hook("apply", event, simulation_state)

            def initialize_state(self, **kw):
                if self.hook is not None:
                    self.hook("init", None, kw.get("simulation_state"))

            def as_dict(self):
                return {}

            @classmethod
            def from_dict(cls, d):
                raise NotImplementedError

        _TABLE = TableModel
    return _TABLE


_TABLE = None


def make_table_model(ref):
    return table_model_class()(ref)


class Evaluator:
    """Simulated external energy code behind a SiteEnergyModel.

    It owns its occupation in *its* site order and state encoding and only
    learns about hops through apply_fn.
    """

    def __init__(self, w, b):
        self.w = w
        self.ref = b.ref
        self.m = w["model"]
        self.map = self.m["map"]
        self.hook = None
        self.ledger: list = []
        self.occ_ext: dict[int, object] | None = None

    # encoding -------------------------------------------------------------
    def ext_site(self, i):
        return self.map["sites"][i] if self.map["sites"] is not None else i

    def ext_value(self, i, state):
        if self.map["by_site"] is not None:
            return self.map["by_site"][i][state]
        if self.map["states"] is not None:
            return self.map["states"][state]
        return state

    def expected(self, occ):
        return {self.ext_site(i): self.ext_value(i, int(o)) for i, o in enumerate(occ)}

    # callbacks --------------------------------------------------------------
    def compute(self, runtime, external_occupation, changes, event, simulation_state):
        if self.hook is not None:
            self.hook("compute", event, simulation_state, external_occupation, changes)
        occ = simulation_state.occupations
        idx = self.ref.key_to_index[(tuple(event.mobile_ion_indices),
                                     tuple(event.local_env_indices))]
        if self.ref.direction(occ, self.ref.events[idx]) == 0:
            return 0.0  # no such hop now; whatever is answered must not matter
        new, _, _ = self.ref.apply(occ, self.ref.events[idx])
        de = self.ref.site_energy(new) - self.ref.site_energy(occ)
        return de if self.m["units"] == "meV" else de / 1000.0

    def apply(self, runtime, external_occupation, changes, event, simulation_state):
        if self.hook is not None:
            self.hook("apply", event, simulation_state, external_occupation, changes)


def make_composite(w, b: Built):
    from kmcpy.models.composite_lce_model import CompositeLCEModel
    from kmcpy.models.site_energy import SiteEnergyModel
    m = w["model"]
    ev = Evaluator(w, b)
    b.runtime = ev
    mp = m["map"]
    kw = {}
    if mp["sites"] is not None:
        kw["site_mapping"] = list(mp["sites"])
    if mp["states"] is not None:
        kw["state_mapping"] = list(mp["states"])
    if mp["by_site"] is not None:
        kw["state_mapping_by_site"] = [list(v) for v in mp["by_site"]]
    if mp["size"] is not None:
        kw["external_size"] = mp["size"]
    if mp["initial"] is not None:
        fill = "z" if mp["dtype"] == "object" else (9.0 if mp["dtype"] == "float" else 9)
        kw["initial_occupation"] = [fill] * mp["initial"]
    if mp["dtype"] is not None:
        kw["external_dtype"] = mp["dtype"]
    elif mp["states"] is not None and isinstance(mp["states"][0], str):
        kw["external_fill_value"] = "z"

    def compute_fn(runtime, external_occupation, changes, event, simulation_state):
        return runtime.compute(runtime, external_occupation, changes, event, simulation_state)

    def apply_fn(runtime, external_occupation, changes, event, simulation_state):
        return runtime.apply(runtime, external_occupation, changes, event, simulation_state)

    site = SiteEnergyModel(compute_fn=compute_fn, apply_fn=apply_fn, runtime=ev,
                           units=m["units"], **kw)
    b.site_model = site
    return CompositeLCEModel(site_model=site, kra_model=constant_kra(m["kra"]))


_KRA = None


def constant_kra(value):
    """A LocalClusterExpansion whose cluster sum is empty: E_KRA = constant.
    (The real CompositeLCEModel insists on a LocalClusterExpansion.)"""
    global _KRA
    if _KRA is None:
        from kmcpy.models.local_cluster_expansion import LocalClusterExpansion

        class ConstantKRA(LocalClusterExpansion):
            def __init__(self, value):
                self.value = value
                self.name = "constant"

            def compute(self, simulation_state=None, event=None, **kw):
                return self.value

        _KRA = ConstantKRA
    return _KRA(value)
