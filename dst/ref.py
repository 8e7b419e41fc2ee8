"""Reference kinetic Monte Carlo: small, slow, written from the algorithm.

`Checker` follows one real simulation step by step.  It knows the seed, so it
knows both uniform draws of every step; it never reads the cached rates of the
code under test, it only sees the occupations and the clock.
"""
from __future__ import annotations

import math

import numpy as np

from .core import SkipRun, Violation

AMBIG = 1e-9     # relative width of a selection boundary that we do not judge
DT_RTOL = 1e-8


class Draws:
    """The two draws per step: event choice first, waiting time second."""

    def __init__(self, seed_or_gen):
        if isinstance(seed_or_gen, np.random.Generator):
            self.g = seed_or_gen
        else:
            self.g = np.random.default_rng(seed_or_gen)

    def pair(self):
        u1 = float(self.g.random())
        u2 = float(self.g.random())
        return u1, u2


def pick(rates, u1):
    """Return (index, ambiguous) of the event owning u1 in [0, R)."""
    total = math.fsum(rates)
    if not total > 0:
        return None, False
    target = u1 * total
    acc = 0.0
    chosen = None
    amb = False
    for i, k in enumerate(rates):
        lo = acc
        acc += k
        if k > 0 and lo <= target < acc:
            chosen = i
        if k > 0 and (abs(target - acc) < AMBIG * total) and 0 < u1 < 1 - AMBIG:
            amb = True
    if chosen is None:  # u1 at the upper end after rounding
        chosen = max(i for i, k in enumerate(rates) if k > 0)
    return chosen, amb


def owns(rates, i, u1):
    """Does event i own u1 up to rounding?"""
    if not rates[i] > 0:
        return False
    total = math.fsum(rates)
    lo = math.fsum(rates[:i]) / total
    hi = math.fsum(rates[:i + 1]) / total
    return lo - AMBIG <= u1 <= hi + AMBIG


class Checker:
    """Refinement check of one run against the reference process."""

    def __init__(self, ref, occ, draws: Draws, time=0.0, rate_fn=None):
        self.ref = ref
        self.occ = list(int(o) for o in occ)
        self.time = float(time)
        self.draws = draws
        self.rate_fn = rate_fn or ref.rates
        self.inv0 = ref.inventory(self.occ)
        # ion identities, indexed by the order of the mobile sites
        self.restart_tracking()
        self.n_steps = 0

    def restart_tracking(self):
        ref = self.ref
        self.loc = [i for i in range(ref.n)
                    if ref.code_mobile[i] is not None and self.occ[i] == ref.code_mobile[i]]
        self.disp = np.zeros((len(self.loc), 3))
        self.hops = np.zeros(len(self.loc), dtype=int)
        self.t0 = self.time

    def _move(self, src, dst):
        k = self.loc.index(src)
        self.loc[k] = dst
        self.disp[k] += self.ref.hop_vector(src, dst)
        self.hops[k] += 1

    def equilibrate(self, n):
        """Run n reference steps the observer cannot see (time stands still)."""
        self.eq_states = [tuple(self.occ)]
        for _ in range(n):
            u1, _ = self.draws.pair()
            rates = self.rate_fn(self.occ)
            i, amb = pick(rates, u1)
            if i is None:
                return False
            if amb:
                raise SkipRun("selection boundary during equilibration")
            self.occ, _, _ = self.ref.apply(self.occ, self.ref.events[i])
            self.eq_states.append(tuple(self.occ))
        self.restart_tracking()
        return True

    def peek(self):
        """(occupations, time) after the next step, without taking it; None if
        no event is possible."""
        saved = self.draws.g.bit_generator.state
        u1, u2 = self.draws.pair()
        self.draws.g.bit_generator.state = saved
        rates = self.rate_fn(self.occ)
        total = math.fsum(rates)
        if not total > 0:
            return []
        out = []
        for j in range(len(rates)):
            if owns(rates, j, u1):
                occ, _, _ = self.ref.apply(self.occ, self.ref.events[j])
                out.append((tuple(occ), self.time + (-math.log(u2) / total if u2 > 0 else math.inf)))
        return out

    def dead(self):
        return not math.fsum(self.rate_fn(self.occ)) > 0

    def step(self, occ_after, time_after, strict_time=True):
        """Judge one observed production step."""
        u1, u2 = self.draws.pair()
        rates = self.rate_fn(self.occ)
        total = math.fsum(rates)
        where = f"step {self.n_steps + 1}"
        if not total > 0:
            raise Violation("step-from-dead-state", f"{where}: no event is possible but the run went on")
        i, _ = pick(rates, u1)
        want, src, dst = self.ref.apply(self.occ, self.ref.events[i])
        occ_after = [int(o) for o in occ_after]
        if want != occ_after:
            # rounding at an interval edge, or two events with the same effect
            ok = False
            for j in range(len(rates)):
                if owns(rates, j, u1):
                    alt, s2, d2 = self.ref.apply(self.occ, self.ref.events[j])
                    if alt == occ_after:
                        ok, want, src, dst = True, alt, s2, d2
                        break
            if not ok:
                raise Violation("wrong-event", (
                    f"{where}: u1={u1!r} selects event {i} {self.ref.events[i]['m']} "
                    f"({self.ref.species(self.occ)} -> {self.ref.species(want)}), "
                    f"observed {self.ref.species(occ_after)}"))
        dt = -math.log(u2) / total if u2 > 0 else math.inf
        expect = self.time + dt
        tol = DT_RTOL * dt + 4e-15 * abs(expect)
        if strict_time and not abs(time_after - expect) <= tol:
            raise Violation("wrong-dt", (
                f"{where}: u2={u2!r} with total rate {total!r} gives dt={dt!r}, "
                f"observed {time_after - self.time!r}"))
        self._move(src, dst)
        self.occ = occ_after
        self.time = float(time_after)
        self.n_steps += 1
        return src, dst

    # -- transport metrics --------------------------------------------------
    def metrics(self, elapsed=None):
        c = self.ref.cfg
        n = len(self.loc)
        t = (self.time - self.t0) if elapsed is None else elapsed
        d2 = np.sum(self.disp ** 2, axis=1)
        msd = float(np.mean(d2)) if n else float("nan")
        nan = float("nan")
        out = {"msd": msd, "jump_diffusivity": nan, "tracer_diffusivity": nan,
               "conductivity": nan, "havens_ratio": nan, "correlation_factor": nan}
        if t > 0 and n:
            tot = np.sum(self.disp, axis=0)
            dj = float(tot @ tot) / (2 * c["dimension"] * t * n) * 1e-16
            dtr = msd / (2 * c["dimension"] * t) * 1e-16
            out["jump_diffusivity"] = dj
            out["tracer_diffusivity"] = dtr
            # sigma = D n q^2 / kT, SI -> mS/cm
            e = 1.602176634e-19
            kb = 1.380649e-23
            carrier = n / self.ref.volume * 1e24  # per cm^3
            out["conductivity"] = (dj * carrier * (c["mobile_ion_charge"] * e) ** 2
                                   / (kb * c["temperature"])) * 1e3
            if dj != 0:
                out["havens_ratio"] = dtr / dj
        if n:
            f = [d / (h * c["elementary_hop_distance"] ** 2) if h else 0.0
                 for d, h in zip(d2, self.hops)]
            out["correlation_factor"] = float(np.mean(f))
        return out


class Follower:
    """Follows a run by its occupations alone: what moved, where, how far.

    Knows nothing of rates or draws; used for conservation and accounting.
    """

    def __init__(self, ref, occ, time, step):
        self.ref = ref
        self.inv = ref.inventory(occ)
        self.pairs = {tuple(sorted(e["m"])) for e in ref.events}
        self.metrics_ck = None
        self.start(occ, time, step)

    def start(self, occ, time, step):
        self.occ = tuple(int(o) for o in occ)
        self.time, self.step_no = float(time), int(step)
        self.t0 = self.time
        ref = self.ref
        self.loc = [i for i in range(ref.n)
                    if ref.code_mobile[i] is not None and self.occ[i] == ref.code_mobile[i]]
        self.disp = np.zeros((len(self.loc), 3))
        self.hops = np.zeros(len(self.loc), dtype=int)
        self.ties = {}  # net passages of each ion over hops of exactly half a cell

    def other_images(self, disp):
        """Is `disp` right for another choice of minimum images?  A hop of half a
        cell has two; either will do if there and back cancel."""
        ref = self.ref
        diff = (np.asarray(disp, float) - self.disp) @ np.linalg.inv(ref.matrix)
        if diff.size == 0 or np.max(np.abs(diff - np.round(diff))) > 1e-6:
            return False
        for axis in range(3):
            cols = []
            for (a, b), net in self.ties.items():
                v = ref.frac[b] - ref.frac[a]
                v = v - np.round(v)
                if abs(abs(v[axis]) - 0.5) < 1e-9:
                    cols.append(-np.sign(v[axis]) * net)
            want = np.round(diff[:, axis])
            if not cols:
                if np.any(want):
                    return False
                continue
            if len(cols) > 12:
                if np.any(np.abs(want) > np.sum(np.abs(cols), axis=0)):
                    return False
                continue
            m = np.array(cols).T
            bits = (np.arange(2 ** len(cols))[:, None] >> np.arange(len(cols))) & 1
            if not np.any(np.all(bits @ m.T == want, axis=1)):
                return False
        return True

    def valid(self, occ, where):
        sp = self.ref.species(occ)
        bad = [i for i, x in enumerate(sp) if x.startswith("<invalid")]
        if bad:
            raise Violation("invalid-state", f"{where}: site {bad[0]} holds state {occ[bad[0]]}, allowed {self.ref.allowed[bad[0]]}")
        inv = self.ref.inventory(occ)
        if inv != self.inv:
            raise Violation("inventory-changed", f"{where}: {self.inv} became {inv}")

    def hop(self, occ, where):
        """The single hop that turns the last seen occupations into `occ`."""
        occ = tuple(int(o) for o in occ)
        self.valid(occ, where)
        diff = [i for i in range(self.ref.n) if occ[i] != self.occ[i]]
        old, new = self.ref.species(self.occ), self.ref.species(occ)
        mob = self.ref.mobile
        src = [i for i in diff if old[i] == mob and new[i] == "X"]
        dst = [i for i in diff if old[i] == "X" and new[i] == mob]
        if len(diff) != 2 or len(src) != 1 or len(dst) != 1:
            raise Violation("not-one-hop", f"{where}: sites {diff} changed from {[old[i] for i in diff]} to {[new[i] for i in diff]}")
        if tuple(sorted((src[0], dst[0]))) not in self.pairs:
            raise Violation("hop-without-event", f"{where}: no event joins sites {src[0]} and {dst[0]}")
        return src[0], dst[0]

    def step(self, occ, time, step):
        where = f"step {step}"
        src, dst = self.hop(occ, where)
        if step != self.step_no + 1:
            raise Violation("step-counter", f"step counter went from {self.step_no} to {step}")
        if not (math.isfinite(time) and time >= self.time):
            raise Violation("clock", f"{where}: time went from {self.time!r} to {time!r}")
        k = self.loc.index(src)
        self.loc[k] = dst
        self.disp[k] += self.ref.hop_vector(src, dst)
        self.hops[k] += 1
        if self.ref.tied(src, dst):
            net = self.ties.setdefault((min(src, dst), max(src, dst)), np.zeros(len(self.loc), dtype=int))
            net[k] += 1 if src < dst else -1
        self.occ = tuple(int(o) for o in occ)
        self.time, self.step_no = float(time), int(step)
        return src, dst

    metrics = Checker.metrics
