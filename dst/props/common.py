"""Helpers shared by the property modules."""
from __future__ import annotations

import copy
import os
import random

import numpy as np

from ..core import Violation, rng_for
from .. import world as W
from ..ref import Checker, Draws


def warm_jit(path):
    """Compile every jitted kernel once in the parent process."""
    os.makedirs(path, exist_ok=True)
    old = os.getcwd()
    os.chdir(path)
    try:
        for kind in ("table", "lce"):
            w = W.gen_world(random.Random("warm" + kind), model=kind, bare=0.0, rare_zero=False)
            w["cfg"]["kmc_passes"] = 1
            b = W.build(w)
            try:
                b.kmc().run()
            except Exception:
                pass
    finally:
        os.chdir(old)


class Recorder:
    """Attached with interval=1: sees every production step from outside."""

    def __init__(self, on_step=None):
        self.rows = []
        self.on_step = on_step

    def __call__(self, state, step, time):
        self.rows.append((tuple(int(o) for o in state.occupations), int(step), float(time)))
        if self.on_step is not None:
            self.on_step(len(self.rows), state, step, time)
        return None


def same(a, b, rtol=1e-9, atol=0.0):
    """Equality of numbers where nan equals nan."""
    a, b = float(a), float(b)
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


# -- shrinking -------------------------------------------------------------------
def shrink_world(w):
    """Smaller worlds, most effective first."""
    c = w["cfg"]
    for key, lo in (("kmc_passes", 1), ("equilibration_passes", 0)):
        if c[key] > lo:
            for v in sorted({lo, c[key] // 2, c[key] - 1}):
                if lo <= v < c[key]:
                    n = copy.deepcopy(w)
                    n["cfg"][key] = v
                    yield n
    ev = w["events"]
    if len(ev) > 1:
        step = max(1, len(ev) // 2)
        while step >= 1:
            for i in range(0, len(ev), step):
                n = copy.deepcopy(w)
                n["events"] = ev[:i] + ev[i + step:]
                if n["events"]:
                    yield n
            if step == 1:
                break
            step //= 2
    if w["model"]["kind"] not in ("lce", "composite"):
        for i, e in enumerate(ev):
            if e["env"]:
                n = copy.deepcopy(w)
                n["events"][i]["env"] = []
                yield n
                if len(e["env"]) > 1:
                    for k in range(len(e["env"])):
                        n = copy.deepcopy(w)
                        del n["events"][i]["env"][k]
                        yield n
    m = w["model"]
    if m["kind"] == "barrier":
        for i in range(len(m["rules"])):
            n = copy.deepcopy(w)
            del n["model"]["rules"][i]
            yield n
    if m["kind"] == "table" and m.get("zero"):
        n = copy.deepcopy(w)
        n["model"]["zero"] = 0.0
        yield n


def shrink_list(scenario, key):
    items = scenario.get(key) or []
    step = max(1, len(items) // 2)
    while items and step >= 1:
        for i in range(0, len(items), step):
            n = copy.deepcopy(scenario)
            n[key] = items[:i] + items[i + step:]
            yield n
        if step == 1:
            break
        step //= 2


def shrink_with_world(scenario, *lists):
    for key in lists:
        yield from shrink_list(scenario, key)
    for w in shrink_world(scenario["world"]):
        n = copy.deepcopy(scenario)
        n["world"] = w
        yield n


# -- draw injection -----------------------------------------------------------------
_MUL = 0x2360ED051FC65DA44385DF649FCCF645
_MASK = (1 << 128) - 1
_INV = pow(_MUL, -1, 1 << 128)


def craft_pcg(bitgen, u):
    """Set a PCG64 so that its next double is u (a multiple of 2**-53)."""
    st = bitgen.state
    if st.get("bit_generator") != "PCG64":
        return False
    inc = st["state"]["inc"]
    out = (int(u * (1 << 53)) << 11) & ((1 << 64) - 1)
    # numpy steps the LCG and then outputs rotr(hi ^ lo, hi >> 58); hi = 0 keeps lo
    target = out
    st["state"]["state"] = ((target - inc) * _INV) & _MASK
    st["has_uint32"] = 0
    st["uinteger"] = 0
    bitgen.state = st
    return True


class DrawTap:
    """Stands in for numpy.random.default_rng while a run starts: the returned
    generator is the real one, and the simulator keeps a handle to it."""

    def __init__(self):
        self.made = []

    def __enter__(self):
        self._old = np.random.default_rng

        def tapped(*a, **k):
            g = self._old(*a, **k)
            self.made.append(g)
            return g

        np.random.default_rng = tapped
        return self

    def __exit__(self, *exc):
        np.random.default_rng = self._old
        return False
