"""Importable callables that saved artifacts refer to by name."""
from __future__ import annotations


def site_energy(external_occupation, changes, event, simulation_state, scale=1.0):
    """A deterministic energy change of the mapped values."""
    tot = 0.0
    for c in changes:
        tot += scale * (weight(c.new_value) - weight(c.old_value)) * (1 + c.external_site % 3)
    return tot


def weight(v):
    if isinstance(v, str):
        return float(sum(v.encode()) % 17)
    return float(v)


def on_apply(runtime, external_occupation, changes, event, simulation_state, **kw):
    return None


def engine(level=1):
    return {"level": level}


def observe(state, step, time):
    return float(step)


def trace(state, step, time):
    """Everything a user can see at one step."""
    return [int(step), float(time)] + [int(o) for o in state.occupations]
