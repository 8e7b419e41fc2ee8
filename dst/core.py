"""Shared types of the simulator: violations, run context, seeded choice."""
from __future__ import annotations

import hashlib
import json
import random


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, kind: str, detail: str):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The machinery (not the code under test) is wrong."""


class SkipRun(Exception):
    """The scenario is not decidable (e.g. a draw on a rounding boundary)."""


class InjectedFault(Exception):
    """Raised by simulated peers (callbacks, evaluators) on the simulator's order."""


class InjectedInterrupt(KeyboardInterrupt):
    """Simulated Ctrl-C delivered at a simulator-chosen point."""


def rng_for(seed: int, *parts) -> random.Random:
    """One PRNG per (seed, purpose); string seeding is hash-seed independent."""
    return random.Random("|".join([str(seed)] + [str(p) for p in parts]))


def canon(obj) -> str:
    return json.dumps(obj, sort_keys=True, separators=(",", ":"), default=str)


class Ctx:
    """Everything one simulated run records about itself."""

    def __init__(self, scratch: str, keep_log: bool = False):
        self.scratch = scratch
        self._h = hashlib.sha256()
        self.keep_log = keep_log
        self.lines: list[str] = []
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.states: set[int] = set()
        self.interleaving = hashlib.sha256()
        self.switches = 0
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False

    def log(self, *items) -> None:
        line = " ".join(i if isinstance(i, str) else repr(i) for i in items)
        self._h.update(line.encode() + b"\n")
        if self.keep_log:
            self.lines.append(line)

    def fault(self, kind: str, n: int = 1) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind: str, n: int = 1) -> None:
        self.probes[kind] = self.probes.get(kind, 0) + n

    def state(self, *key) -> None:
        digest = hashlib.blake2b(repr(key).encode(), digest_size=6).digest()
        self.states.add(int.from_bytes(digest, "big"))

    def turn(self, who) -> None:
        self.interleaving.update(repr(who).encode() + b";")
        self.switches += 1

    @property
    def digest(self) -> str:
        return self._h.hexdigest()[:24]
