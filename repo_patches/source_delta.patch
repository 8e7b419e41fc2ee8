From 28c1fa8e01595c13aa47d41d20a66da9a9c07113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 01/29] fix: re-encode ion and vacancy states when a hop joins
 sites with different allowed-species lists

State.apply_event and SiteEnergyModel swapped raw state codes, which are
indices into each site's own allowed-species list. A hop between two
sublattices with different lists created or destroyed ions.
---
 kmcpy/event/__init__.py     |  2 ++
 kmcpy/event/hop.py          | 20 ++++++++++++++++++++
 kmcpy/models/site_energy.py | 12 ++++++++----
 kmcpy/simulator/state.py    |  6 ++++--
 4 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/kmcpy/event/__init__.py b/kmcpy/event/__init__.py
index 92a488a..f6f0527 100644
--- a/kmcpy/event/__init__.py
+++ b/kmcpy/event/__init__.py
@@ -11,6 +11,7 @@ from .hop import (
     INVALID_STATE,
     endpoint_direction_from_codes,
     event_direction,
+    states_after_hop,
 )
 
 
@@ -22,4 +23,5 @@ __all__ = [
     'INVALID_STATE',
     'endpoint_direction_from_codes',
     'event_direction',
+    'states_after_hop',
 ]
diff --git a/kmcpy/event/hop.py b/kmcpy/event/hop.py
index a5d2c18..cc1b6b7 100644
--- a/kmcpy/event/hop.py
+++ b/kmcpy/event/hop.py
@@ -82,6 +82,9 @@ def endpoint_direction_from_codes(
     codes: tuple[int, int, int, int],
 ) -> int:
     """Return direction from endpoint states and precomputed hop state codes."""
+    if INVALID_STATE in codes:
+        # An endpoint that cannot hold both the ion and the vacancy.
+        return 0
     if from_occ == codes[0] and to_occ == codes[1]:
         return 1
     if from_occ == codes[2] and to_occ == codes[3]:
@@ -89,6 +92,23 @@ def endpoint_direction_from_codes(
     return 0
 
 
+def states_after_hop(from_occ: int, to_occ: int, event: Any) -> tuple[int, int]:
+    """Return the endpoint states ``(from, to)`` after a hop along ``event``.
+
+    State codes are indices into each site's own allowed-species list, so the
+    moving ion and the vacancy have to be re-encoded for the site they end on.
+    Endpoint states that do not form a mobile-ion/vacancy pair are exchanged.
+    The mapping is its own inverse.
+    """
+    codes = getattr(event, "hop_state_codes", DEFAULT_HOP_STATE_CODES)
+    direction = endpoint_direction_from_codes(int(from_occ), int(to_occ), codes)
+    if direction == 1:
+        return codes[2], codes[3]
+    if direction == -1:
+        return codes[0], codes[1]
+    return to_occ, from_occ
+
+
 def _is_mobile_label(specie_label: str, mobile_ion_specie: str) -> bool:
     return str(specie_label) == str(mobile_ion_specie)
 
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..fe0bd6a 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,6 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
+from kmcpy.event.hop import states_after_hop
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -310,10 +311,11 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        new_from_state, new_to_state = states_after_hop(from_state, to_state, event)
         return self._mapped_changes(
             (
-                (from_site, from_state, to_state),
-                (to_site, to_state, from_state),
+                (from_site, from_state, new_from_state),
+                (to_site, to_state, new_to_state),
             )
         )
 
@@ -321,10 +323,12 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        # A hop is its own inverse: undoing it recovers the pre-event states.
+        old_from_state, old_to_state = states_after_hop(from_state, to_state, event)
         return self._mapped_changes(
             (
-                (from_site, to_state, from_state),
-                (to_site, from_state, to_state),
+                (from_site, old_from_state, from_state),
+                (to_site, old_to_state, to_state),
             )
         )
 
diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index cb1f52f..83491b6 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -12,6 +12,7 @@ from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
 from ..event.base import Event
+from ..event.hop import states_after_hop
 
 logger = logging.getLogger(__name__)
 
@@ -147,9 +148,10 @@ class State(MSONable):
     def apply_event(self, event: Event, dt: float) -> None:
         """Apply one event transition and advance simulation counters."""
         from_site, to_site = event.mobile_ion_indices
-        self.occupations[from_site], self.occupations[to_site] = (
-            self.occupations[to_site],
+        self.occupations[from_site], self.occupations[to_site] = states_after_hop(
             self.occupations[from_site],
+            self.occupations[to_site],
+            event,
         )
         self.time += dt
         self.step += 1
-- 
2.43.0


From e7f97dfac5af77c94441f29edb3411563ac77c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:11 +0000
Subject: [PATCH 02/29] fix: regenerate missing or outdated event dependencies
 instead of leaving rates stale

---
 kmcpy/event/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index a93822e..ed49e70 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -269,9 +269,12 @@ class EventLib(ABC):
         Returns:
             list: List of event indices that depend on the given event.
         """
-        if self.event_dependencies is None:
-            logger.warning("Event dependencies not generated. Call generate_event_dependencies() first.")
-            return []
+        if (
+            self.event_dependencies is None
+            or len(self.event_dependencies) != len(self.events)
+        ):
+            logger.warning("Event dependencies are missing or out of date; generating them.")
+            self.generate_event_dependencies()
 
         if event_index >= len(self.event_dependencies):
             logger.error("Event index %d out of range", event_index)
-- 
2.43.0


From 78331d84db264763e8537bcbcc617759ce0a3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:03 +0000
Subject: [PATCH 03/29] fix: refresh every rate when local-barrier rules read
 sites outside the event

---
 kmcpy/models/base.py                | 9 +++++++++
 kmcpy/models/local_barrier_model.py | 7 +++++++
 kmcpy/simulator/kmc.py              | 6 +++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/base.py b/kmcpy/models/base.py
index 6c74936..237a64c 100644
--- a/kmcpy/models/base.py
+++ b/kmcpy/models/base.py
@@ -100,6 +100,15 @@ class BaseModel(MSONable, ABC):
         """
         return None
 
+    def rates_need_full_refresh(self) -> bool:
+        """Return whether an event rate may depend on sites outside the event.
+
+        KMC normally refreshes only the events that share a site with the
+        executed event. Models that read other sites must return ``True`` so
+        that every rate is refreshed after each hop.
+        """
+        return False
+
     def apply_event(self, *, event, simulation_state) -> None:
         """Commit an accepted event to optional model-side state.
 
diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 58e1760..3e920fd 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -552,6 +552,13 @@ class LocalBarrierModel(BaseModel):
         if rules is not None:
             self.build(rules=rules)
 
+    def rates_need_full_refresh(self) -> bool:
+        """Return True when a rule selects sites independently of the event."""
+        return any(
+            rule.get("sites") == "all" or isinstance(rule.get("sites"), tuple)
+            for rule in self.rules
+        )
+
     def fit(self, *args, **kwargs):
         """Local barrier rules are defined explicitly, not fitted."""
         raise NotImplementedError(
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..09bcd82 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -443,7 +443,11 @@ class KMC:
         event_index = self.event_lib.events.index(event)
         
         # Use EventLib to get dependent events
-        events_to_be_updated = self.event_lib.get_dependent_events(event_index)
+        needs_full_refresh = getattr(self.model, "rates_need_full_refresh", None)
+        if callable(needs_full_refresh) and needs_full_refresh() is True:
+            events_to_be_updated = range(len(self.event_lib.events))
+        else:
+            events_to_be_updated = self.event_lib.get_dependent_events(event_index)
         
         # Update probabilities for dependent events using configured model
         for e_index in events_to_be_updated:
-- 
2.43.0


From 8dccf066e01ea6974ed94d05534eed9556cb1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 04/29] fix: divide transport averages by the time the tracker
 observed, not the absolute clock

---
 kmcpy/simulator/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..51a5c7e 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -94,6 +94,8 @@ class Tracker:
         self.structure = structure
         self.state = initial_state
         self.hop_state_lookup = hop_state_lookup
+        # Trajectories start now; the shared state may carry time from earlier runs.
+        self.start_time = float(initial_state.time)
 
         self._initialize_mobile_ion_tracking(initial_state.occupations)
 
@@ -318,7 +320,7 @@ class Tracker:
         return compute_transport_properties(
             self.displacement,
             self.hop_counter,
-            sim_time=float(self.time),
+            sim_time=float(self.time) - self.start_time,
             dimension=self.dimension,
             n_mobile_ion_specie=self.n_mobile_ion_specie,
             elementary_hop_distance=self.elem_hop_distance,
-- 
2.43.0


From 263ced6805d832003b7a799091d0b2198605f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:09 +0000
Subject: [PATCH 05/29] fix: rebuild model state and rates after an update that
 did not complete

---
 kmcpy/simulator/kmc.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 09bcd82..cd3c052 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -108,18 +108,7 @@ class KMC:
 
         # Calculate initial probabilities from runtime configuration and state.
         logger.info("Initializing probabilities...")
-        
-        # Calculate probabilities for all events using configured model
-        self.prob_list = np.empty(len(self.event_lib), dtype=np.float64)
-        for i, event in enumerate(self.event_lib.events):
-            self.prob_list[i] = self.model.compute_probability(
-                event=event,
-                runtime_config=self.config.runtime_config,
-                simulation_state=self.simulation_state
-            )
-        
-        self.prob_cum_list = np.empty(len(self.event_lib), dtype=np.float64)
-        np.cumsum(self.prob_list, out=self.prob_cum_list)
+        self._initialize_probabilities()
         
         logger.info(f"Event dependency matrix with {len(self.event_lib)} events")
         logger.info(f"Hopping probabilities: {self.prob_list}")
@@ -151,6 +140,26 @@ class KMC:
                 kwargs["active_site_order"] = self.active_site_order
             initialize_state(**kwargs)
 
+    def _initialize_probabilities(self) -> None:
+        """Calculate the rates of all events from the current state."""
+        self.prob_list = np.empty(len(self.event_lib), dtype=np.float64)
+        for i, event in enumerate(self.event_lib.events):
+            self.prob_list[i] = self.model.compute_probability(
+                event=event,
+                runtime_config=self.config.runtime_config,
+                simulation_state=self.simulation_state
+            )
+
+        self.prob_cum_list = np.empty(len(self.event_lib), dtype=np.float64)
+        np.cumsum(self.prob_list, out=self.prob_cum_list)
+        self._update_incomplete = False
+
+    def _recover_from_incomplete_update(self) -> None:
+        """Rebuild model state and rates if an earlier update was interrupted."""
+        if getattr(self, "_update_incomplete", False):
+            self._initialize_model_state()
+            self._initialize_probabilities()
+
     def _apply_model_event(self, event: Event) -> None:
         """Let stateful models commit an accepted event after State updates."""
         apply_event = getattr(self.model, "apply_event", None)
@@ -407,6 +416,7 @@ class KMC:
         Returns:
             tuple[Event, float, int]: The chosen event, the time for this event to occur, and the event index.
         """
+        self._recover_from_incomplete_update()
         proposed_event_index, dt = _propose(prob_cum_list=self.prob_cum_list, rng=self.rng)
         event = events[proposed_event_index]
         return event, dt
@@ -433,6 +443,8 @@ class KMC:
         Side Effects:
             Modifies occupation state and probability lists via State delegation.
         """
+        self._recover_from_incomplete_update()
+        self._update_incomplete = True
         self.simulation_state.apply_event(event, dt)
 
         # Keep optional model-side state, such as external CE occupancy caches,
@@ -458,6 +470,7 @@ class KMC:
                 simulation_state=self.simulation_state
             )
         self.prob_cum_list = np.cumsum(self.prob_list)
+        self._update_incomplete = False
 
     def run(self, label: str = None) -> Tracker:
         """Run KMC simulation using this instance's Configuration object.
-- 
2.43.0


From b022e6a2022ebca850bbde9cdecda27ba78efdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:48 +0000
Subject: [PATCH 06/29] fix: honour callbacks that detach properties during
 sampling

---
 kmcpy/simulator/tracker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 51a5c7e..5e2f868 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -382,7 +382,8 @@ class Tracker:
         self._sample_transport_summary(step=step, sim_time=sim_time)
 
         for spec in list(self._properties.values()):
-            if not spec.enabled:
+            # Callbacks may detach properties while a sample is being taken.
+            if self._properties.get(spec.name) is not spec or not spec.enabled:
                 continue
 
             interval = spec.interval if spec.interval is not None else self._global_interval
@@ -409,7 +410,7 @@ class Tracker:
                 spec.last_trigger_time = sim_time
                 continue
 
-            if spec.store:
+            if spec.store and self._properties.get(spec.name) is spec:
                 append_record(
                     records=self._property_records[spec.name],
                     spec=spec,
-- 
2.43.0


From a91aedb26fc95286b157366d7192f73e727ecd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:48 +0000
Subject: [PATCH 07/29] fix: stop property controls from altering the records
 of a finished run

---
 kmcpy/simulator/kmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index cd3c052..9897f39 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -567,6 +567,8 @@ class KMC:
             tracker.show_current_info()
 
         tracker.write_results(label=label)
+        # The run is over: later attach/detach calls must not alter its records.
+        self._active_tracker = None
         return tracker
 
 @njit
-- 
2.43.0


From 1f369e41fca0a1e530bafce8cc1fab37cd0422c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:25 +0000
Subject: [PATCH 08/29] fix: replace checkpoints atomically so an interrupted
 save keeps the previous one

---
 kmcpy/atomic.py          | 61 ++++++++++++++++++++++++++++++++++++++++
 kmcpy/simulator/state.py | 16 ++++++-----
 2 files changed, 70 insertions(+), 7 deletions(-)
 create mode 100644 kmcpy/atomic.py

diff --git a/kmcpy/atomic.py b/kmcpy/atomic.py
new file mode 100644
index 0000000..9a3dc0a
--- /dev/null
+++ b/kmcpy/atomic.py
@@ -0,0 +1,61 @@
+"""Atomic file replacement for saved kMCpy artifacts."""
+
+from __future__ import annotations
+
+import os
+import shutil
+from contextlib import contextmanager, suppress
+from pathlib import Path
+from typing import Iterator
+from uuid import uuid4
+
+from monty.serialization import dumpfn
+
+
+@contextmanager
+def atomic_path(filename: str | Path) -> Iterator[Path]:
+    """Yield a temporary path whose content replaces ``filename`` on success.
+
+    The temporary file lives next to the target and keeps its name as a suffix,
+    so writers that detect the format from the name behave the same. Whatever
+    interrupts the write, ``filename`` holds its previous or its new content.
+    """
+    target = Path(os.path.realpath(filename))
+    if target.exists() and not target.is_file():
+        # Devices and pipes cannot be replaced.
+        yield target
+        return
+
+    temporary = target.with_name(f".tmp-{uuid4().hex}-{target.name}")
+    try:
+        yield temporary
+        with open(temporary, "rb+") as fhandle:
+            os.fsync(fhandle.fileno())
+        if target.exists():
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        with suppress(OSError):
+            temporary.unlink()
+        raise
+    _sync_directory(target.parent)
+
+
+def atomic_dumpfn(obj, filename: str | Path, **kwargs) -> None:
+    """Write ``obj`` with :func:`monty.serialization.dumpfn`, atomically."""
+    with atomic_path(filename) as temporary:
+        dumpfn(obj, temporary, **kwargs)
+
+
+def _sync_directory(directory: Path) -> None:
+    """Make a completed rename durable where directories can be synced."""
+    try:
+        descriptor = os.open(directory, os.O_RDONLY)
+    except OSError:
+        return
+    try:
+        os.fsync(descriptor)
+    except OSError:
+        pass
+    finally:
+        os.close(descriptor)
diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index 83491b6..bfb0990 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -9,8 +9,9 @@ from typing import Any, Sequence
 import numpy as np
 
 from monty.json import MSONable
-from monty.serialization import dumpfn, loadfn
+from monty.serialization import loadfn
 
+from ..atomic import atomic_dumpfn, atomic_path
 from ..event.base import Event
 from ..event.hop import states_after_hop
 
@@ -188,7 +189,7 @@ class State(MSONable):
         data = self.as_dict()
 
         if filepath.endswith(".json"):
-            dumpfn(data, filepath, indent=2)
+            atomic_dumpfn(data, filepath, indent=2)
             return
 
         if filepath.endswith(".h5"):
@@ -197,11 +198,12 @@ class State(MSONable):
             except ImportError as exc:
                 raise ImportError("h5py required for HDF5 checkpoints") from exc
 
-            with h5py.File(filepath, "w") as fhandle:
-                for key, value in data.items():
-                    if key.startswith("@"):
-                        continue
-                    fhandle.create_dataset(key, data=value)
+            with atomic_path(filepath) as temporary:
+                with h5py.File(temporary, "w") as fhandle:
+                    for key, value in data.items():
+                        if key.startswith("@"):
+                            continue
+                        fhandle.create_dataset(key, data=value)
             return
 
         raise ValueError("Checkpoint format must be .json or .h5")
-- 
2.43.0


From c6683810aefa46cec9d46620356840759a046e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 09/29] fix: replace saved artifacts atomically so an
 interrupted save keeps the previous file

---
 kmcpy/event/base.py                 |  7 ++++---
 kmcpy/models/base.py                |  5 ++---
 kmcpy/models/composite_lce_model.py |  5 ++---
 kmcpy/models/fitting/fitter.py      |  5 +++--
 kmcpy/models/local_barrier_model.py |  5 ++---
 kmcpy/models/parameters.py          | 22 +++++++++++++---------
 kmcpy/models/site_energy.py         |  5 ++---
 kmcpy/simulator/config.py           |  9 +++++----
 8 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index ed49e70..289deb9 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -9,11 +9,12 @@ the local environment indices. All energy calculations are now handled by the mo
 
 import numpy as np
 import numba as nb
-from monty.serialization import dumpfn, loadfn
+from monty.serialization import loadfn
 import logging
 from abc import ABC
 from numba.typed import List
 from dataclasses import dataclass
+from kmcpy.atomic import atomic_dumpfn
 
 logger = logging.getLogger(__name__)
 logging.getLogger('numba').setLevel(logging.WARNING)
@@ -53,7 +54,7 @@ class Event:
 
     def to(self, filename: str):
         logger.info("Saving: %s", filename)
-        dumpfn(self.as_dict(), filename, indent=4)
+        atomic_dumpfn(self.as_dict(), filename, indent=4)
 
     @classmethod
     def from_file(cls, filename: str):
@@ -303,7 +304,7 @@ class EventLib(ABC):
                 "Event library cannot be saved without active-site order metadata"
             )
         logger.info("Saving EventLib to: %s", filename)
-        dumpfn(self.as_dict(), filename, indent=4)
+        atomic_dumpfn(self.as_dict(), filename, indent=4)
 
     @classmethod
     def from_dict(cls, data):
diff --git a/kmcpy/models/base.py b/kmcpy/models/base.py
index 237a64c..34cdc01 100644
--- a/kmcpy/models/base.py
+++ b/kmcpy/models/base.py
@@ -8,6 +8,7 @@ import logging
 from monty.json import MSONable
 from monty.serialization import loadfn
 
+from kmcpy.atomic import atomic_dumpfn
 from kmcpy.io.registry import MODEL_CLASS_REGISTRY
 from kmcpy.models.fitting.registry import get_fitter_for_model
 
@@ -248,7 +249,5 @@ class BaseModel(MSONable, ABC):
         """
         Save the model object to a JSON file.
         """
-        from monty.serialization import dumpfn
-
         logger.info("Saving model to: %s", fname)
-        dumpfn(self.as_dict(), fname, indent=4)
+        atomic_dumpfn(self.as_dict(), fname, indent=4)
diff --git a/kmcpy/models/composite_lce_model.py b/kmcpy/models/composite_lce_model.py
index 0f17326..33e6365 100644
--- a/kmcpy/models/composite_lce_model.py
+++ b/kmcpy/models/composite_lce_model.py
@@ -13,6 +13,7 @@ import logging
 from typing import Any, Optional, TYPE_CHECKING
 import numpy as np
 
+from kmcpy.atomic import atomic_dumpfn
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.models.local_cluster_expansion import LocalClusterExpansion
 from kmcpy.event import Event, event_direction
@@ -368,10 +369,8 @@ class CompositeLCEModel(BaseModel):
 
     def to(self, filename: str, indent: int = 2) -> None:
         """Write this composite model to a serialized model file."""
-        from monty.serialization import dumpfn
-
         logger.info("Saving composite model file to: %s", filename)
-        dumpfn(self.as_dict(), filename, indent=indent)
+        atomic_dumpfn(self.as_dict(), filename, indent=indent)
 
     def build(self, *args, **kwargs):
         """Composite models are assembled from separately built LCE models."""
diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index a8346a3..aa26a01 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -6,7 +6,8 @@ import logging
 import os
 
 from monty.json import MSONable
-from monty.serialization import dumpfn, loadfn
+from monty.serialization import loadfn
+from kmcpy.atomic import atomic_dumpfn
 from kmcpy.models.parameters import LCEModelParamHistory, LCEModelParameters
 
 logger = logging.getLogger(__name__)
@@ -154,7 +155,7 @@ class LCEFitter(BaseFitter):
 
     def to(self, filename):
         logger.info("Saving: %s", filename)
-        dumpfn(self.as_dict(), filename, indent=4)
+        atomic_dumpfn(self.as_dict(), filename, indent=4)
 
     @classmethod
     def from_dict(cls, payload):
diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 3e920fd..c8db01b 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -50,6 +50,7 @@ from typing import Any, Optional, TYPE_CHECKING
 
 import numpy as np
 
+from kmcpy.atomic import atomic_dumpfn
 from kmcpy.event import Event, event_direction
 from kmcpy.models.base import BaseModel, require_model_type
 from kmcpy.simulator.state import State
@@ -1061,9 +1062,7 @@ class LocalBarrierModel(BaseModel):
 
     def to(self, filename: str, indent: int = 2) -> None:
         """Write this local barrier model."""
-        from monty.serialization import dumpfn
-
-        dumpfn(self.as_dict(), filename, indent=indent)
+        atomic_dumpfn(self.as_dict(), filename, indent=indent)
 
     @classmethod
     def from_dict(cls, data: dict[str, Any]) -> "LocalBarrierModel":
diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..9826047 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -7,7 +7,9 @@ from pathlib import Path
 from typing import Any
 
 from monty.json import MSONable
-from monty.serialization import dumpfn, loadfn
+from monty.serialization import loadfn
+
+from kmcpy.atomic import atomic_dumpfn, atomic_path
 
 
 @dataclass
@@ -91,7 +93,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        atomic_dumpfn(self.as_dict(), filename, indent=indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -159,12 +161,13 @@ class LCEModelParamHistory(MSONable):
                 import h5py
             except ImportError as exc:
                 raise ImportError("h5py required for HDF5 parameter history") from exc
-            with h5py.File(filename, "w") as h5file:
-                for index, parameters in enumerate(self.history):
-                    group = h5file.create_group(f"parameter_set_{index}")
-                    _write_hdf5_group(group, parameters.as_dict())
+            with atomic_path(filename) as temporary:
+                with h5py.File(temporary, "w") as h5file:
+                    for index, parameters in enumerate(self.history):
+                        group = h5file.create_group(f"parameter_set_{index}")
+                        _write_hdf5_group(group, parameters.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        atomic_dumpfn(self.as_dict(), filename, indent=indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
@@ -185,8 +188,9 @@ def _write_hdf5_parameter_group(filename: Path, data: dict[str, Any]) -> None:
         import h5py
     except ImportError as exc:
         raise ImportError("h5py required for HDF5 parameters") from exc
-    with h5py.File(filename, "w") as h5file:
-        _write_hdf5_group(h5file, data)
+    with atomic_path(filename) as temporary:
+        with h5py.File(temporary, "w") as h5file:
+            _write_hdf5_group(h5file, data)
 
 
 def _write_hdf5_group(group, data: dict[str, Any]) -> None:
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index fe0bd6a..00943b4 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,6 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
+from kmcpy.atomic import atomic_dumpfn
 from kmcpy.event.hop import states_after_hop
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
@@ -480,10 +481,8 @@ class SiteEnergyModel(BaseModel):
         return cls.from_dict(data)
 
     def to(self, filename: str, indent: int = 2) -> None:
-        from monty.serialization import dumpfn
-
         logger.info("Saving site-energy-difference model to: %s", filename)
-        dumpfn(self.as_dict(), filename, indent=indent)
+        atomic_dumpfn(self.as_dict(), filename, indent=indent)
 
     def __str__(self) -> str:
         return (
diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index d9be365..ce54208 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -18,7 +18,8 @@ from dataclasses import dataclass, field
 from pathlib import Path
 
 from monty.json import MSONable
-from monty.serialization import dumpfn, loadfn
+from monty.serialization import loadfn
+from kmcpy.atomic import atomic_dumpfn
 from kmcpy.simulator.property import BUILTIN_PROPERTY_FIELDS, validate_schedule
 from kmcpy.units import UNIT_CONVENTIONS
 
@@ -504,14 +505,14 @@ class Configuration(MSONable):
             if not isinstance(yaml_data, dict):
                 raise ValueError(f"Existing YAML file {filename} must contain a dictionary")
             yaml_data[section] = {"type": task_type, task_type: config_data}
-            dumpfn(yaml_data, filename)
+            atomic_dumpfn(yaml_data, filename)
             return
 
         if file_format == "json":
             indent = kwargs.get("indent", 2)
-            dumpfn(config_data, filename, indent=indent)
+            atomic_dumpfn(config_data, filename, indent=indent)
         else:
-            dumpfn(config_data, filename)
+            atomic_dumpfn(config_data, filename)
     
     def with_runtime_changes(self, **changes) -> "Configuration":
         """Create new config with runtime field changes."""
-- 
2.43.0


From 6b71c32a6356f1261b920ee7915e75a5625308bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 10/29] fix: keep the other sections of a workflow file that
 could not be read

---
 kmcpy/simulator/config.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index ce54208..2aee013 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -495,13 +495,8 @@ class Configuration(MSONable):
             if file_format != "yaml":
                 raise ValueError("section output is only supported for YAML files")
             path = Path(filename)
-            if path.exists():
-                try:
-                    yaml_data = loadfn(path)
-                except Exception:
-                    yaml_data = {}
-            else:
-                yaml_data = {}
+            # An existing file that cannot be read may hold other sections.
+            yaml_data = loadfn(path) if path.exists() else {}
             if not isinstance(yaml_data, dict):
                 raise ValueError(f"Existing YAML file {filename} must contain a dictionary")
             yaml_data[section] = {"type": task_type, task_type: config_data}
-- 
2.43.0


From 34e830e77b73ceb8ad300bf28f47608569866b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 11/29] fix: keep the record order and text fields of HDF5
 parameter histories

---
 kmcpy/models/parameters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 9826047..406f72d 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -148,7 +148,9 @@ class LCEModelParamHistory(MSONable):
             except ImportError as exc:
                 raise ImportError("h5py required for HDF5 parameter history") from exc
             with h5py.File(filename, "r") as h5file:
-                for key in sorted(h5file.keys()):
+                for key in sorted(
+                    h5file.keys(), key=lambda key: int(key.rsplit("_", 1)[1])
+                ):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
         return cls.from_dict(loadfn(filename, cls=None))
@@ -204,5 +206,7 @@ def _decode_hdf5_value(value):
     if isinstance(value, bytes):
         return value.decode("utf-8")
     if hasattr(value, "tolist"):
-        return value.tolist()
+        return _decode_hdf5_value(value.tolist())
+    if isinstance(value, list):
+        return [_decode_hdf5_value(item) for item in value]
     return value
-- 
2.43.0


From 2be267b94ea209e7314e060581f0737c7a105fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:09 +0000
Subject: [PATCH 12/29] fix: read and write fitted parameters as YAML as
 documented

---
 kmcpy/models/parameters.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 406f72d..1c4d461 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -85,7 +85,7 @@ class LCEModelParameters(MSONable):
         filename = Path(filename)
         if filename.suffix == ".h5":
             return cls.from_dict(_read_hdf5_parameter_group(filename))
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_payload(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted parameters to JSON/YAML or HDF5."""
@@ -93,7 +93,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        atomic_dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_payload(self.as_dict(), filename, indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -153,7 +153,7 @@ class LCEModelParamHistory(MSONable):
                 ):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_payload(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted-parameter history to JSON/YAML or HDF5."""
@@ -169,7 +169,25 @@ class LCEModelParamHistory(MSONable):
                         group = h5file.create_group(f"parameter_set_{index}")
                         _write_hdf5_group(group, parameters.as_dict())
             return
-        atomic_dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_payload(self.as_dict(), filename, indent)
+
+
+def _is_yaml(filename: Path) -> bool:
+    return filename.suffix.lower() in {".yaml", ".yml"}
+
+
+def _load_payload(filename: Path) -> Any:
+    # The YAML reader and writer take none of the JSON options.
+    if _is_yaml(filename):
+        return loadfn(filename)
+    return loadfn(filename, cls=None)
+
+
+def _dump_payload(data: dict[str, Any], filename: Path, indent: int) -> None:
+    if _is_yaml(filename):
+        atomic_dumpfn(data, filename)
+        return
+    atomic_dumpfn(data, filename, indent=indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
-- 
2.43.0


From c4db432274d5dceed3442986baf06a6151b8ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:30 +0000
Subject: [PATCH 13/29] fix: never replace an existing fit history that could
 not be read

A fit-results file that failed to load (read error, truncated or foreign
content) was replaced by a new one holding only the latest fit, and a
parameter history without a history entry was read as empty and
overwritten. Report the problem and keep the file; write the new history
atomically, without rounding values or converting text to numbers.
---
 kmcpy/models/fitting/fitter.py | 40 ++++++++++++++++++++--------------
 kmcpy/models/parameters.py     |  7 +++---
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index aa26a01..b30d0bf 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -7,7 +7,7 @@ import os
 
 from monty.json import MSONable
 from monty.serialization import loadfn
-from kmcpy.atomic import atomic_dumpfn
+from kmcpy.atomic import atomic_dumpfn, atomic_path
 from kmcpy.models.parameters import LCEModelParamHistory, LCEModelParameters
 
 logger = logging.getLogger(__name__)
@@ -109,29 +109,37 @@ class LCEFitter(BaseFitter):
             model_parameters.orbit_fingerprints,
             model_parameters.local_environment_hash,
         ]
-        try:
-            logger.info("Try loading %s ...", fit_results_fname)
-            df = pd.read_json(fit_results_fname, orient="index")
+        new_data = pd.DataFrame([row], columns=columns)
+        if os.path.exists(fit_results_fname):
+            # An existing history is never replaced by a new one: if it cannot
+            # be read, the error reaches the user and the file stays as it is.
+            logger.info("Loading %s ...", fit_results_fname)
+            df = pd.read_json(
+                fit_results_fname,
+                orient="index",
+                dtype=False,
+                convert_dates=False,
+                precise_float=True,
+            )
             if not set(required_columns).issubset(df.columns):
-                raise ValueError("Unexpected file schema")
+                raise ValueError(
+                    f"{fit_results_fname} is not a fitting history; "
+                    "move it away or choose another file name."
+                )
             if "normalize" not in df.columns:
                 df["normalize"] = True
             if "orbit_fingerprints" not in df.columns:
                 df["orbit_fingerprints"] = None
             if "local_environment_hash" not in df.columns:
                 df["local_environment_hash"] = None
-            new_data = pd.DataFrame([row], columns=columns)
-            df2 = pd.concat([df[columns], new_data], ignore_index=True)
-            df2.to_json(fit_results_fname, orient="index", indent=4)
-            logger.info("Updated latest results:\n%s", df2.iloc[-1])
-        except Exception:
-            logger.info(
-                "%s is not found or incompatible, create a new file...",
-                fit_results_fname,
+            new_data = pd.concat([df[columns], new_data], ignore_index=True)
+        else:
+            logger.info("%s is not found, create a new file...", fit_results_fname)
+        with atomic_path(fit_results_fname) as temporary:
+            new_data.to_json(
+                temporary, orient="index", indent=4, double_precision=15
             )
-            df = pd.DataFrame([row], columns=columns)
-            df.to_json(fit_results_fname, orient="index", indent=4)
-            logger.info("Updated latest results:\n%s", df.iloc[-1])
+        logger.info("Updated latest results:\n%s", new_data.iloc[-1])
 
     def as_dict(self):
         d = {
diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 1c4d461..5a657b7 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -129,11 +129,12 @@ class LCEModelParamHistory(MSONable):
         """Create a history from either the current or legacy list payload."""
         if isinstance(data, list):
             records = data
-        elif isinstance(data, dict):
-            records = data.get("history", [])
+        elif isinstance(data, dict) and "history" in data:
+            records = data["history"]
         else:
             raise ValueError(
-                "LCEModelParamHistory.from_dict expects a dictionary or list"
+                "LCEModelParamHistory.from_dict expects a list of records or a "
+                "dictionary with a 'history' entry"
             )
         return cls(history=[LCEModelParameters.from_dict(record) for record in records])
 
-- 
2.43.0


From f563711f1a84040de1ea67e607ac0639ffd72969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:30 +0000
Subject: [PATCH 14/29] fix: record fits as plain numbers so they can be saved
 as YAML

---
 kmcpy/models/fitting/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index b30d0bf..c9f6aa8 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -368,13 +368,13 @@ class LCEFitter(BaseFitter):
         time = now.strftime("%m/%d/%Y, %H:%M:%S")
         lce_model_params = LCEModelParameters(
             keci=keci.tolist(),
-            empty_cluster=empty_cluster,
+            empty_cluster=float(empty_cluster),
             cluster_site_indices=[],
             weight=weight_copy.tolist(),
-            alpha=alpha,
+            alpha=float(alpha),
             time_stamp=time_stamp,
             time=time,
-            rmse=rmse,
+            rmse=float(rmse),
             loocv=loocv,
             normalize=normalize,
             orbit_fingerprints=orbit_fingerprints,
-- 
2.43.0


From edc151a8f5eac10d8b15734b39863182be365c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:27 +0000
Subject: [PATCH 15/29] fix: create input templates exclusively, replace them
 atomically

A file that appeared between the existence test and the write was
overwritten without --force, and an interrupted --force left a truncated
file.
---
 kmcpy/cli/init.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/kmcpy/cli/init.py b/kmcpy/cli/init.py
index 30e4ea4..e22f655 100644
--- a/kmcpy/cli/init.py
+++ b/kmcpy/cli/init.py
@@ -7,6 +7,8 @@ from pathlib import Path
 from textwrap import dedent
 from typing import Sequence
 
+from kmcpy.atomic import atomic_path
+
 
 DEFAULT_TEMPLATE_FILENAME = "input_template.yaml"
 
@@ -118,7 +120,13 @@ def write_template(output: str | Path, force: bool = False) -> Path:
             "Use --force to overwrite."
         )
 
-    output_path.write_text(build_template(), encoding="utf-8")
+    if force:
+        with atomic_path(output_path) as temporary:
+            temporary.write_text(build_template(), encoding="utf-8")
+    else:
+        # Exclusive creation: the file may have appeared since the test above.
+        with open(output_path, "x", encoding="utf-8") as fhandle:
+            fhandle.write(build_template())
     return output_path
 
 
-- 
2.43.0


From 283fe4ffd8d47312825eb18ab255550de1b58f70 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 10:24:02 +0000
Subject: [PATCH 16/29] fix: two simulations with different mobile ions can
 share an event library

---
 kmcpy/event/hop.py     | 22 +++++++++++++++++++++-
 kmcpy/simulator/kmc.py |  2 +-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/kmcpy/event/hop.py b/kmcpy/event/hop.py
index cc1b6b7..2fa8f8b 100644
--- a/kmcpy/event/hop.py
+++ b/kmcpy/event/hop.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import copy
 from dataclasses import dataclass
 from typing import Any
 
@@ -53,8 +54,11 @@ class HopStateLookup:
 
     def annotate_event(self, event: Any) -> None:
         """Attach hot-loop state codes to an event in compact active-site space."""
+        event.hop_state_codes = self._state_codes(event)
+
+    def _state_codes(self, event: Any) -> tuple[int, int, int, int]:
         from_site, to_site = event.mobile_ion_indices
-        event.hop_state_codes = (
+        return (
             int(self.mobile_state_by_site[int(from_site)]),
             int(self.vacancy_state_by_site[int(to_site)]),
             int(self.vacancy_state_by_site[int(from_site)]),
@@ -66,6 +70,22 @@ class HopStateLookup:
         for event in event_lib.events:
             self.annotate_event(event)
 
+    def annotated_event_lib(self, event_lib: Any) -> Any:
+        """Return ``event_lib`` annotated, or an annotated copy of it.
+
+        State codes live on the events. A library that already carries the
+        codes of another mobile ion belongs to another simulation and must
+        keep them.
+        """
+        for event in event_lib.events:
+            codes = self._state_codes(event)
+            if getattr(event, "hop_state_codes", codes) != codes:
+                event_lib = copy.copy(event_lib)
+                event_lib.events = [copy.copy(event) for event in event_lib.events]
+                break
+        self.annotate_event_lib(event_lib)
+        return event_lib
+
 
 def event_direction(occupations: Any, event: Any) -> int:
     """Return +1, -1, or 0 using only endpoint integer state comparisons."""
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 9897f39..1c613f8 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -96,7 +96,7 @@ class KMC:
         self.hop_state_lookup = hop_state_lookup
         self.active_site_order = active_site_order
         if self.hop_state_lookup is not None:
-            self.hop_state_lookup.annotate_event_lib(self.event_lib)
+            self.event_lib = self.hop_state_lookup.annotated_event_lib(event_lib)
         
         if simulation_state is not None:
             logger.info("Using State for occupation management")
-- 
2.43.0


From 974f52feadd9bd9ce766ddcba723bab549f0a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:55 +0000
Subject: [PATCH 17/29] fix: external site-energy values of mixed types are
 kept exactly

---
 kmcpy/models/site_energy.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 00943b4..58b9e3e 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -273,7 +273,7 @@ class SiteEnergyModel(BaseModel):
         ]
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            mapped_values=mapped_values + self._mapping_values(),
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -295,6 +295,13 @@ class SiteEnergyModel(BaseModel):
             external[int(self._site_lookup[kmcpy_site])] = mapped_value
         return external
 
+    def _mapping_values(self) -> list[Any]:
+        """Return every external value that a later hop may have to store."""
+        values = list((self.state_mapping or {}).values())
+        for mapping in (self.state_mapping_by_site or {}).values():
+            values.extend(mapping.values())
+        return values
+
     def _external_site(self, kmcpy_site: int) -> int:
         if self._site_lookup is None:
             raise RuntimeError("SiteEnergyModel has not been initialized")
@@ -801,20 +808,34 @@ def _resolve_external_dtype(
         return np.dtype(external_dtype)
     values = list(mapped_values)
     if initial_occupation is not None:
-        return initial_occupation.dtype
+        if _stores_exactly(initial_occupation.dtype, values):
+            return initial_occupation.dtype
+        values.extend(initial_occupation.tolist())
+    else:
+        values.append(fill_value)
     if values and all(isinstance(value, (int, np.integer)) for value in values):
         return np.int64
     if values and all(isinstance(value, (int, float, np.number)) for value in values):
         return float
-    if isinstance(fill_value, (int, np.integer)) and not values:
-        return np.int64
     return object
 
 
+def _stores_exactly(dtype, values: Sequence[Any]) -> bool:
+    """Return whether an array of ``dtype`` can hold ``values`` unchanged."""
+    try:
+        return all(np.asarray(value, dtype=dtype).item() == value for value in values)
+    except (TypeError, ValueError, OverflowError):
+        return False
+
+
 def _optional_array_copy(value):
     if value is None:
         return None
-    return np.asarray(value).copy()
+    array = np.asarray(value)
+    if array.dtype.kind == "U" and not all(isinstance(item, str) for item in value):
+        # NumPy would turn the numbers of a mixed list into strings.
+        array = np.asarray(value, dtype=object)
+    return array.copy()
 
 
 def _optional_array_payload(value):
-- 
2.43.0


From 7ee305c76b1d964f34a38edbc7ada9e9ea2afa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:55 +0000
Subject: [PATCH 18/29] fix: check the length of a .h5 initial state against
 the active sites

---
 kmcpy/simulator/state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index bfb0990..ac725a2 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -117,7 +117,13 @@ class State(MSONable):
         """Load state from a checkpoint or initial-state JSON file."""
         suffix = Path(filepath).suffix.lower()
         if suffix == ".h5":
-            return cls.load_checkpoint(filepath)
+            state = cls.load_checkpoint(filepath)
+            return cls.from_occupations(
+                state.occupations,
+                active_site_order=active_site_order,
+                time=state.time,
+                step=state.step,
+            )
         if suffix != ".json":
             raise ValueError("State file format must be .json or .h5")
 
-- 
2.43.0


From 27ffe1c4862301429aac64e9c42b0e1e6f42f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:16 +0000
Subject: [PATCH 19/29] fix: refuse initial states with state indices no site
 can hold

---
 kmcpy/simulator/kmc.py               |  1 +
 kmcpy/structure/active_site_order.py | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 1c613f8..7ea1557 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -266,6 +266,7 @@ class KMC:
             )
         else:
             raise ValueError("Initial occupations could not be determined.")
+        active_site_order.validate_state_indices(simulation_state.occupations)
 
         return cls(
             structure=structure,
diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5dec1a0..bc34a79 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -246,6 +246,21 @@ class ActiveSiteOrder(MSONable):
             f"got {len(values)}."
         )
 
+    def validate_state_indices(self, values: Sequence[Any]) -> None:
+        """Validate that active-site values index each site's allowed species."""
+        invalid = [
+            active_index
+            for active_index, primitive_index in enumerate(self.active_to_primitive)
+            if not 0 <= int(values[active_index]) < len(
+                self.allowed_species_by_primitive_site[int(primitive_index)]
+            )
+        ]
+        if invalid:
+            raise ValueError(
+                "Occupations contain state indices without an allowed species "
+                f"at active sites: {invalid}"
+            )
+
     def full_structure_with_properties(self) -> Structure:
         """Return the full supercell with index-space site properties."""
         if self.template_structure is None:
-- 
2.43.0


From 55163296232c7c3542de8cb1c17b7b7dfe7fd1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:32 +0000
Subject: [PATCH 20/29] fix: refuse a cluster expansion built for other local
 environments

---
 kmcpy/models/local_cluster_expansion.py | 43 +++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 735fc6c..a06ec83 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -617,6 +617,49 @@ class LocalClusterExpansion(BaseModel):
         else:
             _calc_corr(corr, occupation, self.cluster_site_indices)
 
+    def initialize_state(
+        self,
+        *,
+        simulation_state=None,
+        event_lib=None,
+        structure=None,
+        config=None,
+        active_site_order=None,
+    ) -> None:
+        """Check that this model describes the local environments of the events.
+
+        The correlation kernels index the local occupation without bounds
+        checks, so a model built for another local environment has to be
+        refused before the first evaluation.
+        """
+        required = 1 + max(
+            self._iter_cluster_site_indices(getattr(self, "cluster_site_indices", ())),
+            default=-1,
+        )
+        state_counts = None
+        if getattr(self, "site_basis_values", None) is not None:
+            state_counts = getattr(self, "basis_site_state_counts", None)
+        for event in getattr(event_lib, "events", ()):
+            if len(event.local_env_indices) < required:
+                raise ValueError(
+                    "LocalClusterExpansion needs a local environment of at "
+                    f"least {required} sites, but event "
+                    f"{tuple(event.mobile_ion_indices)} has "
+                    f"{len(event.local_env_indices)}."
+                )
+            if state_counts is None or active_site_order is None:
+                continue
+            for site_index, state_count in zip(event.local_env_indices, state_counts):
+                primitive_index = active_site_order.active_to_primitive[site_index]
+                allowed = active_site_order.allowed_species_by_primitive_site[
+                    primitive_index
+                ]
+                if len(allowed) > state_count:
+                    raise ValueError(
+                        "LocalClusterExpansion does not describe all species "
+                        f"allowed on active site {site_index}: {allowed}"
+                    )
+
     def compute(self, simulation_state:State, event:Event):
         """
         Compute the fitted scalar value for this event/local environment.
-- 
2.43.0


From ef8ee026e1b36f992bb75315095e1a89ef7355b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:36 +0000
Subject: [PATCH 21/29] fix: read composition and index of a result from its
 file name, not its path

---
 kmcpy/tools/gather_kmc_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kmcpy/tools/gather_kmc_data.py b/kmcpy/tools/gather_kmc_data.py
index 8ac4886..2e380e9 100644
--- a/kmcpy/tools/gather_kmc_data.py
+++ b/kmcpy/tools/gather_kmc_data.py
@@ -30,8 +30,10 @@ def gather_data(path):
     data = []
     print(locations)
     for location in locations:
-        x = float(location.split(".csv.gz")[0].split("_")[1])
-        structure_index = int(location.split(".csv.gz")[0].split("_")[2])
+        # only the file name carries the labels: directories may hold "_" too
+        name = os.path.basename(location)
+        x = float(name.split(".csv.gz")[0].split("_")[1])
+        structure_index = int(name.split(".csv.gz")[0].split("_")[2])
         print(x, structure_index)
         df = pd.read_csv(location, compression="gzip")
         df["comp"] = x
-- 
2.43.0


From 8d90720bb5bf95cd7d88a5d00b39bbde5b7d4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:12 +0000
Subject: [PATCH 22/29] fix: keep rows of a NEB data set independent of later
 uses of the same entry

---
 kmcpy/io/neb/data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kmcpy/io/neb/data.py b/kmcpy/io/neb/data.py
index 20a8956..3013343 100644
--- a/kmcpy/io/neb/data.py
+++ b/kmcpy/io/neb/data.py
@@ -11,7 +11,7 @@ import json
 from pathlib import Path
 import numpy as np
 from typing import Any, List, Dict, Optional, Sequence, TYPE_CHECKING
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 import logging
 from pymatgen.core import Structure
 from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
@@ -211,6 +211,7 @@ class NEBDataLoader:
             )
         if not isinstance(neb_entry, NEBEntry):
             raise ValueError("Entry must be a NEBEntry instance")
+        property_value = float(neb_entry.property_value)
 
         resolved_model = self._resolve_model(model)
         reference = (
@@ -238,10 +239,12 @@ class NEBDataLoader:
             if len(neb_entry.correlation) != len(self.neb_entries[0].correlation):
                 raise ValueError("Correlation vector length mismatch")
         
-        self.neb_entries.append(neb_entry)
+        # The loader keeps its own copy: adding the same entry again, with
+        # another model or to another loader, does not change this row.
+        self.neb_entries.append(replace(neb_entry, property_value=property_value))
         self.model = resolved_model
         self.model_name = getattr(resolved_model, "name", "unknown")
-        logger.info(f"Added NEB entry with property value: {neb_entry.property_value:.6f}")
+        logger.info(f"Added NEB entry with property value: {property_value:.6f}")
 
     def add_structure(
         self,
-- 
2.43.0


From 7016fdc50e9476fe930de470db351bcc804d5bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:12 +0000
Subject: [PATCH 23/29] fix: replace fitting inputs and coefficients
 atomically, and only with fitting weights

---
 kmcpy/io/neb/data.py           | 20 ++++++++++++--------
 kmcpy/models/fitting/fitter.py |  3 ++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/kmcpy/io/neb/data.py b/kmcpy/io/neb/data.py
index 3013343..55d3272 100644
--- a/kmcpy/io/neb/data.py
+++ b/kmcpy/io/neb/data.py
@@ -14,6 +14,7 @@ from typing import Any, List, Dict, Optional, Sequence, TYPE_CHECKING
 from dataclasses import dataclass, replace
 import logging
 from pymatgen.core import Structure
+from kmcpy.atomic import atomic_path
 from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
 from kmcpy.structure.basis import Occupation
 if TYPE_CHECKING:
@@ -435,7 +436,7 @@ class NEBDataLoader:
         }
         
         output_file = os.path.join(output_dir, f"{prefix}.json")
-        with open(output_file, "w") as f:
+        with atomic_path(output_file) as temporary, open(temporary, "w") as f:
             json.dump(data, f, indent=2)
             
         logger.info(f"Saved {len(self.neb_entries)} entries to {output_file}")
@@ -477,6 +478,9 @@ class NEBDataLoader:
         if not self.neb_entries:
             raise ValueError("No entries to save")
 
+        # Nothing is written when the weights do not fit the entries.
+        weights = self._as_weight_array(weight, len(self.neb_entries))
+
         output_path = Path(output_dir)
         output_path.mkdir(parents=True, exist_ok=True)
 
@@ -484,13 +488,13 @@ class NEBDataLoader:
         ekra_path = output_path / ekra_fname
         weight_path = output_path / weight_fname
 
-        np.savetxt(corr_path, self.get_correlation_matrix(), fmt="%.18e")
-        np.savetxt(ekra_path, self.get_properties(), fmt="%.18e")
-        np.savetxt(
-            weight_path,
-            self._as_weight_array(weight, len(self.neb_entries)),
-            fmt="%.18e",
-        )
+        for path, values in (
+            (corr_path, self.get_correlation_matrix()),
+            (ekra_path, self.get_properties()),
+            (weight_path, weights),
+        ):
+            with atomic_path(path) as temporary:
+                np.savetxt(temporary, values, fmt="%.18e")
 
         logger.info("Saved fitting inputs to %s", output_path)
         return {
diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index c9f6aa8..3be6706 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -362,7 +362,8 @@ class LCEFitter(BaseFitter):
         # compute RMS error
         rmse = root_mean_squared_error(y_true, y_pred)
         logger.info("RMSE = %s meV", np.round(rmse, 2))
-        np.savetxt(fname=keci_fname, X=keci, fmt="%.8f")
+        with atomic_path(keci_fname) as temporary:
+            np.savetxt(fname=temporary, X=keci, fmt="%.8f")
         now = datetime.now()
         time_stamp = now.timestamp()
         time = now.strftime("%m/%d/%Y, %H:%M:%S")
-- 
2.43.0


From 31fccb59f10441ef9fa67af55364c628d35a3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:49 +0000
Subject: [PATCH 24/29] fix: keep sites near a cell face in their cell when
 generating events

---
 kmcpy/event/generators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 0c93d2c..d776b5c 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -393,8 +393,13 @@ class EventGenerator:
             site_mapping,
             supercell_shape=supercell_shape,
         )
+        # Take the sites as they are: a round trip through a supercell may wrap a
+        # site near a cell face to the other side and thereby shift its images.
         primitive_cell = structure_from_sites(
-            primitive_active_site_order.active_structure().sites
+            [
+                full_primitive_cell[index]
+                for index in primitive_active_site_order.primitive_active_indices
+            ]
         )
 
         if local_env_cutoff_dict is None:
-- 
2.43.0


From 21f139ca17f711a35431d34a81bdab3bceb2f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 25/29] fix: count a site reached through several periodic
 images once when enumerating environments

---
 kmcpy/structure/local_environment_enumerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index b4c66ea..10e7d22 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -403,7 +403,7 @@ def _resolve_variable_site_indices(
 ) -> tuple[int, ...]:
     local_sites = set(local_site_indices)
     if variable_site_indices is not None:
-        resolved = tuple(int(index) for index in variable_site_indices)
+        resolved = tuple(dict.fromkeys(int(index) for index in variable_site_indices))
         missing = [index for index in resolved if index not in local_sites]
         if missing:
             raise ValueError(
@@ -414,7 +414,8 @@ def _resolve_variable_site_indices(
         return resolved
 
     resolved_sites = []
-    for index in local_site_indices:
+    # A site reached through several periodic images is still one variable site.
+    for index in dict.fromkeys(local_site_indices):
         allowed = lattice_structure.allowed_species[index]
         if allowed is None or len(allowed) <= 1:
             continue
-- 
2.43.0


From 627c2eb1be85e47af2d01aafe544c7198221abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 26/29] fix: put the vacancy, not the second allowed species,
 on the vacant site of NEB endpoints

---
 kmcpy/structure/local_environment_enumerator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 10e7d22..d200886 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -17,6 +17,7 @@ from kmcpy.structure.species import (
     is_vacancy_species,
     species_label,
     species_tokens,
+    vacancy_species,
 )
 
 
@@ -198,10 +199,17 @@ def generate_neb_endpoint_pair(
     if not _species_equivalent(from_species, to_species):
         raise ValueError("hop sites must have the same first allowed mobile species")
 
+    vacancy = vacancy_species()
     initial_occupation = initial_occupation.copy()
-    initial_occupation[from_site] = active_lattice_structure.basis.match_value
-    initial_occupation[to_site] = active_lattice_structure.basis.mismatch_value
-    final_occupation = initial_occupation.flip([from_site, to_site])
+    final_occupation = initial_occupation.copy()
+    for occupation, occupied_site, vacant_site in (
+        (initial_occupation, from_site, to_site),
+        (final_occupation, to_site, from_site),
+    ):
+        occupation[occupied_site] = active_lattice_structure.basis.match_value
+        occupation[vacant_site] = _occupation_value_for_species(
+            active_lattice_structure, vacant_site, vacancy
+        )
 
     initial, final = _ordered_endpoint_structures(
         lattice_structure,
-- 
2.43.0


From 88b949fa31911fb45cc944341487f26e32d06cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 27/29] fix: accept species counts of zero when enumerating
 environments

---
 kmcpy/structure/local_environment_enumerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index d200886..ad896e3 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -775,7 +775,7 @@ def _matches_counts(
 ) -> bool:
     if species_counts is None:
         return True
-    return Counter(species_by_site.values()) == species_counts
+    return Counter(species_by_site.values()) == Counter(species_counts)
 
 
 def _canonical_counts(species_counts: Mapping[Any, int] | None) -> dict[str, int] | None:
-- 
2.43.0


From fcb133d7c7f43ac01cfca0d865553dfaf942e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 28/29] fix: keep allowed species with their sites in
 make_supercell

---
 kmcpy/structure/lattice_structure.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..429b168 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -380,13 +380,12 @@ class LatticeStructure(ABC):
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
         self.template_structure.make_supercell(sc_matrix)
-        # Update allowed_species accordingly
+        # Update allowed_species accordingly; the images of each site follow one another
         original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        n_images = len(self.template_structure) // len(original_allowed_species)
+        self.allowed_species = [
+            species for species in original_allowed_species for _ in range(n_images)
+        ]
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From c9fb541a810e438065caf332f60b93684a817d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 29/29] fix: replace local barrier tables as a whole, and
 honour a new default barrier

---
 kmcpy/models/local_barrier_model.py | 60 +++++++++++++++++------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index c8db01b..d0e2e17 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -821,32 +821,42 @@ class LocalBarrierModel(BaseModel):
         probability_property: Optional[str] = None,
         site_species: Optional[dict[Any, Any]] = None,
     ) -> None:
-        """Replace this model's rule table."""
-        if default_properties is not None:
-            self.default_properties = _normalize_properties(default_properties)
-        if default_barrier is not None:
-            if self.default_properties is None:
-                self.default_properties = {}
-            self.default_properties.setdefault("barrier", float(default_barrier))
-        if default_property is not None:
-            self.default_property = default_property
-        if probability_mode is not None:
-            self.probability_mode = probability_mode
-        if probability_property is not None:
-            self.probability_property = probability_property
-        if site_species is not None:
-            self.site_species = _normalize_site_species(site_species)
+        """Replace this model's rule table.
 
-        self._validate_probability_mode()
-
-        if rules is None:
-            rules = []
-        if not isinstance(rules, list):
-            raise TypeError("'rules' must be a list")
-        self.rules = []
-        self._exact_rule_keys = set()
-        for rule in rules:
-            self.add_rule(rule)
+        The table is replaced as a whole: when any argument is refused, the model
+        keeps the rules and defaults it had before the call.
+        """
+        previous = dict(self.__dict__)
+        try:
+            if default_properties is not None:
+                self.default_properties = _normalize_properties(default_properties)
+            if default_barrier is not None:
+                properties = dict(self.default_properties or {})
+                if default_properties is None or "barrier" not in properties:
+                    properties["barrier"] = float(default_barrier)
+                self.default_properties = properties
+            if default_property is not None:
+                self.default_property = default_property
+            if probability_mode is not None:
+                self.probability_mode = probability_mode
+            if probability_property is not None:
+                self.probability_property = probability_property
+            if site_species is not None:
+                self.site_species = _normalize_site_species(site_species)
+
+            self._validate_probability_mode()
+
+            if rules is None:
+                rules = []
+            if not isinstance(rules, list):
+                raise TypeError("'rules' must be a list")
+            self.rules = []
+            self._exact_rule_keys = set()
+            for rule in rules:
+                self.add_rule(rule)
+        except Exception:
+            self.__dict__.update(previous)
+            raise
 
     def _selected_sites(
         self,
-- 
2.43.0

