"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.props import REGISTRY  # noqa: E402

S = "kmcpy/simulator/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), na=None):
    assert len(title) <= 80, title
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
               "anchors": {"files": files,
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                           "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                           "observe_at": list(observe), "hook_needed": None}}, na))


prop("C01", "Every hop is drawn from the rates of the current configuration",
     "At every step of every run, the hop that happens and the time that passes are the ones the seeded random draws select from the model's rates evaluated on the occupations of that very moment, for all events at once (rejection-free KMC: an event is chosen in proportion to its current rate, the waiting time is -ln(u) over the current total rate). This holds for every supported rate model, however the event library was put together (built by hand, extended later, loaded from a file or a dict, with, without or with outdated dependency data) and however many runs, restarts or tolerated callback errors came before. A run performs exactly the requested number of production steps, and never moves out of a state in which no event is possible.",
     ["histories", "inputs", "configurations"],
     "all worlds (lattice, allowed species, occupations, events, model), all library assembly histories, all sequences of run/restart, all draws including 0, 1-2^-53 and exact interval edges",
     "Tests run a few fixtures with one library each and compare end values; a stale rate only shows on particular sequences of hops and particular dependency gaps.",
     [S + "kmc.py", S + "state.py", "kmcpy/event/base.py", "kmcpy/event/hop.py", "kmcpy/models/base.py", "kmcpy/models/local_barrier_model.py", "kmcpy/models/composite_lce_model.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/models/site_energy.py"],
     [("incremental rate refresh through event dependencies", S + "kmc.py: KMC.update"), ("dependency generation and staleness test", "kmcpy/event/base.py: EventLib"), ("seeded selection kernel", S + "kmc.py: _propose")],
     [("event rates", "cached rate of each event", S + "kmc.py"), ("event dependencies", "which rates an executed event touches", "kmcpy/event/base.py")],
     ["KMC.run", "KMC.attach callbacks", "State.occupations/time/step"])

prop("C02", "Ions, framework species and site states are conserved by every step",
     "Every step, in equilibration and in production, moves exactly one mobile ion from its site into an empty site joined to it by an event, and changes nothing else: every site always holds one of its own allowed states and the number of every species in the cell never changes. The step counter grows by exactly one per hop, the clock never goes back and stands still during equilibration. This stays true across several runs, restarts from checkpoints or copies, and runs that ended in an error.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "all worlds incl. sites with different allowed-species lists and orders, all run/restart/failure histories",
     "The tests check a handful of fixtures where all mobile sites share one encoding and nothing fails half-way.",
     [S + "state.py", S + "kmc.py", "kmcpy/event/hop.py"],
     [("applying a hop through per-site state codes", S + "state.py: State.apply_event"), ("hop direction lookup", "kmcpy/event/hop.py: HopStateLookup")],
     [("occupations", "state code of every active site", S + "state.py")],
     ["State.occupations", "State.time", "State.step", "KMC.run callbacks"])

prop("C03", "Transport numbers are those of the trajectory that happened",
     "After every run, the per-ion displacements (unwrapped, minimum image per hop), hop counts and ion positions the tracker reports are exactly those of the hops of that run, and every sampled row (time, MSD, jump and tracer diffusivity, conductivity, Haven ratio, correlation factor) is computed from those hops and from the time elapsed since that run's production began. Equilibration hops, earlier runs, the absolute clock of a restarted state, failed runs and other properties switched on or off contribute nothing. A property that is disabled has no value, and all others keep theirs.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "all trajectories on all cells, sampling intervals, enabled sets, restart times and preceding (failed) runs",
     "Tests pin final values of a few seeds that start at time zero; per-ion bookkeeping over arbitrary trajectories and continued clocks is not compared with an independent recomputation.",
     [S + "tracker.py", S + "property.py", S + "kmc.py"],
     [("per-hop accumulation", S + "tracker.py: Tracker.update"), ("transport formulas", S + "property.py / tracker.py")],
     [("displacement, hop counter, ion locations", "per-ion accumulators", S + "tracker.py")],
     ["Tracker returned by KMC.run", "Tracker.results", "written result files"])

prop("C04", "A seeded run depends on its own inputs and seed only",
     "The trajectory, clock, results and records of a run are a function of its inputs and its random seed: neither other simulations running interleaved in the same process (sharing the same structure, event library, configuration, site order, initial values or a model that keeps no state of its own), nor what ran before, nor the global random generators change them. Running a simulation in turn does not change the global random generators, the inputs it was given (apart from its own state object) or another simulation's results, also when the simulations move different ions of the same material.",
     ["schedules", "histories", "configurations"],
     "all interleavings of several simulations switched where kMCpy calls user code (callbacks and models, at every step), all sharing patterns, all prior histories in the process",
     "Tests run one simulation at a time and never interleave two that share objects.",
     [S + "kmc.py", S + "state.py", S + "tracker.py", "kmcpy/event/base.py", S + "config.py", "kmcpy/models/composite_lce_model.py"],
     [("one generator per run", S + "kmc.py: KMC.run"), ("run-local state copies", S + "state.py")],
     [("module and class level caches", "state that could leak between simulations", "kmcpy/models, kmcpy/event")],
     ["KMC.run", "Tracker.results", "numpy global random state"])

prop("C05", "Properties and callbacks are sampled exactly when they are due, and only then",
     "Built-in properties and attached callbacks are evaluated exactly at the production steps at which their step interval or their time interval is due (own setting first, then the global one, then once per pass; by step, when the step number is a multiple of the interval; by time, when the simulated time since the last sample, or since zero for the first, has reached the interval), in a fixed order: built-ins first, then callbacks in the order of attachment. Each stored record carries the step, time and value of its own call; only the newest records up to the requested maximum are kept, nothing is kept for a property that must not be stored or whose tolerated error produced no value; an error is passed to the property's handler and ends the run unless the handler accepts it. Attaching, detaching, enabling, disabling or clearing, before, between or from inside a run, affects exactly the named properties from then on and never the records of a finished run.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "all sequences of attach/detach/enable/frequency/clear operations before, between and inside runs, all intervals and clock increments, all callback failures and handler policies",
     "Tests attach one or two callbacks with one interval each; re-entrant changes, mixed triggers and failures are sampled at a few points.",
     [S + "property.py", S + "tracker.py", S + "kmc.py"],
     [("trigger evaluation", S + "property.py / tracker.py"), ("bounded record storage", S + "tracker.py")],
     [("attachments, schedules, records", "what is due and what was stored", S + "property.py")],
     ["KMC.attach/detach/set_property_frequency/...", "Tracker.get_custom_records"])

prop("C06", "An error during a run is reported and leaves a simulation that can go on",
     "When a callback, a rate model, an external evaluator, an interrupt or a failed file operation ends a run, that error reaches the caller (unless the user's handler accepted it), the simulation state sits on a step boundary of the true trajectory (occupations, step number and clock agree), and the attachments are as the user left them. A later run on the same objects, or on a copy or checkpoint of that state, behaves exactly like a run started fresh from that state: same hops, same waiting times, no stale rate and no stale external state.",
     ["fault_sequences", "crash_points", "histories"],
     "every fault point (any callback call, any rate evaluation, any event application, any write) with every error kind, followed by any continuation",
     "Tests inject one callback error in one place and do not continue the simulation afterwards.",
     [S + "kmc.py", S + "state.py", S + "tracker.py", "kmcpy/models/site_energy.py", "kmcpy/models/composite_lce_model.py"],
     [("rebuild after an incomplete update", S + "kmc.py: KMC.update/run"), ("callback error wrapping", S + "tracker.py")],
     [("occupations/rates/external occupation", "three copies of the truth an error can separate", S + "kmc.py")],
     ["KMC.run", "KMC.simulation_state", "KMC.list_attachments"])

prop("C07", "An external energy evaluator always sees the true occupations, each hop once",
     "Whenever kMCpy asks an external site-energy evaluator for an energy change, the occupation handed over is the current one of the simulation, translated into the evaluator's own site order and state values without loss, and the proposed changes are exactly the two sites of the hop with their correct new values. The evaluator is told of every accepted hop exactly once, in order, and of no other. This also holds after errors, restarts, saving and reloading the model, a model used by several simulations one after the other, and for values of any type in the mapping (integers, floats, strings or a mixture). A mapping that has no valid external site or value for a site or state in use is refused.",
     ["histories", "inputs", "fault_sequences", "configurations"],
     "all site/state mappings, array sizes and value types, all trajectories, all evaluator failures and continuations",
     "Tests use one or two mappings and a few hops with an evaluator that never fails.",
     ["kmcpy/models/site_energy.py", "kmcpy/models/composite_lce_model.py", S + "kmc.py"],
     [("incremental external occupation", "kmcpy/models/site_energy.py: SiteEnergyModel"), ("initialize_state / apply_event protocol", "kmcpy/models/base.py")],
     [("external occupation array", "mirror of the occupations in external encoding", "kmcpy/models/site_energy.py")],
     ["SiteEnergyModel compute_fn/apply_fn arguments"])

prop("C08", "A checkpoint survives a crash whole and restarts the same simulation",
     "After a checkpoint has been saved, loading it gives back exactly the saved occupations, time and step, and a simulation continued from it is indistinguishable from one continued from memory. If saving is interrupted at any point by a process crash, a power loss, a full disk, an I/O error or an interrupt, loading afterwards gives either the previous checkpoint or the new one, never a mixture, a truncated or unreadable file; and if saving returned normally the new one is there.",
     ["crash_points", "fault_sequences", "histories"],
     "every file operation of every save as crash/error/short-write point, process crash and power loss, any history of saves",
     "Tests save and load once on a healthy disk.",
     [S + "state.py"],
     [("checkpoint writing", S + "state.py: State.save_checkpoint"), ("checkpoint loading", S + "state.py: State.load_checkpoint/from_file")],
     [("checkpoint file", "the durable copy of the state", S + "state.py")],
     ["State.save_checkpoint", "State.load_checkpoint", "State.from_file"])

prop("C09", "Saved inputs, models and results are complete or the failure is reported",
     "Event libraries, models, fitted parameters and configurations that were saved come back equal when loaded, and an interrupted or failed save leaves the previous file or the new one, never a damaged one; saving one section of a configuration file never loses the other sections. When a run returns normally, the result files it wrote contain exactly the results and records held in memory; when writing them failed, the run does not return normally. Loading never silently accepts a truncated JSON file.",
     ["crash_points", "fault_sequences", "histories"],
     "every file operation of every save or load as fault point, every artifact kind, any sequence of saves",
     "Tests write and read each artifact once on a healthy disk.",
     ["kmcpy/event/base.py", "kmcpy/models/base.py", "kmcpy/models/parameters.py", "kmcpy/models/local_barrier_model.py", "kmcpy/models/composite_lce_model.py", "kmcpy/models/local_cluster_expansion.py", S + "config.py", S + "results.py", S + "tracker.py"],
     [("artifact writers and readers", "EventLib.to/from_file, *.to/from_file, Configuration.to/from_file"), ("result writers", S + "results.py")],
     [("artifact files", "durable inputs and outputs of a simulation", "kmcpy/event, kmcpy/models, kmcpy/simulator")],
     ["to/from_file methods", "files written by KMC.run"])

prop("C10", "The history of cluster-expansion fits never loses an entry",
     "Fits are run one after the other, and every fit that completed stays in the fit history: a later fit, a failed or interrupted save, a crash, a clock that jumps, or an unreadable history file never removes, reorders or alters the entries of earlier fits, and a fit that returned normally has exactly one new entry at the end with the values it returned. Those values are the weighted Lasso solution of the data given to that fit and its unweighted leave-one-out error.",
     ["crash_points", "fault_sequences", "histories"],
     "every file operation of every save as fault point, any number of fits, any clock, current and older history formats",
     "Tests append once or twice on a healthy disk.",
     ["kmcpy/models/fitting/fitter.py", "kmcpy/models/parameters.py"],
     [("append to history", "kmcpy/models/fitting/fitter.py: LCEFitter._save_fit_results_history")],
     [("fit history file", "one entry per fit", "kmcpy/models/fitting/fitter.py")],
     ["LCEFitter.fit", "history file", "parameters history loaders"])

prop("C11", "Artifacts of different site spaces are never mixed in one simulation",
     "KMC.from_config starts a simulation only if the event file was made for exactly the active-site space of the configuration (species and order of the sites, site mapping with its species order, supercell), the initial state (list, JSON or HDF5) has one valid state index per active or full site, a site-energy model bound to a site order was bound to this one, and the cluster expansion covers the local environment and the species of every event. Whatever mixture of stale, swapped, truncated or half-regenerated files lies in the project, it either refuses with an error before the first step or runs exactly the simulation of the matching set, and a matching set is never refused. Cluster-expansion parameters recorded for another local environment, for other orbits or for another order of the orbits are never accepted.",
     ["configurations", "histories", "fault_sequences"],
     "all mixtures of artifacts from different generations of a project and all interrupted regenerations",
     "Tests mismatch one item in one fixture.",
     [S + "kmc.py", "kmcpy/structure/active_site_order.py", "kmcpy/structure/local_site_order.py", "kmcpy/event/base.py", S + "state.py", "kmcpy/models/local_cluster_expansion.py"],
     [("validation of metadata, state and model", S + "kmc.py: KMC.from_config"), ("parameter fingerprints", "kmcpy/models/local_cluster_expansion.py: LocalClusterExpansion.set_parameters"), ("site-order hash", "kmcpy/models/site_energy.py: SiteEnergyModel.initialize_state"), ("index metadata", "kmcpy/event/base.py: EventLib.set_index_metadata")],
     [("index metadata, active-site signature", "what each artifact says it was built for", "kmcpy/structure/active_site_order.py")],
     ["KMC.from_config", "LocalClusterExpansion.set_parameters/load_parameters_from_file"])

prop("C12", "Creating input templates never destroys a file it was not told to overwrite",
     "The template command never changes or truncates an existing file unless overwriting was asked for, even when the file appears while the command is running or writing fails half-way; it then reports an error. When it reports success the file holds the complete template, and with overwriting asked for an interrupted write leaves the old file or the new one.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving with another process creating the file and every write failure",
     "Tests call it once with and once without an existing file.",
     ["kmcpy/cli/init.py"],
     [("existence test and write", "kmcpy/cli/init.py: write_template")],
     [("template file", "user's input file", "kmcpy/cli/init.py")],
     ["kmcpy init", "write_template"])

prop("C13", "Gathered tables hold every run's rows once, whatever the disk order",
     "Gathering the result tables of many runs (files results_<composition>_<index>.csv.gz matched by a pattern) or the final states of many Monte Carlo folders (comp_<composition>_<index>) yields each row of each matched run exactly once, with that run's own values, composition, structure index and row number, whatever the directories are called, whatever order the file system lists them in and whatever order parallel jobs finish in; the files are not changed; a missing, unreadable or incomplete file is reported and never silently dropped or mixed into another run's rows.",
     ["schedules", "configurations", "fault_sequences"],
     "all directory listing orders, all sets of runs and directory names, all job completion orders, all read errors and damage of files",
     "No test gathers more than one directory, lists a directory in another order or meets a damaged file.",
     ["kmcpy/tools/gather_mc_data.py", "kmcpy/tools/gather_kmc_data.py"],
     [("file collection", "kmcpy/tools/*.py"), ("matching of configurations with the template", "kmcpy/tools/gather_mc_data.py")],
     [("result files", "output of many runs", "kmcpy/tools")],
     ["gather_kmc_data.gather_data", "gather_mc_data.gather_data", "gather_mc_data.get_occ"])

prop("C15", "Event generation finds every hop of the crystal, whatever happened before",
     "The event library generated from a structure file lists, in the site order the simulation uses, exactly the hops of the crystal: for every site that matches the initial identifier, every neighbouring mobile site within the cutoff that matches the target identifier, once for each periodic image, with all active sites within the cutoffs as its local environment. Translated copies of a site list their environment in the same order, and sites sharing a reference environment in the same geometrical order. The library depends on the request alone, not on earlier requests, reused generators or hash order, and its dependencies cover every event that reads a changed site. A damaged or missing input, a selection without hops, or (when exact matching is asked for) environments that do not match are refused; a failed or interrupted generation leaves the event file old or new.",
     ["inputs", "histories", "fault_sequences"],
     "all cells, symmetries, site positions (faces and edges of the cell included), selections, cutoffs and supercells, all sequences of requests, all disk errors and crash points",
     "Tests generate two crystals once each and count environments; no write fails.",
     ["kmcpy/event/generators.py", "kmcpy/structure/neighbors.py", "kmcpy/structure/cluster.py", "kmcpy/structure/sites.py", "kmcpy/io/cif.py", "kmcpy/event/base.py"],
     [("neighbour search in the primitive cell", "kmcpy/structure/neighbors.py"), ("expansion into the supercell", "kmcpy/event/generators.py: generate_events"), ("matching to a reference environment", "kmcpy/structure/cluster.py: ClusterMatcher")],
     [("event library", "hops, environments and dependencies", "kmcpy/event/base.py: EventLib")],
     ["EventGenerator.generate_events", "event files"])

prop("C18", "A configured simulation is the same however it is started",
     "A simulation described by a configuration is the same - trajectory, sampled rows, records, labels and file names - however it is started: run_kmc with a JSON or YAML input file (flat, a kmc section, or a selected task of a workflow file, relative to the working directory) or with single arguments, the Python API, a configuration loaded, saved into a file (also into a workflow file with other sections or tasks, which stay), built from a dictionary, combined, or derived from another one, which itself never changes. Parameters not given have their documented defaults. Unknown, invalid or missing parameters and missing, damaged or unreadable files are refused with an error and without results; success is never announced for a simulation that failed; the input files are never changed.",
     ["histories", "configurations", "fault_sequences"],
     "all ways of starting, all orders of writing, overwriting, damaging and starting configurations, all parameter sets and all disk errors",
     "Tests start a configured simulation in one way each and compare with recorded numbers of one crystal.",
     ["kmcpy/cli/run_kmc.py", "kmcpy/api.py", "kmcpy/simulator/config.py", "kmcpy/simulator/kmc.py"],
     [("section and task selection", "kmcpy/simulator/config.py"), ("argument parsing", "kmcpy/cli/run_kmc.py"), ("application of a configuration", "kmcpy/simulator/kmc.py: from_config")],
     [("input files", "JSON/YAML configuration and workflow files", "kmcpy/simulator/config.py"), ("result files", "output of the run", "kmcpy/simulator/results.py")],
     ["run_kmc", "kmcpy.api.run", "Configuration.from_file, to, from_dict, with_runtime_changes, with_system_changes", "KMC.from_config"])

prop("C19", "A fitting data set holds the accepted NEB structures, each with its own row",
     "A NEB fitting data set holds exactly the structures it accepted, in the order they were added, each with its own target value, occupation and correlation row, whatever the site order, periodic image, or file format of the structure; a row never changes later. A refused addition (unreadable or foreign structure, value that is no number, missing property, model of another site space) leaves the set as it was, and a batch that fails adds at most a beginning of valid rows. The same entry, structure or model may be used in several sets without changing the others. Saved data sets and written fitting inputs hold exactly those rows, values and weights, come back unchanged, and a save that fails or is interrupted leaves every file old or new; a fit from the written files is the fit of the rows.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of adding, refusing, batching, sharing, saving, loading and fitting over several data sets, all site orders and periodic images, all disk errors and crash points",
     "Tests add a few structures of one crystal in one order to one set, and no write fails.",
     ["kmcpy/io/neb/data.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/structure/active_site_order.py", "kmcpy/structure/lattice_structure.py", "kmcpy/models/fitting/fitter.py"],
     [("adding and evaluating an entry", "kmcpy/io/neb/data.py"), ("occupation of a structure in active-site order", "kmcpy/structure/active_site_order.py"), ("correlation row", "kmcpy/models/local_cluster_expansion.py: get_occ_corr_from_structure")],
     [("entries, rows and targets", "the data set", "kmcpy/io/neb/data.py"), ("fitting input files", "correlation_matrix, e_kra, weight, keci", "kmcpy/models/fitting/fitter.py")],
     ["data-set API", "saved JSON", "fitting input files", "fit results"])

prop("C16", "Local-barrier rules give the first matching barrier, whatever came before",
     "The barrier (or other property) of an event, and its rate, are those of the first rule in the table whose conditions hold for the occupations given, or the default ones when no rule matches; if neither says, an error is raised. This holds however the table came about: rules given to the constructor, added one by one in any spelling (typed or untyped, words or numbers for states, helper methods, entries made from an event and a state), exact entries, replaced as a whole, copied, saved and loaded, and however often it was read in between. Copies are independent of each other and of the objects passed in. An invalid rule or a second exact rule for the same environment is refused, and a refused change leaves the table and its defaults as they were.",
     ["histories", "inputs"],
     "all sequences of building, extending, replacing, copying, reading and refused changes of several rule tables, all rules of all types and site selections, all occupations",
     "Tests build a few tables once and read one barrier; a table that changes over time, mixed rule types and refusals half-way are not sampled.",
     ["kmcpy/models/local_barrier_model.py"],
     [("rule matching", "kmcpy/models/local_barrier_model.py: _rule_matches, _matched_properties"), ("changing the table", "kmcpy/models/local_barrier_model.py: add_rule, build")],
     [("rules, exact keys and defaults", "the ordered table", "kmcpy/models/local_barrier_model.py")],
     ["LocalBarrierModel.compute", "compute_probability", "as_dict/from_dict/to/from_file"])
prop("C17", "Enumerated NEB environments are complete and free of duplicates",
     "Enumerating local environments yields every allowed decoration of the chosen variable sites around the center exactly once (up to the limit asked for), respecting the species filter, the species counts and the base occupation of all other sites, and each result is consistent: its structure, its full occupation, its local occupation in the model's local-site order and its label describe the same decoration. NEB endpoint pairs differ by exactly one ion that moves from the first to the second site, with atoms in the same order. Replies of an external ordering program are taken over in order when they fit, and its failures are passed on. Converting occupations to structures and back returns the same occupation, also in supercells. Requests that make no sense are refused. The lattice, base occupations and earlier results never change, so repeated and interleaved requests give the same answers.",
     ["inputs", "histories", "fault_sequences"],
     "all small lattices, site mappings, centers, cutoffs, filters, counts and base occupations, all sequences of requests on shared objects, all replies (including failures) of the ordering program",
     "Tests enumerate one or two hand-made cells once each with a well-behaved ordering stub.",
     ["kmcpy/structure/local_environment_enumerator.py", "kmcpy/structure/lattice_structure.py", "kmcpy/structure/local_site_order.py", "kmcpy/structure/active_site_order.py"],
     [("enumeration", "kmcpy/structure/local_environment_enumerator.py: enumerate_local_environments"), ("endpoint pairs", "kmcpy/structure/local_environment_enumerator.py: generate_neb_endpoint_pair"), ("occupation conversion", "kmcpy/structure/lattice_structure.py")],
     [("occupation vectors", "one state per site", "kmcpy/structure/lattice_structure.py")],
     ["enumerate_local_environments", "generate_neb_endpoint_pair", "enumerate_neb_endpoint_pairs", "LatticeStructure.get_occ_from_structure / get_structure_from_occ"])

NA = "a pure function of its input: no schedule, clock, randomness, fault or I/O takes part, so a simulator has nothing to decide (see DESIGN.md)"
prop("C14", "Cluster-expansion energies respect the symmetry and basis of the crystal",
     "For every occupation, the local cluster expansion energy equals the sum over symmetry-equivalent decorated clusters with the declared site basis, and is unchanged under symmetry operations of the local environment.",
     ["inputs"], "all structures, occupations and bases", "Tests cover one crystal.",
     ["kmcpy/models/local_cluster_expansion.py", "kmcpy/structure/cluster.py", "kmcpy/structure/basis.py"],
     [("orbit generation", "kmcpy/structure/cluster.py")], na=NA)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, reason in P:
        if p["id"] in REGISTRY:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": "deterministic simulation with fault injection: seeded search over schedules, operation histories and faults against a reference model, minimised replay",
                "level": "exploration",
                "level_note": "Seeded sampling, not exhaustive: " + NOTES.get(p["id"], ""),
            })
        else:
            na.append({"property": p["id"], "reason": reason or "check not built yet"})
    json.dump({"version": 1,
               "setup_cmd": "/opt/venv/bin/python -c 'from dst import shim; print(shim.ensure())'",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every seam is public API, numpy.random.default_rng, time/datetime, or the LD_PRELOAD file-system shim built from shim/ioshim.c."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


NOTES = {
    "C01": "refinement of every step against an independent reference KMC that knows the seed; the stub rate table and evaluator read only sites their event lists.",
    "C02": "every observed step checked on species level; equilibration hops checked through the model's own hooks; trusts the harness's reading of allowed-species lists.",
    "C03": "independent recomputation from the observed trajectory; conductivity compared at 3e-4 because kMCpy rounds its constants.",
    "C04": "simulations run as parked threads switched by the simulator at callback and model calls; switches inside numba kernels are not explored.",
    "C05": "reference scheduler compared call by call; mid-run clearing of both global triggers is not exercised.",
    "C06": "faults at every user-code and file-operation boundary; interrupts between two arbitrary bytecodes are not explored.",
    "C07": "simulated evaluator compares every argument with its own mirror; mappings up to 3 states per site.",
    "C08": "process crash at any file operation, power loss by a conservative model of unsynced data (page-granular, metadata ordered), errno and short writes.",
    "C09": "as C08 for every artifact writer; result files only claim completeness on normal return.",
    "C10": "as C08 for the fit history; regression itself runs for real on small data.",
    "C11": "mixtures drawn from three generated generations of one project; coordinates are not part of a site space.",
    "C12": "the racing process acts between any two file-system calls of the command.",
    "C13": "directory order permuted at the listdir/scandir seam; the joblib pool is a stub.",
    "C19": "one small crystal with seeded structures; the three fitting input files are not required to change together.",
    "C15": "cells of up to 8 sites and supercells of up to 12 cells; cutoffs keep 0.02 A from every distance; pymatgen's CIF tokenizer and neighbour search are trusted to be those installed, not re-implemented, but their result is recomputed.",
    "C16": "tables of up to a few dozen rules over at most nine sites and three states; faults on model files are injected under C09.",
    "C17": "cells of up to a few sites; the ordering program is a simulated party; full-size structures are given in lattice order.",
    "C18": "small projects on disk, every run with a seed; single-argument starts are followed to the configuration they begin with (kMCpy's flags set no seed, passes or initial state).",
}

if __name__ == "__main__":
    main()
