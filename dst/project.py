"""A kMCpy project on disk: the input files of one world, and KMC.from_config."""
from __future__ import annotations

import os

from . import world as W


def cif_text(w):
    a, b, c, al, be, ga = w["lattice"]
    out = ["data_world", f"_cell_length_a {a:.6f}", f"_cell_length_b {b:.6f}",
           f"_cell_length_c {c:.6f}", f"_cell_angle_alpha {al:.6f}", f"_cell_angle_beta {be:.6f}",
           f"_cell_angle_gamma {ga:.6f}", "_symmetry_space_group_name_H-M 'P 1'",
           "_symmetry_Int_Tables_number 1", "loop_", "_symmetry_equiv_pos_site_id",
           "_symmetry_equiv_pos_as_xyz", "1 'x, y, z'", "loop_", "_atom_site_type_symbol",
           "_atom_site_label", "_atom_site_symmetry_multiplicity", "_atom_site_fract_x",
           "_atom_site_fract_y", "_atom_site_fract_z", "_atom_site_occupancy"]
    for i, s in enumerate(w["sites"]):
        x, y, z = s["f"]
        out.append(f"{s['sp']} {s['sp']}{i} 1 {x:.6f} {y:.6f} {z:.6f} 1")
    return "\n".join(out) + "\n"


def mapping(w):
    return {k: (list(v) if len(v) > 1 else v[0]) for k, v in w["mapping"].items()}


def load_order(w, cif):
    from kmcpy.io.cif import load_labeled_structure_from_cif
    from kmcpy.structure.active_site_order import ActiveSiteOrder
    full = load_labeled_structure_from_cif(cif, primitive=False)
    return ActiveSiteOrder.from_structure_and_mapping(full, mapping(w), supercell_shape=w["shape"])


def make_lib(w, order, deps=True):
    from kmcpy.event import Event, EventLib
    lib = EventLib()
    for e in w["events"]:
        lib.add_event(Event(mobile_ion_indices=tuple(e["m"]), local_env_indices=tuple(e["env"])))
    if deps:
        lib.generate_event_dependencies()
    lib.set_index_metadata(order)
    return lib


def configuration(w, d, **over):
    from kmcpy.simulator.config import Configuration
    kw = dict(w["cfg"])
    kw.update(mobile_ion_specie=w["mobile"], supercell_shape=tuple(w["shape"]), name="sim",
              structure_file=os.path.join(d, "structure.cif"),
              model_file=os.path.join(d, "model.json"),
              event_file=os.path.join(d, "events.json"),
              site_mapping=mapping(w))
    if "initial_occupations" not in over and "initial_state_file" not in over:
        kw["initial_state_file"] = os.path.join(d, "initial_state.json")
    kw.update(over)
    return Configuration(**kw)
