"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
from check import TABLE
T = {
 "sys": "TLA+ specification (System.tla) checked with TLC; TLC-simulated histories replayed step by step into the library, abstract state compared after every step",
 "I03": "TLA+ (System.tla, FileSave.tla) with TLC; replay of TLC histories, recorded file-operation traces validated by TLC, and enumeration of crash points in the real save()",
 "F02": "TLA+ (System.tla, Registry.tla) with TLC; TLC-simulated histories replayed into the library",
 "L01": "TLA+ (Lattice.tla): TLC judges the bond lists exported from the real code for every unit cell; System.tla histories replayed",
 "E02": "TLA+ (GateTerms.tla): TLC computes the integer generators and sums; replay of TLC-generated Hamiltonians into Gate",
 "E03": "TLA+ (Torus.tla): TLC computes the exact evolved torus state (Gaussian integers); generated runs replayed into the real evolution and its state compared",
 "E04": "TLA+ (Torus.tla): TLC computes the exact evolved torus state (Gaussian integers); generated runs replayed into the real evolution and its state compared",
 "E05": "TLA+ (Lambda.tla): TLC model of which weights a step renews and how; histories replayed into the real simple update",
 "E06": "TLA+ (Als.tla): TLC computes the exact iterates of the solver (residue number system, big naturals for the stop rule) and checks that each is a minimum; generated cases replayed into the real solver",
 "X01": "TLA+ (Als.tla, Torus.tla): the C++ extension is compiled from the tree with host-memory stand-ins for the GPU libraries, and TLC-generated solver cases and exact evolutions are replayed into it",
 "C01": "TLA+ (CTM.tla): TLC model of the directional moves (provenance of each boundary tensor); move histories replayed into the library, and recorded sweeps validated against the spec",
 "C02": "TLA+ (CTM.tla): TLC computes the cluster of sites absorbed by a move history; replayed moves compared with the exact contraction of that cluster",
 "C03": "TLA+ (CTM.tla): TLC model of the boundary leg dimensions under moves and chi changes; histories replayed and dimensions compared",
 "C04": "TLA+ (CTM.tla, projector part): TLC enumerates cuts/dimensions and predicts retained ranks; replayed into the real projector computation with algebraic postconditions",
 "C05": "TLA+ (Circuit.tla): TLC evolves Pauli strings of the infinite lattice through generated circuits, giving exact expectation values; the states are built or evolved, renormalized and measured by the library and compared",
 "M01": "TLA+ (Measure.tla): TLC computes exact rational expectation values of generated product states and operators; replayed into measure()",
 "M02": "TLA+ (Wiring.tla): TLC derives the leg-by-leg connectivity of every density matrix; one-hot probe networks for each leg replayed into the library",
 "M03": "TLA+ (Wiring.tla): TLC derives the leg-by-leg connectivity of every bond environment; one-hot probe networks replayed into the library",
 "D01": "TLA+ (Dist.tla): TLC explores all interleavings of the SPMD program; recorded collective traces of real multi-process runs validated against it",
 "D02": "TLA+ (Dist.tla): TLC-checked work distribution; real multi-process runs replayed against the single-process run",
 "P01": "TLA+ (Pauli.tla): TLC generates operator expressions and computes their exact Gaussian-integer matrices; replayed into PauliMatrix",
 "X02": "TLA+ (LowRank.tla): TLC generates matrices with exactly known singular value decompositions and states what a randomized decomposition is entitled to return; replayed into the three decompositions",
 "P02": "TLA+ (Models.tla): TLC states the documented matrix elements for every bond/site/parameter; replayed into the built-in models",
 "F01": "TLA+ (Config.tla): TLC model of option/default/fallback semantics; generated configurations and environments replayed into the configuration code",
}
LEVEL = {"D01": "model_checking", "I03": "model_checking"}
NOTE = "Exhaustive or sampled (VERIF_SEED) within the bounds in the evidence file; trusts TLC, the projection in harness/ and CPU PyTorch arithmetic. See DESIGN.md."
NA = {
}
built = [p for p in TABLE if os.path.exists(os.path.join(here, "harness", TABLE[p] + ".py"))]
na = dict(NA)
for p in TABLE:
    if p not in built:
        na[p] = "Check not built yet."
checks = [{"property": p,
           "quick_cmd": f"/opt/venv/bin/python /verif/harness/check.py {p}",
           "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python /verif/harness/check.py {p}",
           "evidence_file": f"evidence/{p}.json",
           "technique": T.get(p, T["sys"]), "level": LEVEL.get(p, "model_checking"), "level_note": NOTE} for p in sorted(built)]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import torch, tqdm' && java -version",
     "hooks": {"guard": "none", "enable": "no hooks were added to /repo; the checks import /repo's working tree directly", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", sorted(na))
