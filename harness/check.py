"""check.py <PROPERTY-ID>: decide one property on /repo's current working tree."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

TABLE = {
    "I01": "sys_check", "I02": "sys_check", "I03": "sys_check", "I04": "sys_check", "I05": "sys_check",
    "E01": "sys_check", "F02": "sys_check", "T01": "sys_check", "L01": "lattice_check",
    "E02": "gate_check", "E03": "torus_check", "E04": "torus_check", "E05": "lambda_check",
    "C01": "ctm_check", "C02": "ctm_check", "C03": "ctm_check", "C04": "proj_check",
    "M01": "measure_check", "M02": "wiring_check", "M03": "wiring_check",
    "D01": "dist_check", "D02": "dist_check",
    "E06": "als_check", "X01": "als_check",
    "X02": "lowrank_check", "C05": "circuit_check",
    "P01": "pauli_check", "P02": "models_check", "F01": "config_check",
}

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module(TABLE[pid])
    vlib.main(pid, lambda c: mod.run(c, pid))
