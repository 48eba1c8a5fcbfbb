"""L01: the library's site and bond lists judged by Lattice.tla, and histories of System.tla."""
import os, tempfile, shutil
import torch
import re
from vlib import tlc, tier, SEED
from sys_check import run_profile
from sys_replay import with_timeout


def record(net, nx, ny, how):
    from acetn.model import Model
    from acetn.ipeps import Bond
    name = Model.bond_direction     # what a model's own methods use to tell bonds apart
    return {"nx": nx, "ny": ny, "how": how, "sites": [list(s) for s in net.site_list],
            "bonds": [{"s1": list(b.s1), "s2": list(b.s2), "k": int(b.k), "dir": str(name(b)),
                       "back": str(name(Bond(b.s2, b.s1, (b.k + 2) % 4))), "plain": str(name([b.s1, b.s2, b.k]))} for b in net.bond_list]}


def cells(c, N):
    from acetn.ipeps import Ipeps
    out = []
    d = tempfile.mkdtemp()
    try:
        for nx in range(1, N + 1):
            for ny in range(1, N + 1):
                cfg = {"TN": {"nx": nx, "ny": ny, "dims": {"phys": 2, "bond": 1, "chi": 2}},
                       "ctmrg": {"steps": 0, "disable_progressbar": True}, "evolution": {"disable_progressbar": True, "update_type": "simple"},
                       "model": {"name": "ising", "params": {"jz": 1., "hx": 1.}}}
                net = Ipeps(cfg)
                out.append(record(net, nx, ny, "new"))
                cp = net.copy()
                out.append(record(cp, nx, ny, "copy"))
                out.append(record(Ipeps(cfg, ipeps=net), nx, ny, "from"))
                try:
                    net.evolve(0.01, 1)
                    out.append(record(net, nx, ny, "evolved"))
                    p = os.path.join(d, "n.pt")
                    net.save(p)
                    fresh = Ipeps(cfg)
                    fresh.load(p)
                    out.append(record(fresh, nx, ny, "loaded"))
                    for s in fresh.site_list:
                        fresh[s]
                except Exception as e:
                    if nx > 1 and ny > 1:
                        c.violation(f"{nx}x{ny}: {type(e).__name__}: {e}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def run(c, pid):
    N = tier(6, 10)
    try:
        recs = with_timeout(400, lambda: cells(c, N))
    except Exception as e:
        c.violation(f"a network cannot be built: {type(e).__name__}: {e}")
        return
    r = tlc("LatticeCheck", dict(NX=N, NY=N), invariants=["SpecOk", "Ok"], inputs={"cells.ndjson": recs}, allow_violation=True)
    c.add_tlc(r)
    if r.violated:
        # find every bad record
        bad = None
        m = re.findall(r"i = (\d+)", r.out)
        if m and int(m[-1]) > 0:
            bad = recs[int(m[-1]) - 1]
        c.violation(f"not the periodic square lattice: {bad and (bad['nx'], bad['ny'], bad['how'])} {bad and bad['bonds']}", bad)
    else:
        c.traces += len(recs)
    c.sample({"cell": "2x1", "record": next(x for x in recs if (x["nx"], x["ny"]) == (2, 1))})
    run_profile(c, "L01")
