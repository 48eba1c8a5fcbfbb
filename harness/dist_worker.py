"""One rank of a distributed run (started by dist_check.py): runs scenarios, records collectives, moves and results.
usage: dist_worker.py SCENARIOS.json OUTDIR   (RANK, WORLD_SIZE, MASTER_ADDR, MASTER_PORT in the environment)"""
import sys, os, json, gc, random
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
import numpy as np
import torch
import torch.distributed as dist
torch.set_num_threads(1)
torch.set_flush_denormal(True)

rank = int(os.environ.get("RANK", 0))
events = []


def wrap(mod, name, info):
    f = getattr(mod, name, None)
    if f is None:
        return
    depth = [0]

    def g(*a, **kw):
        if depth[0] == 0:
            events.append(info(*a, **kw))
        depth[0] += 1
        try:
            return f(*a, **kw)
        finally:
            depth[0] -= 1
    setattr(mod, name, g)


def size(t):
    return int(t.numel()) if isinstance(t, torch.Tensor) else -1


def kind(t):
    return str(t.dtype) if isinstance(t, torch.Tensor) else "object"


wrap(dist, "broadcast", lambda t, src=None, *a, **k: dict(e="coll", kind="broadcast", src=int(src if src is not None else k.get("group_src", 0)), n=size(t), dt=kind(t)))
wrap(dist, "all_gather", lambda out, t, *a, **k: dict(e="coll", kind="all_gather", src=0, n=size(t), dt=kind(t)))
wrap(dist, "all_gather_into_tensor", lambda out, t, *a, **k: dict(e="coll", kind="all_gather", src=0, n=size(t), dt=kind(t)))
wrap(dist, "all_reduce", lambda t, *a, **k: dict(e="coll", kind="all_reduce", src=0, n=size(t), dt=kind(t)))
wrap(dist, "reduce", lambda t, dst=0, *a, **k: dict(e="coll", kind="reduce", src=int(dst), n=size(t), dt=kind(t)))
wrap(dist, "barrier", lambda *a, **k: dict(e="coll", kind="barrier", src=0, n=0, dt=""))
wrap(dist, "broadcast_object_list", lambda o, src=0, *a, **k: dict(e="coll", kind="broadcast_object", src=int(src), n=0, dt=""))
wrap(dist, "all_gather_object", lambda *a, **k: dict(e="coll", kind="all_gather_object", src=0, n=0, dt=""))

import acetn.ipeps
from acetn.ipeps import Ipeps
from acetn.ipeps.tensor_network import TensorNetwork
from acetn.model import Model
from acetn.renormalization.directional_mover import DirectionalMover as DM
from acetn.evolution.fast_full_update import FastFullUpdater as FFU
import tqdm
tqdm.tqdm.write = lambda *a, **k: None


def around(cls, name, before, after):
    f = getattr(cls, name, None)
    if f is None:
        return False

    def g(self, *a, **kw):
        events.append(before(*a, **kw))
        r = f(self, *a, **kw)
        if after:
            events.append(dict(e=after))
        return r
    setattr(cls, name, g)
    return True


ok = around(DM, "left_right_move_dist", lambda n, a, b: dict(e="move", ax=0, a=int(a), b=int(b)), "end")
ok &= around(DM, "up_down_move_dist", lambda n, a, b: dict(e="move", ax=1, a=int(a), b=int(b)), "end")
for d, m in enumerate(("left", "up", "right", "down")):
    ok &= around(DM, f"calculate_{m}_projectors", lambda n, x, y, d=d: dict(e="cut", d=d, x=int(x), y=int(y)), None)
ok &= around(FFU, "bond_update", lambda b: dict(e="bond", s=[int(v) for v in b.s1], d=int(b.k)), "end_bond")


class Mod(Model):
    """Hermitian couplings without any symmetry, different on every bond."""
    scale = 0.5

    def rand(self, n, *key):
        g = torch.Generator().manual_seed(hash(key) % 100003)
        r = torch.randn(n, n, dtype=self.dtype, generator=g)
        return self.scale * (r + r.mH)

    def two_site_hamiltonian(self, bond):
        return self.rand(4, *map(int, bond.s1), *map(int, bond.s2), int(bond.k))

    def one_site_hamiltonian(self, site):
        return self.rand(2, *map(int, site), 99)

    def one_site_observables(self, site):
        return {"o": self.rand(2, 7)}

    def two_site_observables(self, bond):
        return {"t": self.rand(4, 8)}


def make(sc):
    cfg = {"dtype": sc["dtype"], "TN": {"nx": sc["cell"][0], "ny": sc["cell"][1], "dims": {"phys": 2, "bond": sc["D"], "chi": 6}},
           "ctmrg": {"steps": 1, "disable_progressbar": True, "projectors": sc["projectors"], "svd_type": sc["svd"]},
           "evolution": {"disable_progressbar": True}}
    net = Ipeps(cfg)
    if sc["start"] == "given":
        tn = TensorNetwork(None, net.config.TN, net.dtype, net.device)
        g = torch.Generator().manual_seed(sc["seed"])
        D = sc["D"]
        for s in tn.site_list:
            A = torch.randn(D, D, D, D, 2, dtype=net.dtype, generator=g) * 0.4
            A[0, 0, 0, 0] += torch.randn(2, dtype=net.dtype, generator=g)
            tn[s]["A"] = A / A.norm()
            tn[s].initialize_corner_tensors()
            tn[s].initialize_edge_tensors()
        net = Ipeps(cfg, ipeps=tn)
    net.set_model(Mod, {})
    return net


def dump(net):
    out = {}
    for s in net.site_list:
        for kind, j, t in [("A", 0, net[s]["A"])] + [(k, j, net[s][k][j]) for k in "CE" for j in range(4)]:
            out[f"{tuple(s)} {kind}[{j}]"] = t.detach().to(torch.complex128).resolve_conj().numpy()
    return out


def scenario(sc, outdir, num):
    net = make(sc)
    measured = []
    for n, o in enumerate(sc["ops"]):
        note(outdir, num, n, o["op"])
        if o["op"] == "sweep":
            net.config.ctmrg.steps = o["x"]
            events.append(dict(e="sweep", x=o["x"]))
            net.renormalize()
            events.append(dict(e="end_sweep"))
        elif o["op"] in ("evolve_full", "evolve_simple"):
            net.config.evolution.update_type = o["op"][7:]
            net.evolve(0.04, 1 + o["x"] % 2)
        elif o["op"] == "measure":
            m = net.measure()
            measured.append({k: np.array([complex(x) for x in (v if isinstance(v, (list, tuple)) else [v])]) for k, v in flat(m).items()})
        elif o["op"] == "chi":
            net.set_chi([4, 6, 9][o["x"] - 1])
        elif o["op"] == "saveload":
            f = os.path.join(outdir, f"net{num}_{n}.pt")
            net.save(f)
            net.load(f)
        elif o["op"] == "renew":
            if sc["start"] != "given":
                del net
                gc.collect()
                net = make(sc)
            else:
                other = make(sc)
                del other
                gc.collect()
    return dump(net), measured


def flat(m, pre=""):
    r = {}
    for k, v in m.items():
        if isinstance(v, dict):
            r.update(flat(v, f"{pre}{k}."))
        else:
            r[f"{pre}{k}"] = v
    return r


def note(outdir, num, n, what):
    with open(os.path.join(outdir, f"progress_{rank}"), "w") as f:
        f.write(f"scenario {num}, operation {n} ({what})")


def run(scenarios, outdir):
    import pickle
    torch.manual_seed(1234 + 77 * rank)            # ranks never share their random numbers
    for num, sc in enumerate(scenarios):
        events.clear()
        res = scenario(sc, outdir, num)
        with open(os.path.join(outdir, f"result_{num}_{rank}.pkl"), "wb") as f:
            pickle.dump(dict(tensors=res[0], measured=res[1], events=list(events), moves_visible=ok), f)
    note(outdir, len(scenarios), 0, "finished")


if __name__ == "__main__":
    try:
        run(json.load(open(sys.argv[1])), sys.argv[2])
    except BaseException as e:
        import traceback
        with open(os.path.join(sys.argv[2], f"error_{rank}"), "w") as f:
            f.write(f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
        os._exit(3)
