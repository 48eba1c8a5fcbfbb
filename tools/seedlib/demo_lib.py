"""Small helpers shared by the demonstrations (copied next to each of them)."""
import os, sys, copy, contextlib, io
for v in ("RANK", "WORLD_SIZE", "SLURM_JOB_ID", "SLURM_JOB_NAME", "SLURM_JOB_PARTITION"):
    os.environ.pop(v, None)
os.environ.setdefault("OMP_NUM_THREADS", "2")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import torch
torch.set_num_threads(2)
from tqdm import tqdm
tqdm.write = lambda *a, **k: None
from acetn.ipeps import Ipeps, Bond
from acetn.model import Model


def cfg(nx=2, ny=2, D=2, chi=4, pD=2, dtype="float64", ctmrg=None, evolution=None, **kw):
    return {"TN": {"nx": nx, "ny": ny, "dims": {"phys": pD, "bond": D, "chi": chi}}, "dtype": dtype,
            "ctmrg": {"steps": 1, "disable_progressbar": True, **(ctmrg or {})},
            "evolution": {"disable_progressbar": True, **(evolution or {})}, **kw}


def net(seed=0, **kw):
    """A network with random site tensors and boundaries made from them."""
    n = Ipeps(cfg(**kw))
    randomize(n, seed)
    return n


def randomize(n, seed=0, boundary=False):
    g = torch.Generator().manual_seed(seed)
    def rnd(shape):
        t = torch.rand(shape, generator=g, dtype=torch.float64) - 0.3
        if n.dtype.is_complex:
            t = t + 1j*(torch.rand(shape, generator=g, dtype=torch.float64) - 0.5)
        return t.to(n.dtype)
    for s in n.site_list:
        a = rnd(n[s]['A'].shape)
        n[s]['A'] = a/a.norm()
        n[s].initialize_corner_tensors()
        n[s].initialize_edge_tensors()
        if boundary:
            n[s]['C'] = [rnd(c.shape) for c in n[s]['C']]
            n[s]['E'] = [rnd(e.shape) for e in n[s]['E']]
    n.site_states_initialized = True
    return n


def snapshot(n):
    return {s: (n[s]['A'].clone(), [c.clone() for c in n[s]['C']], [e.clone() for e in n[s]['E']])
            for s in n.site_list}


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(a, b)


def same_snapshot(p, q):
    return all(same(p[s][0], q[s][0]) and all(map(same, p[s][1], q[s][1])) and all(map(same, p[s][2], q[s][2]))
               for s in p)


def rotated(n, k):
    """The same network seen with side k of the lattice as its left side (k = 0..3). Returns (network, site map)."""
    def step(x, y, nx, ny):          # turn by a quarter: up becomes left, right becomes up
        return (-y) % ny, x % nx
    nx, ny, m = n.nx, n.ny, {s: s for s in n.site_list}
    for _ in range(k):
        m = {s: step(*t, nx, ny) for s, t in m.items()}
        nx, ny = ny, nx
    c = cfg(nx=nx, ny=ny, D=n.dims['bond'], chi=n.dims['chi'], pD=n.dims['phys'], dtype=n.config.dtype)
    r = Ipeps(c)
    r.config.ctmrg = copy.deepcopy(n.config.ctmrg)
    for s, t in m.items():
        r[t]['A'] = n[s]['A'].permute([(i+k) % 4 for i in range(4)] + [4])
        r[t]['C'] = [n[s]['C'][(j+k) % 4] for j in range(4)]
        r[t]['E'] = [n[s]['E'][(j+k) % 4] for j in range(4)]
    return r, m


def rho1(n, s):
    from acetn.measurement.rdm import RDM
    r = RDM(n)[s]
    return r/torch.einsum("pp->", r)


def close(a, b, tol=1e-8):
    return a.shape == b.shape and bool(torch.isfinite(torch.view_as_real(a) if a.is_complex() else a).all()) \
        and float((a-b).abs().max()) <= tol*max(1.0, float(b.abs().max()))


def same_up_to_factor(a, b, tol=1e-8):
    a, b = a.reshape(-1), b.reshape(-1)
    ov = torch.vdot(b, a).abs()/(a.norm()*b.norm())
    return bool(torch.isfinite(ov)) and abs(float(ov) - 1) < tol


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


def done():
    print("ok")
    sys.exit(0)
