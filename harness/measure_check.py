"""M01: exact expectation values of Measure.tla against measure()."""
from fractions import Fraction
import random
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from sys_check import real_bonds

TD = {"f64": torch.float64, "f32": torch.float32, "c128": torch.complex128, "c64": torch.complex64}


def cmat(m):
    return torch.tensor([[complex(*x) for x in row] for row in m], dtype=torch.complex128)


def cast(t, dt):
    return (t if dt.is_complex else t.real).to(dt)


def product_net(cell, q, D, psi, dt, chi=None, rnd=None, extra=None):
    """An iPEPS holding a product state, placed on random levels of the bond legs, with initial boundaries."""
    from acetn.ipeps import Ipeps
    from acetn.ipeps.tensor_network import TensorNetwork
    nx, ny = cell
    cfg = {"dtype": str(dt).split(".")[1], "TN": {"nx": nx, "ny": ny, "dims": {"phys": q, "bond": D, "chi": chi or D * D + 2}},
           "ctmrg": {"steps": 1, "disable_progressbar": True, "svd_type": "full-rank"}, "evolution": {"disable_progressbar": True}}
    for k, v in (extra or {}).items():
        cfg.setdefault(k, {})
        cfg[k].update(v)
    net0 = Ipeps(cfg)
    tn = TensorNetwork(None, net0.config.TN, net0.dtype, net0.device)
    sites = [(x, y) for x in range(nx) for y in range(ny)]
    for i, s in enumerate(sites):
        A = torch.zeros(D, D, D, D, q, dtype=torch.complex128)
        z = rnd.choice([1, 3, -2, 0.01, 100]) if rnd else 1
        A[0, 0, 0, 0] = z * torch.tensor([complex(*x) for x in psi[i]], dtype=torch.complex128)
        tn[s]["A"] = cast(A, dt)
        tn[s].initialize_corner_tensors()
        tn[s].initialize_edge_tensors()
    return Ipeps(cfg, ipeps=tn), sites


def rescale(net, rnd):
    """Values do not depend on the sign and magnitude of any boundary tensor."""
    for s in net.site_list:
        for kind in ("C", "E"):
            for j in range(4):
                if rnd.random() < 0.3:
                    net[s][kind][j] = net[s][kind][j] * rnd.choice([-1, -1, -2, 3, 0.1, -0.01])


def replay(it, sh):
    from acetn.model import Model
    from acetn.model.pauli_matrix import PauliMatrix
    b, seed = it
    cell, q, bonds, cx = sh["cell"], sh["q"], sh["bonds"], sh["cx"]
    rnd = random.Random(seed)
    c, v = b["c"], b["v"]
    dtn = rnd.choice(["c128", "c128", "c64"] if cx else ["f64", "f64", "f32", "c128"])
    dt = TD[dtn]
    D = rnd.choice([1, 2]) if q < 4 else 1
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    bidx = {(sites[x - 1], sites[y - 1], k): i for i, (x, y, k) in enumerate(bonds)}
    rep = rnd.choice(["matrix", "tensor4", "pauli"])

    def op(m, two):
        t = cast(cmat(m), dt)
        if rep == "tensor4" and two:
            return t.reshape((q,) * 4)
        if rep == "pauli":
            return PauliMatrix("XX" if two else "X", dt, torch.device("cpu"), mat=t)
        return t
    si = {s: i for i, s in enumerate(sites)}

    class Mod(Model):
        def one_site_hamiltonian(self, site):
            i = si[tuple(site)]
            return op(c["h1"][i], False) if c["has"][i] else None

        def two_site_hamiltonian(self, bond):
            return op(c["h2"][bidx[(tuple(bond.s1), tuple(bond.s2), bond.k)]], True)

        def one_site_observables(self, site):
            return {f"a{k}": op(o[si[tuple(site)]], False) for k, o in enumerate(c["o1"])}

        def two_site_observables(self, bond):
            return {f"b{k}": op(o[bidx[(tuple(bond.s1), tuple(bond.s2), bond.k)]], True) for k, o in enumerate(c["o2"])}
    try:
        net, _ = product_net(cell, q, D, c["psi"], dt, rnd=rnd)
        net.set_model(Mod, {})
        if rnd.random() < 0.4 and min(cell) > 1:
            net.renormalize()
        rescale(net, rnd)
        res = with_timeout(120, net.measure)
    except Exception as e:
        return f"measuring fails ({dtn}, D={D}, operators as {rep}): {type(e).__name__}: {e}"
    tol = 1e-10 if dtn in ("f64", "c128") else 1e-4
    want = {"Energy": v["energy"]}
    want.update({f"a{k}": x for k, x in enumerate(v["o1"])})
    want.update({f"b{k}": x for k, x in enumerate(v["o2"])})
    if set(res) != set(want):
        return f"reported {sorted(res)}, expected {sorted(want)}"
    for k, x in want.items():
        w = float(Fraction(x[0], x[1]))
        g = res[k]
        if torch.is_tensor(g):
            if g.is_complex() or g.numel() != 1:
                return f"{k} is not a real number: {g}"
            g = g.item()
        if not abs(g - w) <= tol * max(1, abs(w)) * 10:
            return f"{k} = {g!r}, exact value {x[0]}/{x[1]} = {w!r} (cell {cell}, {dtn}, D={D}, operators as {rep})"
    return None


def state_replay(seed, sh):
    """Entangled random state: averages are the averages of the density-matrix expectation values of the same network."""
    from acetn.ipeps import Ipeps
    from acetn.model import Model
    from acetn.measurement.rdm import RDM
    rnd = random.Random(seed)
    cell = rnd.choice([(2, 2), (3, 2), (2, 3), (1, 2), (2, 1)])
    dt = rnd.choice([torch.float64, torch.complex128])
    q, D = rnd.choice([(2, 2), (3, 2), (2, 1)])
    torch.manual_seed(seed)
    ops = {}

    def op(key, d):
        if key not in ops:
            ops[key] = torch.randn(d, d, dtype=dt)
        return ops[key]

    class Mod(Model):
        def one_site_hamiltonian(self, site):
            return None if sum(site) % 3 == 2 else op(("h", tuple(site)), q)

        def two_site_hamiltonian(self, bond):
            return op(("H", tuple(bond.s1), bond.k), q * q)

        def one_site_observables(self, site):
            return {"a": op(("a", tuple(site)), q), "c": op(("c", tuple(site)), q)}

        def two_site_observables(self, bond):
            return {"b": op(("b", tuple(bond.s1), bond.k), q * q)}
    net = Ipeps({"dtype": str(dt).split(".")[1], "TN": {"nx": cell[0], "ny": cell[1], "dims": {"phys": q, "bond": D, "chi": 6}},
                 "ctmrg": {"steps": 1, "disable_progressbar": True}})
    for s in net.site_list:
        net[s]["A"] = torch.randn(D, D, D, D, q, dtype=dt)
        net[s].initialize_corner_tensors()
        net[s].initialize_edge_tensors()
    net.set_model(Mod, {})
    rescale(net, rnd)
    try:
        res = with_timeout(120, net.measure)
    except Exception as e:
        return f"measuring fails: {type(e).__name__}: {e}"
    r = RDM(net)
    m = Mod(net.config.model)
    tot = {"Energy": 0., "a": 0., "b": 0., "c": 0.}
    ex1 = lambda rho, o: float(torch.einsum("Pp,Pp->", rho, o).real / torch.einsum("pp->", rho).real)
    ns, nb = len(net.site_list), len(net.bond_list)
    for s in net.site_list:
        rho = r[s]
        h = m.one_site_hamiltonian(s)
        if h is not None:
            tot["Energy"] += ex1(rho, h) / ns
        for k, o in m.one_site_observables(s).items():
            tot[k] += ex1(rho, o) / ns
    for b in net.bond_list:
        rho = r[b].reshape(q * q, q * q)
        tot["Energy"] += ex1(rho, m.two_site_hamiltonian(b)) / ns
        for k, o in m.two_site_observables(b).items():
            tot[k] += ex1(rho, o) / nb
    for k in tot:
        if not abs(float(res[k]) - tot[k]) <= 1e-9 * max(1, abs(tot[k])):
            return f"{k} = {float(res[k])!r}, average of the density matrices' values {tot[k]!r} (cell {cell}, {dt})"
    return None


def run(c, pid):
    c.assumptions += ["exact values for product states; for entangled states the values are compared with the density matrices (M02)"]
    total = tier(180, 1500)
    confs = [((2, 2), 2), ((3, 2), 2), ((2, 3), 3), ((1, 2), 2), ((3, 1), 3), ((1, 1), 2)]
    for ci, (cell, q) in enumerate(confs):
        bonds = real_bonds(*cell)
        for cx in (True, False):
            n = total // (len(confs) * 2)
            r = tlc("Measure", dict(NSites=cell[0] * cell[1], Bonds=bonds, Q=q, Cx=cx, NOb1=2, NOb2=ci % 2 + (1 if cx else 0), NCases=n),
                    invariants=["ScaleFree", "SwapFree", "Export"], outputs=["out.ndjson"], seed=SEED * 100 + ci * 2 + cx)
            c.add_tlc(r)
            cases = r.files["out.ndjson"]
            if len(cases) != n:
                raise MachineryError(f"{len(cases)} of {n} cases generated")
            for b, x in zip(cases, parallel("measure_check", "replay", [(b, SEED * 10000 + i) for i, b in enumerate(cases)],
                                            dict(cell=cell, q=q, bonds=bonds, cx=cx))):
                if x:
                    c.violation(x, b)
                else:
                    c.traces += 1
            c.sample({"cell": cell, "q": q, "values": cases[0]["v"], "psi": cases[0]["c"]["psi"]})
    for x in parallel("measure_check", "state_replay", [SEED * 1000 + i for i in range(tier(24, 200))]):
        if x:
            c.violation(x)
        else:
            c.count("entangled_states")
