"""P02: the built-in models against Models.tla."""
from fractions import Fraction
import random
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from sys_check import real_bonds
from measure_check import product_net, cmat, cast, TD


def mats(m, bond_or_site, kind):
    x = getattr(m, kind)(bond_or_site)
    return x


def replay(it, sh):
    from acetn.ipeps import Ipeps
    from acetn.ipeps.bond import Bond
    from acetn.model.model_factory import model_factory
    b, seed = it
    c, v = b["c"], b["v"]
    rnd = random.Random(seed)
    cell, bonds, cx = sh["cell"], sh["bonds"], sh["cx"]
    dtn = rnd.choice(["c128", "c64"] if cx else ["f64", "f32", "c128"])
    dt = TD[dtn]
    tol = 1e-12 if dtn in ("f64", "c128") else 1e-5
    name = c["model"]
    keys = {"ising": ["jz", "hx"], "heisenberg": ["J"]}[name]
    # the Hamiltonian is linear in its parameters
    z = rnd.choice([1., 1., 1e-7, 3.141592653589793, 1e5, 1 / 3, 1e-4])
    params = {k: c["p"][k] / 2 * z for k in keys}
    how = rnd.choice(["config", "set_params", "both"])
    start = dict(params) if how == "config" else {k: 0.125 for k in keys}
    if name == "heisenberg" and params["J"] == 1. and rnd.random() < .7:
        how, start = "config", {}
    try:
        net, sites = product_net(cell, 2, 1, c["psi"], dt, extra={"model": {"name": name, "params": start}})
        if how != "config":
            for k in keys:
                net.set_model_params(**{k: params[k]})
        m = model_factory.create(net.config.model)
    except Exception as e:
        return f"{name} {params} cannot be set up ({how}): {type(e).__name__}: {e}"

    def same(x, want, what, z=1.):
        t = x.mat if hasattr(x, "mat") else x
        w = cmat(want) * z
        if t.dtype != dt:
            return f"{what} of {name} has dtype {t.dtype} on a {dt} network"
        if t.numel() != w.numel() or not float((t.reshape(w.shape).to(torch.complex128) - w).abs().max()) <= tol * max(1e-300, float(w.abs().max())):
            return f"{what} of {name} {params} is {t.tolist()}"
    scale8 = lambda mm: [[[x[0] / 8, x[1] / 8] for x in row] for row in mm]
    try:
        for i, s in enumerate(sites):
            for k in range(4):
                d = [(-1, 0), (0, 1), (1, 0), (0, -1)][k]
                nb = ((s[0] + d[0]) % cell[0], (s[1] + d[1]) % cell[1])
                e = same(m.two_site_hamiltonian(Bond(s, nb, k)), scale8(v["two"]), f"bond term {s}->{nb}", z)
                if e:
                    return e
            h = m.one_site_hamiltonian(s)
            if h is None:
                if any(x != [0, 0] for row in v["one"] for x in row):
                    return f"{name} has no site term"
            else:
                e = same(h, scale8(v["one"]), f"site term at {s}", z)
                if e:
                    return e
            ob = m.one_site_observables(s)
            if set(ob) != {"sx", "sz"}:
                return f"{name} measures {sorted(ob)} at {s}"
            e = same(ob["sx"], v["obx"][i], f"sx at {s}") or same(ob["sz"], v["obz"][i], f"sz at {s}")
            if e:
                return e
            if [float(x) for x in m.initial_site_state(s)] != [float(x) for x in v["ini"][i]]:
                return f"initial state of {name} at {s} is {m.initial_site_state(s)}"
        res = with_timeout(60, net.measure)
    except Exception as e:
        return f"{name} {params}: {type(e).__name__}: {e}"
    for k, x in (("Energy", v["energy"]), ("sx", v["sx"]), ("sz", v["sz"])):
        u = z if k == "Energy" else 1.
        w = float(Fraction(*x)) * u
        if not abs(float(res[k]) - w) <= max(tol, 1e-10) * 20 * max(u, abs(w)):
            return f"{k} of {name} {params} ({dtn}, cell {cell}): {float(res[k])!r}, exact {x[0]}/{x[1]}"
    # the state evolution starts from
    if seed % 3 == 0:
        net = Ipeps({"dtype": str(dt).split(".")[1], "TN": {"nx": cell[0], "ny": cell[1], "dims": {"phys": 2, "bond": 1, "chi": 2}},
                     "ctmrg": {"steps": 0, "disable_progressbar": True}, "evolution": {"disable_progressbar": True},
                     "model": {"name": name, "params": params}})
        try:
            net.evolve(0.01, 0)
        except Exception as e:
            return f"evolving {name} fails: {type(e).__name__}: {e}"
        for i, s in enumerate(sites):
            A = net[s]["A"][0, 0, 0, 0].abs()
            if int(A.argmax()) != v["ini"][i].index(1) or float(A.min() / A.max()) > 0.05:
                return f"evolution of {name} starts from {net[s]['A'][0,0,0,0].tolist()} at {s}"
    return None


def run(c, pid):
    total = tier(160, 1200)
    confs = [(2, 2), (3, 2), (2, 3), (4, 1)]
    for ci, cell in enumerate(confs):
        bonds = real_bonds(*cell)
        for cx in (True, False):
            n = total // (2 * len(confs))
            r = tlc("Models", dict(NSites=cell[0] * cell[1], Bonds=bonds, Q=2, Cx=cx, NOb1=2, NOb2=0, NCases=n, Cell=list(cell)),
                    next="MNext", invariants=["Symmetric", "HeisSpectrum", "Export"], outputs=["out.ndjson"], seed=SEED * 100 + ci * 2 + cx)
            c.add_tlc(r)
            cases = r.files["out.ndjson"]
            if len(cases) != n:
                raise MachineryError(f"{len(cases)} of {n} cases generated")
            for b, x in zip(cases, parallel("models_check", "replay", [(b, SEED * 10000 + i) for i, b in enumerate(cases)],
                                            dict(cell=cell, bonds=bonds, cx=cx))):
                if x:
                    c.violation(x, b)
                else:
                    c.traces += 1
            c.sample({"cell": cell, "case": {k: cases[0]["c"][k] for k in ("model", "p", "psi")}, "energy": cases[0]["v"]["energy"]})
