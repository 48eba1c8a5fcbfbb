"""E03, E04: exact torus states of Torus.tla against the real evolution."""
import random, itertools
import numpy as np
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from sys_check import real_bonds
from measure_check import TD, cast, cmat
import geometry as geo


def amplitudes(net):
    """Full vector of the torus made of one unit cell, contracted leg by leg."""
    nx, ny = net.nx, net.ny
    nodes = []
    for x in range(nx):
        for y in range(ny):
            names = []
            for d in range(4):
                p, k, _ = geo.link((x, y), d, "ket")
                names.append((p[0] % nx, p[1] % ny, k))
            nodes.append((geo.npy(net[(x, y)]["A"]), names + [("phys", x, y)]))
    v = geo.contract(nodes, [n[1][-1] for n in nodes]).ravel()
    return v / np.abs(v).max()


def deviation(got, want):
    """Distance of got from a positive multiple of want (relative); a phase or sign counts."""
    g, w = got / np.linalg.norm(got), want / np.linalg.norm(want)
    return float(np.linalg.norm(g - w))


def build(case, sh, rnd, dt):
    from acetn.ipeps import Ipeps
    from acetn.ipeps.tensor_network import TensorNetwork
    nx, ny = sh["cell"]
    q, D = sh["q"], sh["D"]
    o = {"evolution": {"update_type": sh["ut"], "disable_progressbar": True}, "ctmrg": {"steps": rnd.choice([1, 2, 3]), "disable_progressbar": True}}
    o["ctmrg"]["projectors"] = rnd.choice(["half-system", "half-system", "full-system"])
    o["ctmrg"]["svd_type"] = rnd.choice(["full-rank", "rsvd"])
    if sh["ut"] == "full":
        o["evolution"].update(use_gauge_fix=rnd.random() < 0.5, als_method=rnd.choice(["cholesky", "pinv"]), als_niter=rnd.choice([100, 20, 3]))
    if sh.get("ext"):
        from als_check import load_extension
        load_extension(sh["ext"])
        o["evolution"]["backend"] = "cutensor"
    if dt in (torch.float32, torch.complex64):      # the default cutoffs lie below single precision
        o["ctmrg"]["svd_cutoff"] = 1e-5
        if sh["ut"] == "full":
            o["evolution"].update(gauge_fix_atol=1e-5, positive_approx_cutoff=1e-5, als_epsilon=1e-6)
    chi = rnd.choice([D * D, 2 * D * D] if D < 4 else [12, 16])
    cfg = {"dtype": str(dt).split(".")[1], "TN": {"nx": nx, "ny": ny, "dims": {"phys": q, "bond": D, "chi": chi}}, **o}
    net0 = Ipeps(cfg)
    tn = TensorNetwork(None, net0.config.TN, net0.dtype, net0.device)
    sites = [(x, y) for x in range(nx) for y in range(ny)]
    # a rank-one leg: level 0, or a generic direction (x towards right/down neighbours, its dual on the other side)
    generic = rnd.random() < 0.5
    g = torch.Generator().manual_seed(rnd.randrange(10 ** 6))
    legs = {}

    def leg(s, d):
        p, k, _ = geo.link(s, d, "ket")
        key = (p[0] % nx, p[1] % ny, k)
        if key not in legs:
            x = torch.zeros(D, dtype=torch.complex128)
            x[0] = 1
            if generic:
                e = torch.randn(D, dtype=torch.complex128 if sh["cx"] else torch.float64, generator=g) * 0.4
                x = x + e
            legs[key] = (x, x.conj() / (x.abs() ** 2).sum())
        return legs[key][0 if d in (1, 2) else 1]
    for i, s in enumerate(sites):
        v = torch.tensor([complex(*x) for x in case["v"][i]], dtype=torch.complex128)
        A = torch.einsum("l,u,r,d,p->lurdp", *[leg(s, d) for d in range(4)], v)
        tn[s]["A"] = cast(A, dt)
        tn[s].initialize_corner_tensors()
        tn[s].initialize_edge_tensors()
    return cfg, Ipeps(cfg, ipeps=tn), sites


def replay(it, sh):
    from acetn.model import Model
    b, seed = it
    rnd = random.Random(seed)
    torch.manual_seed(seed)
    dtn = rnd.choice((["c128", "c128", "c64"] if sh["ut"] == "simple" else ["c128"]) if sh["cx"] else ["f64", "f64", "f32", "c128"])
    dt = TD[dtn]
    bonds = sh["bonds"]
    dtau = rnd.choice([1.0, 0.5, 0.25, 2.0, -1.0, 0.01])
    want = np.array([complex(*z) for z in b["psi"]])
    try:
        cfg, net, sites = build(b, sh, rnd, dt)
        idx = {(sites[i - 1], sites[j - 1], k): n for n, (i, j, k) in enumerate(bonds)}

        class Mod(Model):
            def two_site_hamiltonian(self, bond):
                n = idx[(tuple(bond.s1), tuple(bond.s2), int(bond.k))]
                return cast(cmat(b["h"][n]) / b["m"][n] / -dtau, dt)
        net.set_model(Mod, {})
    except Exception as e:
        return f"setting up fails: {type(e).__name__}: {e}"
    if sh.get("ext") and net.config.evolution.backend != "cutensor":
        return "the available extension is not used"
    what = (f"{sh['ut']} update, cell {sh['cell']}, {dtn}, D={sh['D']}, dtau={dtau}, {cfg['evolution']}, {cfg['ctmrg']['projectors']}/"
            f"{cfg['ctmrg']['svd_type']}, chi={cfg['TN']['dims']['chi']}")
    try:
        with_timeout(240, lambda: net.evolve(dtau, sh["steps"]))
        got = amplitudes(net)
    except Exception as e:
        return f"{what}: evolution fails: {type(e).__name__}: {e}"
    single = dtn in ("f32", "c64")
    tol = (5e-2 if single else 1e-9 if sh["ut"] == "simple" else 1e-4 if sh["D"] == 2 else 5e-3) * sh["steps"]
    if not np.all(np.isfinite(got)):
        return f"{what}: state is not finite"
    d = deviation(got, want)
    if d > tol:
        return f"{what}: evolved state differs from the exact one by {d:.2e}"
    # a zero time step leaves this (entangled) state unchanged
    try:
        with_timeout(240, lambda: net.evolve(0.0, rnd.choice([1, 2])))
        g2 = amplitudes(net)
    except Exception as e:
        return f"{what}: evolution by a zero time step fails: {type(e).__name__}: {e}"
    d2 = deviation(g2, got)
    if not d2 <= tol:
        return f"{what}: a zero time step changed the state by {d2:.2e}"
    return ("ok", d, d2, single)


def local(it, sh):
    """Products of one-site gates of any strength, down to the smallest, on generic states: the result always fits."""
    from acetn.ipeps import Ipeps
    from acetn.ipeps.tensor_network import TensorNetwork
    from acetn.model import Model
    on, seed = it
    rnd = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    cell, bonds, ut = sh["cell"], sh["bonds"], sh["ut"]
    dt = TD[rnd.choice(["f64", "c128"])]
    q, D = rnd.choice([(2, 2), (2, 2), (3, 2), (2, 1), (3, 3)]) if cell == (2, 2) else (2, 2)
    o = {"evolution": {"update_type": ut, "disable_progressbar": True}, "ctmrg": {"steps": 3, "disable_progressbar": True}}
    if ut == "full":
        o["evolution"].update(use_gauge_fix=rnd.random() < 0.5, als_method=rnd.choice(["cholesky", "pinv"]))
    cfg = {"dtype": str(dt).split(".")[1], "TN": {"nx": cell[0], "ny": cell[1], "dims": {"phys": q, "bond": D, "chi": 9 if D == 3 else 8}}, **o}
    net0 = Ipeps(cfg)
    tn = TensorNetwork(None, net0.config.TN, net0.dtype, net0.device)
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    for s in sites:
        A = torch.rand(D, D, D, D, q, dtype=torch.float64, generator=g) - 0.3
        if dt.is_complex:
            A = A + 0.5j * (torch.rand(A.shape, dtype=torch.float64, generator=g) - 0.5)
        tn[s]["A"] = A / A.norm()
        tn[s].initialize_corner_tensors()
        tn[s].initialize_edge_tensors()
    net = Ipeps(cfg, ipeps=tn)
    size = 10 ** -rnd.choice([0.5, 1., 2., 3., 4., 5., 6., 7.])
    steps, dtau = rnd.choice([1, 1, 2, 3]), rnd.choice([1., 0.1, 0.01])
    h = [[torch.randn(q, q, dtype=dt, generator=g) * (1. if a else 0.) for _ in "12"] for a in on]
    idx = {(sites[i - 1], sites[j - 1], k): n for n, (i, j, k) in enumerate(bonds)}

    class Mod(Model):
        def two_site_hamiltonian(self, bond):
            a, b = h[idx[(tuple(bond.s1), tuple(bond.s2), int(bond.k))]]
            I = torch.eye(q, dtype=dt)
            return (torch.kron(a, I) + torch.kron(I, b)) * (size / dtau)
    psi0 = amplitudes(net)
    psi = psi0.reshape((q,) * len(sites))
    order = list(range(len(bonds)))
    for st in range(steps):
        for n in order if st % 2 == 0 else order[::-1]:
            for i, m in zip(bonds[n][:2], h[n]):
                G = geo.npy(torch.matrix_exp(-size * m))
                psi = np.moveaxis(np.tensordot(G, psi, axes=(1, i - 1)), 0, i - 1)
    what = f"{ut} update with one-site gates of strength {size:.1e}, {steps} step(s), cell {cell}, q={q}, D={D}, {dt}, dtau={dtau}, {o['evolution']}"
    try:
        with_timeout(240, lambda: net.evolve(dtau, steps, Mod(net.config.model)))
        got = amplitudes(net)
    except Exception as e:
        return f"{what}: evolution fails: {type(e).__name__}: {e}"
    if ut == "simple":          # up to any scale factor
        got = got * (np.vdot(got, psi.ravel()) / abs(np.vdot(got, psi.ravel())))
    d, away = deviation(got, psi.ravel()), deviation(psi0, psi.ravel())
    # The alternating solver squares the condition number of the norm tensor, which grows with D.
    if not d <= (1e-8 if ut == "simple" else 1e-7 if D < 3 else 1e-5) * steps:
        return f"{what}: state differs from the exact one by {d:.2e} (the gates move it by {away:.2e})"
    return ("ok", d, away)


def run(c, pid, confs=None, ext=None):
    ut = "simple" if pid == "E04" else "full"
    c.assumptions += ["generators that square to zero, so that gates are exact integer matrices; bond dimension chosen such that the result fits"]
    # cell, phys, terms, active bonds, steps, D, factor of the identity in one gate, cases (quick, thorough)
    given = confs is not None
    confs = confs or [((2, 2), 2, 1, 8, 1, 2, 1, (40, 300)), ((3, 2), 2, 1, 7, 1, 2, 1, (24, 150)), ((2, 3), 2, 1, 7, 1, 2, 1, (16, 150)), ((2, 2), 3, 2, 6, 1, 3, 1, (8, 60)),
             ((2, 2), 2, 1, 5, 2, 4, 1, (8, 60)), ((3, 3), 2, 1, 6, 1, 2, 1, (8, 60)), ((2, 2), 3, 1, 8, 1, 2, 1, (16, 60)), ((2, 2), 2, 1, 5, 1, 2, 1500, (12, 60))]
    if not given and pid == "E04":
        confs += [((2, 2), 2, 1, 5, 1, 2, 1000000, (12, 60))]       # weights of a thousandth
    i = 0
    worst = [0.0, 0.0]
    for cell, q, nt, na, steps, D, big, num in confs:
        bonds = real_bonds(*cell)
        for cx in (True, False):
            i += 1
            n = max(2, tier(*num) // 2)
            r = tlc("Torus", dict(NSites=cell[0] * cell[1], Bonds=[b[:2] for b in bonds], Q=q, Cx=cx, NTerm=nt, NActive=na, Steps=steps,
                                  Max=2 if (cell == (2, 2) and q == 2 and steps == 1 and not cx and big == 1) else 1, Big=big, NCases=n),
                    invariants=["Nilpotent", "Invertible", "NonZero", "Export"], outputs=["out.ndjson"], seed=SEED * 100 + i, timeout=800)
            c.add_tlc(r)
            cases = r.files["out.ndjson"]
            if len(cases) != n:
                raise MachineryError(f"{len(cases)} of {n} cases generated")
            sh = dict(cell=cell, q=q, D=D, bonds=bonds, ut=ut, steps=steps, cx=cx, big=big, ext=ext)
            for b, x in zip(cases, parallel("torus_check", "replay", [(b, SEED * 10000 + 100 * i + j) for j, b in enumerate(cases)], sh, chunk=1)):
                if isinstance(x, str):
                    c.violation(x, {"v": b["v"], "h": b["h"]})
                else:
                    c.traces += 1
                    worst[x[3]] = max(worst[x[3]], x[1], x[2])
            c.sample({"cell": cell, "q": q, "D": D, "steps": steps, "v": cases[0]["v"], "psi": cases[0]["psi"][:8]})
    far, near = 0.0, 1.0
    for cell, num in (((2, 2), (48, 400)), ((3, 2), (8, 60)), ((2, 3), (8, 60))) if not given else ():
        bonds = real_bonds(*cell)
        n = tier(*num)
        r = tlc("Torus", dict(NSites=cell[0] * cell[1], Bonds=[b[:2] for b in bonds], Q=2, Cx=False, NTerm=1, NActive=2 * cell[0], Steps=1, Max=1, Big=1, NCases=n),
                invariants=["Nilpotent", "NonZero", "Export"], outputs=["out.ndjson"], seed=SEED * 100 + 60 + cell[0], timeout=800)
        c.add_tlc(r)
        ons = [b["on"] for b in r.files["out.ndjson"]]
        for x in parallel("torus_check", "local", [(b, SEED * 10000 + 7000 + 100 * cell[0] + j) for j, b in enumerate(ons)], dict(cell=cell, bonds=bonds, ut=ut), chunk=1):
            if isinstance(x, str):
                c.violation(x)
            else:
                c.traces += 1
                c.count("one_site_gate_evolutions")
                far, near = max(far, x[1]), min(near, x[2])
    c.extra["largest_deviation_one_site_gates"], c.extra["smallest_move_one_site_gates"] = far, near
    c.extra["largest_deviation_double"], c.extra["largest_deviation_single"] = worst
