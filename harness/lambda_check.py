"""E05: update histories of Lambda.tla replayed into the simple update."""
import random
import numpy as np
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from sys_check import real_bonds
from measure_check import TD
from wiring_check import blank
import geometry as geo


def gate(kind, q, dt, g):
    n = q * q
    r = torch.randn(n, n, dtype=dt, generator=g)
    if kind == "one":
        return torch.eye(n, dtype=dt)
    if kind == "weak":
        return torch.eye(n, dtype=dt) + 0.05 * r
    if kind == "hermitian":
        return torch.matrix_exp(-0.3 * (r + r.mH))
    if kind == "product":
        return torch.kron(torch.randn(q, q, dtype=dt, generator=g), torch.randn(q, q, dtype=dt, generator=g))
    return r


class Store(dict):
    """The gates as the updater reads them."""
    wrap_one_site = True

    def __init__(self, dtype, device):
        super().__init__()
        self.dtype, self.device = dtype, device


def weighted(A, w, skip):
    """Site tensor with weights on all legs but one."""
    A = geo.npy(A)
    for d in range(4):
        if d != skip:
            A = A * w[d].reshape([-1 if i == d else 1 for i in range(5)])
    return A


def replay(it, sh):
    from acetn.evolution.simple_update import SimpleUpdater
    from acetn.ipeps.bond import Bond
    b, seed = it
    rnd = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    cell, bonds = sh["cell"], sh["bonds"]
    dtn = rnd.choice(["f64", "c128", "f64", "c128", "f32"])
    dt = TD[dtn]
    q, D = rnd.choice([(2, 2), (2, 3), (3, 2), (2, 2), (2, 1)])
    tol = 1e-8 if dtn != "f32" else 1e-3
    net = blank(cell, q, D, dt, evo={"update_type": "simple"})
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    for s in sites:
        A = torch.randn(D, D, D, D, q, dtype=dt, generator=g)
        net[s]["A"] = A / A.norm()
    bl = [Bond(sites[i - 1], sites[j - 1], k) for i, j, k in bonds]
    G = Store(dt, torch.device("cpu"))
    try:
        u = SimpleUpdater(net, G, net.config.evolution)
        lam = u.lambda_tensors
        w0 = [lam[x] for x in bl]
        lam.get, lam.absorb, lam.strip, u.bond_update
    except AttributeError:
        return "skip"
    except Exception as e:
        return f"creating the updater fails: {type(e).__name__}: {e}"
    made = {0: np.ones(D)}
    for i, w in enumerate(w0):
        if not np.array_equal(geo.npy(w), np.ones(D)):
            return f"initial weights of bond {bl[i]} are {w.tolist()}"
    cur = [0] * len(bl)
    for k, st in enumerate(b["h"]):
        bond = bl[st["b"] - 1]
        G.clear()
        G[bond] = gate(st["g"], q, dt, g).reshape((q,) * 4)
        old = {s: net[s]["A"].clone() for s in sites}
        W1 = [made[cur[i - 1]] if i else None for i in st["l1"]]
        W2 = [made[cur[i - 1]] if i else None for i in st["l2"]]
        d1, d2 = bond.k, geo.opp(bond.k)
        t1, t2 = weighted(old[bond.s1], W1, d1), weighted(old[bond.s2], W2, d2)
        th = np.tensordot(np.moveaxis(t1, d1, -1), np.moveaxis(t2, d2, 0), axes=1)     # o1 o1 o1 p o2 o2 o2 q
        gt = geo.npy(G[bond])
        th = np.einsum("abcpdefq,rspq->abcrdefs", th, gt)
        shp = th.shape
        m = th.reshape(D ** 3 * q, D ** 3 * q)
        U, S, Vh = np.linalg.svd(m)
        if len(S) > D and S[D] > 0 and S[D - 1] / S[D] < 1 + 1e-4:
            return "degenerate"
        lw = np.sqrt(S[:D] / np.linalg.norm(S[:D]))
        what = f"update {k + 1} (bond {tuple(bond.s1)}->{tuple(bond.s2)} direction {bond.k}, gate {st['g']}, {dtn}, q={q}, D={D}, cell {cell})"
        try:
            with_timeout(60, lambda: u.bond_update(bond))
        except Exception as e:
            return f"{what} fails: {type(e).__name__}: {e}"
        # weights: the updated bond's, and no others
        for i, x in enumerate(bl):
            new = geo.npy(lam[x])
            if i == st["b"] - 1:
                if np.abs(new.imag).max() > 0 or (new.real < 0).any() or (np.diff(new.real) > tol).any():
                    return f"{what}: weights {new.tolist()} are not non-negative and decreasing"
                if abs(np.linalg.norm(new.real ** 2) - 1) > tol:
                    return f"{what}: squared weights have length {np.linalg.norm(new.real ** 2)}"
                if np.abs(new.real ** 2 - lw ** 2).max() > tol:
                    return f"{what}: squared weights {(new.real ** 2).tolist()}, retained singular values {(lw ** 2).tolist()}"
                made[k + 1] = new.real
            elif not np.array_equal(new, made[cur[i]]):
                return f"{what}: weights of bond {x} changed"
        cur = st["ver"]
        for i, s in enumerate(sites):
            for d in range(4):
                if not np.array_equal(geo.npy(lam.get(s, d)).real, made[st["see"][i][d]]):
                    return f"{what}: site {s} sees other weights on leg {d} than those of its bond"
        # site tensors: the two ends, and no others
        for s in sites:
            if s not in (bond.s1, bond.s2) and not torch.equal(old[s], net[s]["A"]):
                return f"{what}: site tensor {s} changed"
        # multiplied by the same surrounding weights, the new pair is the truncated state and each end carries the weights once
        n1, n2 = weighted(net[bond.s1]["A"], W1, d1), weighted(net[bond.s2]["A"], W2, d2)
        nt = np.tensordot(np.moveaxis(n1, d1, -1), np.moveaxis(n2, d2, 0), axes=1).reshape(m.shape)
        best = (U[:, :D] * S[:D]) @ Vh[:D]
        dev = np.linalg.norm(nt / np.linalg.norm(nt) - best / np.linalg.norm(best))
        small = min(w[d].min() for w, x in ((W1, d1), (W2, d2)) for d in range(4) if d != x)
        if not dev <= tol * max(1, 1e-2 / small ** 3):
            return f"{what}: the pair differs from the best truncation by {dev:.2e}"
        for t, d in ((n1, d1), (n2, d2)):
            nr = np.sqrt((np.abs(np.moveaxis(t, d, 0).reshape(D, -1)) ** 2).sum(1))
            if np.abs(nr - made[k + 1]).max() > 10 * tol * max(1, 1e-2 / small ** 3):
                return f"{what}: a site tensor's slices along the bond have norms {nr.tolist()}, weights {made[k + 1].tolist()}"
        # multiplying and dividing weights around any leg is the identity
        s, x = rnd.choice(sites), rnd.randrange(4)
        A = torch.randn(D, D, D, D, q, dtype=dt, generator=g)
        R = lam.strip(lam.absorb(A, s, x), s, x)
        ws = [made[st["see"][sites.index(s)][d]] for d in range(4)]
        live = np.ones((D,) * 4, dtype=bool)
        for d in range(4):
            if d != x:
                live &= (ws[d] > 1e-6).reshape([-1 if i == d else 1 for i in range(4)])
        dd = np.abs(geo.npy(R - A))[live]
        if dd.size and dd.max() > tol:
            return f"{what}: multiplying then dividing weights around site {s} except leg {x} changes the tensor by {dd.max():.2e}"
        try:
            keep = [lam[y] for y in bl]
            for y in bl:
                lam[y] = torch.tensor(sorted((10 ** -rnd.choice([0., 1., 3., 5., 7., 10.]) for _ in range(D)), reverse=True)).to(dt)
            R = lam.strip(lam.absorb(A, s, x), s, x)
            for y, w in zip(bl, keep):
                lam[y] = w
        except (AttributeError, TypeError):
            return "skip"
        dd = np.abs(geo.npy(R - A))
        if not dd.max() <= (1e-4 if dtn == "f32" else 1e-10) * np.abs(geo.npy(A)).max():
            return f"{what}: multiplying then dividing small weights around site {s} except leg {x} changes the tensor by {dd.max():.2e}"
        ref = weighted(A, [made[st["see"][sites.index(s)][d]] for d in range(4)], x)
        if np.abs(geo.npy(lam.absorb(A, s, x)) - ref).max() > tol:
            return f"{what}: multiplying weights into site {s} except leg {x} is wrong"
    return None


def evolve_replay(seed, sh):
    """Whole evolutions: the state after net.evolve equals the one of a reference evolution built from the definition."""
    from acetn.model import Model
    from torus_check import amplitudes
    rnd = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    cell = rnd.choice([(2, 2), (3, 2), (2, 3)])
    bonds = sh["bonds"][cell]
    dt = TD[rnd.choice(["f64", "c128"])]
    q, D = rnd.choice([(2, 2), (2, 3), (3, 2)]) if cell == (2, 2) else (2, 2)
    from acetn.ipeps import Ipeps
    from acetn.ipeps.tensor_network import TensorNetwork
    cfg = {"dtype": str(dt).split(".")[1], "TN": {"nx": cell[0], "ny": cell[1], "dims": {"phys": q, "bond": D, "chi": 6}},
           "ctmrg": {"steps": 1, "disable_progressbar": True}, "evolution": {"update_type": "simple", "disable_progressbar": True}}
    net0 = Ipeps(cfg)
    tn = TensorNetwork(None, net0.config.TN, net0.dtype, net0.device)
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    for s in sites:
        tn[s]["A"] = torch.randn(D, D, D, D, q, dtype=dt, generator=g) * 0.3
        tn[s]["A"][0, 0, 0, 0] += torch.randn(q, dtype=dt, generator=g)
        tn[s].initialize_corner_tensors()
        tn[s].initialize_edge_tensors()
    net = Ipeps(cfg, ipeps=tn)
    H = [torch.randn(q * q, q * q, dtype=dt, generator=g) * 0.5 for _ in bonds]
    idx = {(sites[i - 1], sites[j - 1], k): n for n, (i, j, k) in enumerate(bonds)}

    class Mod(Model):
        def two_site_hamiltonian(self, bond):
            return H[idx[(tuple(bond.s1), tuple(bond.s2), int(bond.k))]]
    net.set_model(Mod, {})
    dtau, steps = rnd.choice([0.1, 0.3]), rnd.choice([1, 2, 3])
    A = {s: geo.npy(net[s]["A"]) for s in sites}
    w = [np.ones(D) for _ in bonds]

    def see(s, d):
        for i, (a, b, k) in enumerate(bonds):
            if (sites[a - 1] == s and k == d) or (sites[b - 1] == s and geo.opp(k) == d):
                return w[i]
    order = list(range(len(bonds)))
    for st in range(steps):
        for i in order if st % 2 == 0 else order[::-1]:
            s1, s2, k = sites[bonds[i][0] - 1], sites[bonds[i][1] - 1], bonds[i][2]
            d1, d2 = k, geo.opp(k)
            W1, W2 = [see(s1, d) for d in range(4)], [see(s2, d) for d in range(4)]
            t1 = np.moveaxis(weighted(torch.from_numpy(A[s1]), W1, d1), d1, -1)
            t2 = np.moveaxis(weighted(torch.from_numpy(A[s2]), W2, d2), d2, 0)
            th = np.einsum("abcpu,udefq,rspq->abcrdefs", t1, t2, geo.npy(torch.matrix_exp(-dtau * H[i])).reshape((q,) * 4))
            U, S, Vh = np.linalg.svd(th.reshape(D ** 3 * q, D ** 3 * q))
            if S[D - 1] / max(S[D], 1e-300) < 1.001 or S[D - 1] < 1e-6 * S[0]:
                return "degenerate"
            w[i] = np.sqrt(S[:D] / np.linalg.norm(S[:D]))
            t1 = np.moveaxis((U[:, :D] * w[i]).reshape(D, D, D, q, D), -1, d1)
            t2 = np.moveaxis((w[i][:, None] * Vh[:D]).reshape(D, D, D, D, q), 0, d2)
            A[s1] = weighted(torch.from_numpy(t1), [1 / x for x in W1], d1)
            A[s2] = weighted(torch.from_numpy(t2), [1 / x for x in W2], d2)
    try:
        with_timeout(120, lambda: net.evolve(dtau, steps))
    except Exception as e:
        return f"evolution fails: {type(e).__name__}: {e}"
    got = amplitudes(net)
    for s in sites:
        net[s]["A"] = torch.from_numpy(A[s]) if dt.is_complex else torch.from_numpy(A[s].real.copy())
    want = amplitudes(net)
    d = np.linalg.norm(got / np.linalg.norm(got) - want / np.linalg.norm(want))
    if not d < 1e-6:
        return f"simple update of {steps} step(s), cell {cell}, q={q}, D={D}, {dt}: state differs from the reference by {d:.2e}"
    return None


def run(c, pid):
    c.assumptions += ["singular values at the truncation edge are distinct (others are redrawn)"]
    i = 0
    for cell in ((2, 2), (3, 2), (2, 3), (3, 3)):
        i += 1
        bonds = real_bonds(*cell)
        n = tier(24, 200)
        r = tlc("Lambda", dict(NX=cell[0], NY=cell[1], Bonds=bonds, Gates={"one", "weak", "hermitian", "product", "generic"}, Len1=16, NCases=n),
                invariants=["OneBondPerLeg", "SameWeights", "NotOwn", "OnlyOwn", "Export"], outputs=["out.ndjson"], seed=SEED * 100 + i)
        c.add_tlc(r)
        cases = r.files["out.ndjson"]
        if len(cases) != n:
            raise MachineryError(f"{len(cases)} of {n} cases generated")
        for b, x in zip(cases, parallel("lambda_check", "replay", [(b, SEED * 1000 + j) for j, b in enumerate(cases)], dict(cell=cell, bonds=bonds))):
            if x == "skip":
                c.count("weights_not_accessible")
            elif x == "degenerate":
                c.count("degenerate")
            elif x:
                c.violation(x, b)
            else:
                c.traces += 1
        c.sample({"cell": cell, "history": [(s["b"], s["g"]) for s in cases[0]["h"]]})
    bs = {cell: real_bonds(*cell) for cell in ((2, 2), (3, 2), (2, 3))}
    for x in parallel("lambda_check", "evolve_replay", [SEED * 1000 + j for j in range(tier(24, 300))], dict(bonds=bs)):
        if x == "degenerate":
            c.count("degenerate")
        elif x:
            c.violation(x)
        else:
            c.count("evolutions")
