"""C05: the exact expectation values of Circuit.tla against networks renormalized (and evolved) by the library."""
import math
import random
import numpy as np
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from measure_check import TD

P = {0: np.eye(2, dtype=complex), 1: np.array([[0, 1], [1, 0]], complex),
     2: np.array([[0, -1j], [1j, 0]]), 3: np.diag([1, -1]).astype(complex)}
STEP = [(-1, 0), (0, 1), (1, 0), (0, -1)]


def nb(s, d, cell):
    return ((s[0] + STEP[d][0]) % cell[0], (s[1] + STEP[d][1]) % cell[1])


def site_tensor(i, s, b, cell, D):
    """The tensor of a site: every gate on one of its bonds adds a leg with the site's Schmidt operators."""
    T = np.zeros((1, 1, 1, 1, 2), complex)
    T[0, 0, 0, 0] = [complex(*z) for z in b["v"][i]]
    for g in b["gates"] if D > 1 else []:
        s1, d = tuple(g["s"]), g["d"]
        if s == s1:
            ops, leg = [(P[0] + P[g["p"]]) / 2, (P[0] - P[g["p"]]) / 2], d
        elif s == nb(s1, d, cell):
            ops, leg = [P[0], P[g["q"]]], (d + 2) % 4
        else:
            continue
        T = np.concatenate([np.einsum("pq,abcdq->abcdp", o, T) for o in ops], axis=leg)
    return T


def pad(T, D):
    out = np.zeros((D,) * 4 + (2,), complex)
    out[tuple(slice(0, n) for n in T.shape)] = T
    return out


def bloch(v):
    v = [complex(*z) for z in v]
    n = abs(v[0]) ** 2 + abs(v[1]) ** 2
    c = v[0].conjugate() * v[1]
    return [2 * c.real / n, 2 * c.imag / n, (abs(v[0]) ** 2 - abs(v[1]) ** 2) / n]


def value(v, bl):
    x = v["sg"]
    for i, c in enumerate(v["c"]):
        for l in range(3):
            x *= bl[i][l] ** c[l]
    return x


def build(b, sh, rnd, chi, dt, cfg, D, own):
    """A network holding the state (D > 1: after its gates), seen through random orthonormal changes of the bond bases."""
    from acetn.ipeps import Ipeps
    from acetn.ipeps.tensor_network import TensorNetwork
    cell = sh["cell"]
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    net0 = Ipeps(cfg)
    Dn = net0.config.TN.dims["bond"]
    A = {s: pad(site_tensor(i, s, b, cell, D), Dn) for i, s in enumerate(sites)}
    if D > 1 and own:
        g = np.random.default_rng(rnd.randrange(1 << 30))
        for i, bond in enumerate(b["bonds"]):
            s, d = tuple(bond["s"]), bond["d"]
            t = nb(s, d, cell)
            m = g.normal(size=(Dn, Dn)) + (1j * g.normal(size=(Dn, Dn)) if dt.is_complex else 0)
            G = np.linalg.qr(m)[0]
            for site, leg, M in ((s, d, G), (t, (d + 2) % 4, G.conj())):
                A[site] = np.moveaxis(np.tensordot(M, A[site], axes=(1, leg)), 0, leg)
    tn = TensorNetwork(None, net0.config.TN, net0.dtype, net0.device)
    for s in sites:
        t = torch.tensor(A[s] * rnd.choice([1, 1, 3, 0.2, -1]))
        tn[s]["A"] = (t if dt.is_complex else t.real).to(dt)
        if own:
            tn[s]["C"] = [torch.ones(1, 1, dtype=dt) for _ in range(4)]
            tn[s]["E"] = [torch.eye(Dn, dtype=dt).reshape(1, 1, Dn, Dn) for _ in range(4)]
        else:
            tn[s].initialize_corner_tensors()
            tn[s].initialize_edge_tensors()
    return Ipeps(cfg, ipeps=tn), sites


def gate_model(b, sh, call, dtau):
    """The model whose gates are those of one evolve call: exp(-dtau H) with H = i pi (1-P)(1-Q) / (4 dtau)."""
    from acetn.model import Model
    at = {(tuple(g["s"]), g["d"]): g for g in b["gates"] if g["call"] == call}

    class Mod(Model):
        def two_site_hamiltonian(self, bond):
            g = at.get((tuple(bond.s1), bond.k))
            h = np.zeros((4, 4), complex)
            if g:
                h = 1j * math.pi / (4 * dtau) * np.kron(P[0] - P[g["p"]], P[0] - P[g["q"]])
            return torch.tensor(h).to(self.dtype)
    return Mod


def ask_model(terms1, terms2, name):
    """Couplings on the strings asked for, as Hamiltonian; the strings' letters as observables."""
    from acetn.model import Model

    class Mod(Model):
        def one_site_hamiltonian(self, site):
            return self.op(terms1.get(tuple(site), np.zeros((2, 2))))

        def two_site_hamiltonian(self, bond):
            return self.op(terms2.get((tuple(bond.s1), bond.k), np.zeros((4, 4))))

        def op(self, m):
            t = torch.tensor(np.asarray(m, complex))
            return (t if self.dtype.is_complex else t.real).to(self.dtype)
    return Mod


def replay(it, sh):
    from acetn.ipeps.bond import Bond
    from acetn.measurement.rdm import RDM
    b, seed = it
    cell, mode = sh["cell"], sh["mode"]
    rnd = random.Random(seed)
    ng = len(b["gates"])
    dtn = rnd.choice(["c128"] * 4 + ["c64"]) if not sh["real"] else rnd.choice(["f64", "f64", "c128", "f32"])
    # Projectors are made from traced surroundings and drop what those do not show; where some string is hidden that way
    # (b["ok"] false) only half-system projectors and double precision keep the rest exact.
    plain = all(v["ok"] for v in b["vals"])
    if not plain:
        dtn = {"c64": "c128", "f32": "f64"}.get(dtn, dtn)
    if mode == "evolve" and (not dtn.startswith("c") or sh["update"] == "full"):
        dtn = "c128"
    dt = TD[dtn]
    single = dtn in ("c64", "f32")
    chi = rnd.choice([4, 8, 16]) if ng <= 4 and not single and mode != "evolve" else 16
    proj = rnd.choice(["half-system", "full-system"])
    svd = rnd.choice(["full-rank", "rsvd"])
    if mode == "evolve" or not plain:
        proj = "half-system"
    nsweep = max(cell) + 3
    upd = sh.get("update", "simple")
    cfg = {"dtype": str(dt).split(".")[1],
           "TN": {"nx": cell[0], "ny": cell[1], "dims": {"phys": 2, "bond": 2 if mode == "evolve" else rnd.choice([2, 2, 3]) if chi < 16 else 2, "chi": chi}},
           "ctmrg": {"steps": nsweep, "projectors": proj, "svd_type": svd, "disable_progressbar": True},
           "evolution": {"disable_progressbar": True, "update_type": upd}}
    who = f"{mode} ({dtn}, chi={chi}, {proj}, {svd}, cell {cell}, {ng} gates)"
    torch.manual_seed(seed)
    bl = [bloch(v) for v in b["v"]]
    want = [value(v, bl) if v["ok"] else None for v in b["vals"]]
    N = cell[0] * cell[1]
    try:
        if mode == "direct":
            net, sites = build(b, sh, rnd, chi, dt, cfg, 2, True)
            with_timeout(120, net.renormalize)
        else:
            net, sites = build(b, sh, rnd, chi, dt, cfg, 1, False)
            for call in range(1, sh["calls"] + 1):
                dtau = rnd.choice([0.01, 0.1, 1.0])
                net.set_model(gate_model(b, sh, call, dtau), {})
                with_timeout(240, lambda: net.evolve(dtau, 1))
            if rnd.random() < 0.5:
                with_timeout(120, net.renormalize)
    except Exception as e:
        return f"{who} fails: {type(e).__name__}: {e}"
    tol = 5e-3 if single else 1e-6
    rdm = RDM(net)
    for i, s in enumerate(sites):
        r = rdm[s].to(torch.complex128).numpy()
        r = r / np.trace(r)
        for l in range(3):
            w = want[3 * i + l]
            if w is None:
                continue
            g = np.trace(r.T @ P[l + 1])
            if not abs(g - w) <= tol:
                return f"{who}: <{'XYZ'[l]}> of site {s} is {g:.9g}, exact value {w:.9g}"
    for j, bond in enumerate(b["bonds"]):
        s, k = tuple(bond["s"]), bond["d"]
        t = nb(s, k, cell)
        # either orientation of the bond
        bb = (s, t, k) if rnd.random() < 0.7 else (t, s, (k + 2) % 4)
        r = rdm[Bond(*bb)].to(torch.complex128).numpy()
        r = r / np.einsum("abab->", r)
        for x in range(1, 16):
            w = want[3 * N + 15 * j + x - 1]
            if w is None:
                continue
            ops = (P[x // 4], P[x % 4]) if bb[0] == s else (P[x % 4], P[x // 4])
            if bb[0] != s and bb[2] == k:
                raise MachineryError("bond orientation")
            g = np.einsum("abcd,ac,bd->", r, *ops)
            if not abs(g - w) <= tol:
                return f"{who}: <{'1XYZ'[x // 4]}{'1XYZ'[x % 4]}> of bond {bb} is {g:.9g}, exact value {w:.9g}"
    # through measure(): the energy with random couplings on the strings known
    t1 = {}
    t2 = {}
    e = 0.
    scale = 0.
    for i, s in enumerate(sites):
        m = np.zeros((2, 2), complex)
        for l in range(3):
            w = want[3 * i + l]
            J = rnd.choice([-2, -1, 0, 1, 3])
            if w is not None and (dt.is_complex or l != 1):
                m = m + J * P[l + 1]
                e += J * w
                scale += abs(J)
        t1[s] = m
    for j, bond in enumerate(b["bonds"]):
        m = np.zeros((4, 4), complex)
        for x in range(1, 16):
            w = want[3 * N + 15 * j + x - 1]
            J = rnd.choice([-2, -1, 0, 1, 3])
            if w is not None and (dt.is_complex or (x // 4 == 2) == (x % 4 == 2)):
                m = m + J * np.kron(P[x // 4], P[x % 4])
                e += J * w
                scale += abs(J)
        t2[(tuple(bond["s"]), bond["d"])] = m
    net.set_model(ask_model(t1, t2, "ask"), {})
    try:
        res = with_timeout(60, net.measure)
    except Exception as ex:
        return f"{who}: measuring fails: {type(ex).__name__}: {ex}"
    g = float(res["Energy"])
    if not abs(g - e / N) <= tol * max(1, scale / N):
        return f"{who}: energy per site is {g:.9g}, exact value {e / N:.9g}"
    return None


def run(c, pid):
    c.assumptions += ["circuits of at most one controlled-Pauli gate per bond of the cell; values carried only over bonds that no line "
                      "through the measured sites crosses are not decided (the projectors' traced surroundings do not show them)"]
    # cell, real, mode, update, evolve calls, most gates, cases
    plans = [((2, 2), False, "direct", "", 0, 8, tier(120, 700)), ((2, 2), True, "direct", "", 0, 8, tier(60, 400)),
             ((3, 2), False, "direct", "", 0, 8, tier(60, 400)), ((2, 3), False, "direct", "", 0, 8, tier(60, 400)),
             ((2, 2), False, "direct", "", 0, 3, tier(120, 500)), ((2, 3), False, "direct", "", 0, 3, tier(80, 300)),
             ((3, 3), False, "direct", "", 0, 6, tier(24, 200)),
             ((2, 2), False, "evolve", "simple", 1, 8, tier(60, 300)), ((2, 2), False, "evolve", "simple", 2, 8, tier(40, 300)),
             ((3, 2), False, "evolve", "simple", 2, 12, tier(40, 250)), ((2, 3), False, "evolve", "simple", 1, 12, tier(40, 250)),
             ((2, 2), False, "evolve", "full", 1, 8, tier(60, 300)), ((2, 2), False, "evolve", "full", 2, 8, tier(40, 300))]
    for i, (cell, real, mode, upd, calls, mg, n) in enumerate(plans):
        r = tlc("Circuit", {"NX": cell[0], "NY": cell[1], "Real": real, "MaxGates": mg, "Max": 2, "NCases": n, "Calls": calls},
                invariants=["Hermitian", "NotTrivial", "Algebra", "Involution", "Export"], outputs=["out.ndjson"], seed=SEED * 100 + i)
        bs = r.files["out.ndjson"]
        if len(bs) != n:
            raise MachineryError(f"{len(bs)} of {n} circuits")
        c.add_tlc(r)
        if upd == "full":
            bs = [b for b in bs if len(b["gates"]) <= 6]
        sh = {"cell": cell, "real": real, "mode": mode, "update": upd or "simple", "calls": calls}
        items = [(b, SEED * 100000 + i * 1000 + j) for j, b in enumerate(bs)]
        for it, msg in zip(items, parallel("circuit_check", "replay", items, sh)):
            if msg:
                c.violation(msg, {"shared": sh, "v": it[0]["v"], "gates": it[0]["gates"], "seed": it[1]})
            else:
                c.traces += 1
        for b in bs:
            c.count("circuits_" + mode + upd)
            c.count("strings_decided", sum(v["ok"] for v in b["vals"]))
            c.count("strings", len(b["vals"]))
        if i == 0:
            c.sample({"v": bs[0]["v"], "gates": bs[0]["gates"], "vals": bs[0]["vals"][:6]})
