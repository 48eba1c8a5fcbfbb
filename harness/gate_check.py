"""E02: gates built by the library against the generators of GateTerms.tla."""
import random
import numpy as np
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from sys_check import real_bonds
from measure_check import cmat, cast, TD


def expm(m):
    """Taylor series with scaling and squaring (independent of torch)."""
    m = np.asarray(m, dtype=np.complex128)
    k = max(0, int(np.ceil(np.log2(max(1e-30, np.abs(m).sum())))) + 4)
    a = m / 2. ** k
    r = t = np.eye(len(m), dtype=np.complex128)
    for j in range(1, 25):
        t = t @ a / j
        r = r + t
    for _ in range(k):
        r = r @ r
    return r


def replay(it, sh):
    from acetn.evolution.gate import Gate
    from acetn.ipeps.bond import Bond
    from acetn.ipeps.ipeps_config import ModelConfig
    from acetn.model import Model
    from acetn.model.pauli_matrix import PauliMatrix
    b, seed = it
    c, gen = b["c"], b["g"]
    rnd = random.Random(seed)
    cell, q, bonds, cx = sh["cell"], sh["q"], sh["bonds"], sh["cx"]
    dtn = rnd.choice(["c128", "c128", "c64"] if cx else ["f64", "f64", "f32", "c128"])
    dt = TD[dtn]
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    si = {s: i for i, s in enumerate(sites)}
    bidx = {(sites[x - 1], sites[y - 1], k): i for i, (x, y, k) in enumerate(bonds)}
    rep = rnd.choice(["matrix", "tensor4", "pauli"])
    cached = rnd.random() < 0.6
    store = {}

    def op(key, m, two):
        if cached and key in store:
            return store[key][0]
        t = cast(cmat(m), dt)
        x = t
        if rep == "tensor4" and two:
            x = t.reshape((q,) * 4)
        if rep == "pauli":
            x = PauliMatrix("XX" if two else "X", dt, torch.device("cpu"), mat=t)
        if cached:
            store[key] = (x, t, t.clone())
        return x

    class Mod(Model):
        def one_site_hamiltonian(self, site):
            i = si[tuple(site)]
            return op(("s", i), c["h1"][i], False) if c["has"][i] else None

        def two_site_hamiltonian(self, bond):
            i = bidx[(tuple(bond.s1), tuple(bond.s2), bond.k)]
            return op(("b", i), c["h2"][i], True)
    m = Mod(ModelConfig(dtype=dt, device=torch.device("cpu"), dim=q, name="custom", params={}))
    bl = [Bond(sites[x - 1], sites[y - 1], k) for x, y, k in bonds]
    dtau = rnd.choice([0.1, 0.01, 0.25, 0.0])
    dtau2 = rnd.choice([0.05, 0.3])
    tol = 1e-11 if dtn in ("f64", "c128") else 2e-5
    where = f"cell {cell}, q={q}, {dtn}, Hamiltonian as {rep}{' (same objects every time)' if cached else ''}"

    def compare(g, dtau, what):
        for i, bd in enumerate(bl):
            got = g[bd]
            if got.dtype != dt:
                return f"{what}: gate of {bd} has dtype {got.dtype} ({where})"
            got = got.reshape(q * q, q * q).to(torch.complex128).numpy()
            want = expm(-dtau / 4 * cmat(gen[i]).numpy())
            if not np.abs(got - want).max() <= tol * max(1, np.abs(want).max()):
                return f"{what}: gate of {bd} is not exp(-{dtau} * generator): off by {np.abs(got - want).max():.3g} ({where})"
    try:
        bl1 = list(bl)
        rnd.shuffle(bl1)
        g1 = Gate(m, dtau, bl1, list(sites))
        e = compare(g1, dtau, "first build")
        if e:
            return e
        g2 = Gate(m, dtau2, list(bl), list(sites))
        e = compare(g2, dtau2, "second build") or compare(g1, dtau, "first build, after a second one")
        if e:
            return e
        g3 = Gate(m, dtau, list(bl), list(sites))
        e = compare(g3, dtau, "third build")
        if e:
            return e
    except Exception as e:
        return f"building gates fails: {type(e).__name__}: {e} ({where})"
    for k, (x, t, ref) in store.items():
        if not torch.equal(t, ref) or (hasattr(x, "mat") and not torch.equal(x.mat, ref)):
            return f"building gates changes the model's matrix {k} ({where})"
    return None


def run(c, pid):
    total = tier(160, 1500)
    confs = [((2, 2), 2), ((3, 2), 2), ((2, 3), 3), ((1, 2), 2), ((4, 3), 2)]
    for ci, (cell, q) in enumerate(confs):
        for cx, turned in ((True, False), (False, False), (True, True), (False, True)):
            n = total // (4 * len(confs))
            bonds = real_bonds(*cell)
            if turned:      # bond lists of the user's, naming bonds from either end
                r_ = random.Random(SEED * 100 + ci * 2 + cx)
                bonds = [(y, x, (k + 2) % 4) if r_.random() < 0.6 else (x, y, k) for x, y, k in bonds]
            r = tlc("GateTerms", dict(NSites=cell[0] * cell[1], Bonds=bonds, Q=q, Cx=cx, NCases=n, SumCheck=cell == (2, 2)),
                    invariants=["SumsUp", "Export"], outputs=["out.ndjson"], seed=SEED * 100 + ci * 2 + cx + 50 * turned)
            c.add_tlc(r)
            cases = r.files["out.ndjson"]
            if len(cases) != n:
                raise MachineryError(f"{len(cases)} of {n} cases generated")
            for b, x in zip(cases, parallel("gate_check", "replay", [(b, SEED * 10000 + i) for i, b in enumerate(cases)],
                                            dict(cell=cell, q=q, bonds=bonds, cx=cx))):
                if x:
                    c.violation(x, b)
                else:
                    c.traces += 1
            c.sample({"cell": cell, "q": q, "has": cases[0]["c"]["has"], "generator of bond 1 (x4)": cases[0]["g"][0]})
