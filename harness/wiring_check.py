"""M02, M03: leg-by-leg connectivity (Wiring.tla) of density matrices and bond environments."""
import random
import numpy as np
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from measure_check import TD, cast
import geometry as geo


def blank(cell, q, D, dt, chi=8, evo=None, ctm=None):
    from acetn.ipeps import Ipeps
    return Ipeps({"dtype": str(dt).split(".")[1], "TN": {"nx": cell[0], "ny": cell[1], "dims": {"phys": q, "bond": D, "chi": chi}},
                  "ctmrg": {"steps": 1, "disable_progressbar": True, **(ctm or {})},
                  "evolution": {"disable_progressbar": True, **(evo or {})}})


def load(net, recs, D, q, dt, fill):
    """Tensors of the case; every other tensor holds `fill`."""
    for s in net.site_list:
        net[s]["A"] = torch.full((D, D, D, D, q), fill, dtype=dt)
        net[s]["C"] = [torch.full((2, 2), fill, dtype=dt) for _ in range(4)]
        net[s]["E"] = [torch.full((2, 2, D, D), fill, dtype=dt) for _ in range(4)]
    for r in recs:
        kind, s, j = r["id"]
        t = torch.zeros(r["d"], dtype=torch.complex128)
        for e in r["e"]:
            t[tuple(e["ix"])] += complex(*e["z"])
        t = cast(t, dt)
        if kind == "A":
            net[tuple(s)]["A"] = t
        else:
            net[tuple(s)][kind][j] = t


def exact(v, q, nphys):
    r = np.zeros((q,) * nphys, dtype=complex)
    for x in v:
        r[tuple(x["p"])] += complex(*x["z"])
    return r


def replay(it, sh):
    from acetn.measurement.rdm import RDM
    from acetn.ipeps.bond import Bond
    b, seed = it
    c = b["c"]
    D, q, s, k = c["D"], c["q"], tuple(c["s"]), c["k"]
    dt = TD[random.Random(seed).choice(["c128", "c64"] if sh["cx"] else ["f64", "f32", "c128"])]
    net = blank(sh["cell"], q, D, dt)
    fill = float("nan")
    load(net, b["t"], D, q, dt, fill)
    tol = 1e-5 if dt in (torch.float32, torch.complex64) else 1e-12
    scale = float(np.prod([np.sqrt(sum(e["z"][0] ** 2 + e["z"][1] ** 2 for e in r["e"])) ** (2 if r["id"][0] == "A" else 1)
                           for r in b["t"]]))
    s2 = geo.nb(net, s, k)
    where = f"site {s}" if sh["kind"] == "site" else f"bond {s}->{s2} direction {k}"

    def cmp(name, got, want, scale=1):
        got = got.detach().to(torch.complex128).numpy()
        if got.shape != want.shape:
            return f"{name} of {where} has shape {got.shape}"
        if not np.all(np.isfinite(got)):
            return f"{name} of {where} depends on a tensor that does not border it"
        if np.abs(got - want).max() > tol * max(1, scale, np.abs(want).max()):
            i = np.unravel_index(np.argmax(np.abs(got - want)), want.shape)
            return f"{name} of {where}: entry {tuple(int(x) for x in i)} is {got[i]}, exact contraction gives {want[i]}"
        return None
    if sh["kind"] == "site":
        want = exact(b["v"], q, 2).T                                  # [bra, ket]
        own = geo.site_rdm(net, s)
    else:
        want = exact(b["v"], q, 4).transpose(1, 3, 0, 2)              # [bra1, bra2, ket1, ket2]
        own = geo.bond_rdm(net, s, k)
    if np.abs(own - want).max() > tol * 10 * max(1, np.abs(want).max()):
        raise MachineryError("the harness contraction disagrees with the specification")
    if sh["pid"] == "M02":
        try:
            got = with_timeout(60, lambda: RDM(net)[s if sh["kind"] == "site" else Bond(s, s2, k)])
        except Exception as e:
            return f"density matrix of {where} fails: {type(e).__name__}: {e}"
        return cmp("density matrix", got, want, scale)
    return norm_replay(net, s, s2, k, q, want, cmp, scale)


def norm_replay(net, s, s2, k, q, want, cmp, scale):
    """Norm tensor with the reduced tensors of the case."""
    try:
        from acetn.evolution import full_update as fu
        build, dec = fu.build_norm_tensor, fu.FullUpdater.decompose_site_tensors
        perm = fu.FullUpdater.bond_permutation
    except (ImportError, AttributeError):
        return "skip"
    from acetn.ipeps.bond import Bond
    try:
        a1, a2 = net[s]["A"].permute(perm(k)), net[s2]["A"].permute(perm(k))
        a1q, a1r, a2q, a2r = dec(a1, a2)
        n12 = with_timeout(60, lambda: build(net, Bond(s, s2, k), a1q, a2q))
    except TypeError:
        return "skip"
    except Exception as e:
        return f"norm tensor of bond {s}->{s2} direction {k} fails: {type(e).__name__}: {e}"
    a12 = torch.einsum("yup,xuq->yxpq", a1r, a2r)
    got = torch.einsum("yxYX,yxpq,YXPQ->PQpq", n12, a12, a12.conj())
    # rounding errors scale with the tensors, whatever the result cancels to
    return cmp("norm", got, want, scale)


# ------------------------------------------------------------------ minimization in the true environment
DIRS = ["left", "up", "right", "down"]


def dist2(n, g, env):
    """Distance of the best multiple of n from g, relative to g, in the metric env[ket, bra]."""
    ip = lambda a, b: np.einsum("ap,ab,bp->", a, env, b.conj())
    return max(0.0, float((1 - abs(ip(n, g)) ** 2 / (ip(n, n).real * ip(g, g).real)).real))


def als(g, env, d1, d2, q, D, x0, sweeps):
    """Reference: alternating least squares on dense two-site tensors x[o1,p,u] y[u,o2,q]."""
    G = g.reshape(d1, d2, q, q)
    N = env.reshape(d1, d2, d1, d2)
    x, y = x0
    best = None
    for it in range(sweeps):
        for side in (0, 1):
            if side == 0:
                # min over x of |x y - G|_N ; unknown x[o1,u] per p
                M = np.einsum("abcd,ubq,vdq->aucv", N, y, y.conj(), optimize=True)
                R = np.einsum("abcd,abpq,vdq->cvp", N, G, y.conj(), optimize=True)
                n = d1 * D
                sol = np.linalg.lstsq(M.reshape(n, n).T, R.reshape(n, q), rcond=1e-13)[0]
                x = sol.reshape(d1, D, q).transpose(0, 2, 1)
            else:
                M = np.einsum("abcd,apu,cpv->budv", N, x, x.conj(), optimize=True)
                R = np.einsum("abcd,abpq,cpv->dvq", N, G, x.conj(), optimize=True)
                n = d2 * D
                sol = np.linalg.lstsq(M.reshape(n, n).T, R.reshape(n, q), rcond=1e-13)[0]
                y = sol.reshape(d2, D, q).transpose(1, 0, 2)
        m = np.einsum("apu,ubq->abpq", x, y).reshape(d1 * d2, q * q)
        dd = dist2(m, g, env)
        if best is not None and best - dd <= 1e-9 * best:
            break
        best = dd
    return best


def minimize_replay(it, sh):
    from acetn.evolution.fast_full_update import FastFullUpdater
    from acetn.evolution.gate import Gate
    from acetn.model import Model
    from acetn.ipeps.bond import Bond
    seed = it
    rnd = random.Random(seed)
    torch.manual_seed(seed)
    D, q = rnd.choice([(2, 2), (2, 2), (2, 3)])
    dt = TD[["c128", "f64"][seed % 2]]
    k = (seed // 2) % 4
    cell = rnd.choice([(2, 2), (3, 2), (2, 3)])
    evo = {"use_gauge_fix": rnd.random() < 0.5, "als_method": rnd.choice(["cholesky", "pinv"]), "als_niter": 100}
    net = blank(cell, q, D, dt, evo=evo)
    for s in net.site_list:
        net[s]["A"] = torch.randn(D, D, D, D, q, dtype=dt)
        net[s]["A"] = net[s]["A"] / net[s]["A"].norm()
        net[s].initialize_corner_tensors()
        net[s].initialize_edge_tensors()
    rank = rnd.choice([0, 0, 0, 1, 2, -1, -1, -1])
    if rank < 0:
        # a correlated environment: a random state of two layers, its auxiliary legs traced
        R = lambda *sh: torch.randn(*sh, dtype=dt)
        for s in net.site_list:
            c_ = [R(2, 2) for _ in range(4)]
            e_ = [R(2, 2, D, 2) for _ in range(4)]
            net[s]["C"] = [torch.einsum("ab,AB->aAbB", x, x.conj()).reshape(4, 4) for x in c_]
            net[s]["E"] = [torch.einsum("abkz,ABKz->aAbBkK", x, x.conj()).reshape(4, 4, D, D) for x in e_]
    elif rank:
        # a product environment of low rank: the norm tensor is singular
        for s in net.site_list:
            net[s]["C"] = [torch.ones(1, 1, dtype=dt)] * 4
            v = torch.randn(4, rank, D, dtype=dt)
            net[s]["E"] = [torch.einsum("rk,rb->kb", x, x.conj())[None, None] for x in v]
    s1 = rnd.choice(net.site_list)
    s2 = geo.nb(net, s1, k)
    bond = Bond(s1, s2, k)
    amp = rnd.choice([0.2, 0.6])
    H = torch.randn(q * q, q * q, dtype=dt) * amp
    if rnd.random() < 0.5:
        H = (H + H.mH) / 2

    class Mod(Model):
        def two_site_hamiltonian(self, b):
            return H
    env = geo.bond_env(net, s1, k)
    n = env.ndim // 2
    shp = env.shape[:n]
    d1, d2 = int(np.prod(shp[:3])), int(np.prod(shp[3:]))
    env = env.reshape(d1 * d2, d1 * d2)
    G = torch.matrix_exp(-H).reshape(q, q, q, q)
    g = geo.bond_ket(net[s1]["A"], net[s2]["A"], k, G).reshape(d1 * d2, q * q)
    # direct truncation of the gate-applied two-site tensor
    m = g.reshape(d1, d2, q, q).transpose(0, 2, 1, 3).reshape(d1 * q, d2 * q)
    U, S, V = np.linalg.svd(m)
    x0 = ((U[:, :D] * S[:D]).reshape(d1, q, D), V[:D].reshape(D, d2, q))
    direct = dist2(np.einsum("apu,ubq->abpq", *x0).reshape(d1 * d2, q * q), g, env)
    what = f"bond {s1}->{s2} ({DIRS[k]}, {str(dt).split('.')[1]}, gauge_fix={evo['use_gauge_fix']}, {evo['als_method']}, environment {'correlated' if rank < 0 else 'of rank %d' % rank if rank else 'generic'})"
    before = {s: net[s]["A"].clone() for s in net.site_list}
    try:
        # constructing an updater from a model given directly
        gate = Gate(Mod(net.config.model), 1.0, [bond], net.site_list)
        u = FastFullUpdater(net, gate, net.config.evolution)
        with_timeout(120, lambda: u.bond_update(bond))
    except Exception as e:
        return f"updating {what} fails: {type(e).__name__}: {e}"
    for s in net.site_list:
        if s not in (s1, s2) and not torch.equal(before[s], net[s]["A"]):
            return f"updating {what} changed site tensor {s}"
    new = geo.bond_ket(net[s1]["A"], net[s2]["A"], k).reshape(d1 * d2, q * q)
    got = dist2(new, g, env)
    if got > direct * (1 + 1e-6) + 1e-10:
        return f"updating {what}: distance {got:.3e} in the true environment, direct truncation has {direct:.3e}"
    # the reference minimizes over the same tensors: the outer legs of both sites keep the span they had
    def span(A, j):
        U, S, _ = np.linalg.svd(np.moveaxis(geo.npy(A), j, 3).reshape(-1, D * q), full_matrices=False)
        return U[:, S > 1e-12 * S[0]]
    q1, q2 = span(before[s1], k), span(before[s2], (k + 2) % 4)
    qq = np.kron(q1, q2)
    xr = (np.einsum("ai,apu->ipu", q1.conj(), x0[0]), np.einsum("bj,ubq->ujq", q2.conj(), x0[1]))
    ref = als(qq.conj().T @ g, qq.T @ env @ qq.conj(), q1.shape[1], q2.shape[1], q, D, xr, 100)
    return ("ok", got, direct, ref, what)


def run(c, pid):
    cells = [(2, 2), (3, 3)] if not pid == "x" else []
    total = tier(512, 4800)
    kinds = ["site", "bond"] if pid == "M02" else ["bond"]
    i = 0
    for cell in cells + [(3, 2)]:
        for kind in kinds:
            for cx in (True, False):
                i += 1
                n = total // (len(kinds) * 6)
                r = tlc("Wiring", dict(NX=cell[0], NY=cell[1], Cx=cx, NCases=n, Kind=kind), invariants=["WellFormed", "Positive", "Export"],
                        outputs=["out.ndjson"], seed=SEED * 100 + i)
                c.add_tlc(r)
                cases = r.files["out.ndjson"]
                if len(cases) != n:
                    raise MachineryError(f"{len(cases)} of {n} cases generated")
                for b, x in zip(cases, parallel("wiring_check", "replay", [(b, SEED * 1000 + j) for j, b in enumerate(cases)],
                                                dict(cell=cell, kind=kind, cx=cx, pid=pid))):
                    if x == "skip":
                        c.count("norm_tensor_not_accessible")
                    elif x:
                        c.violation(x, b)
                    else:
                        c.traces += 1
                c.sample({"cell": cell, "kind": kind, "case": cases[0]["c"], "value": cases[0]["v"][:2]})
    if pid == "M03":
        n = tier(240, 4000)
        worst, groups = 0.0, {}
        for x in parallel("wiring_check", "minimize_replay", [SEED * 1000 + j for j in range(n)]):
            if isinstance(x, str):
                c.violation(x)
                continue
            _, got, direct, ref, what = x
            c.count("minimizations")
            # alternating minimization may stop in another minimum now and then (a few in 4000), not regularly
            if got > 2 * ref + 1e-9:
                c.violation(f"updating {what}: distance {got:.3e} in the true environment, the minimum is {ref:.3e}")
            key = ", ".join(what.split("(")[1].split(", ")[1:4])
            groups.setdefault(key, []).append((got > 1.1 * ref + 1e-9, x))
            worst = max(worst, got / max(ref, 1e-9))
        for key, g in groups.items():
            bad = [x for b, x in g if b]
            if len(bad) >= 3 and len(bad) > 0.06 * len(g):
                c.violation(f"updates ({key}) regularly miss the minimum in the true environment: {len(bad)} of {len(g)}, "
                            f"e.g. {bad[0][4]}: distance {bad[0][1]:.3e}, minimum {bad[0][3]:.3e}")
        c.extra["worst_ratio_to_reference_minimum"] = worst
