"""C04: the projector pairs of the cuts of CTM.tla's histories, against an independent contraction of the cut system."""
import random
import numpy as np
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from measure_check import TD
from ctm_check import network, move, MOVES, CELLS, INV
import geometry as geo

CUT = ["calculate_left_projectors", "calculate_up_projectors", "calculate_right_projectors", "calculate_down_projectors"]


def quarter(net, s, p, k, turn):
    """The quarter of the cut system at position p: turn 0..3 for the sites s1, s2, s3, s4 of a cut in direction k."""
    j = k + turn
    st = net[s]
    return [geo.ket(st["A"], p, ("phys", p)), geo.bra(st["A"], p, ("phys", p)), geo.edge(st["E"][(j + 3) % 4], p, (j + 3) % 4),
            geo.edge(st["E"][j % 4], p, j % 4), geo.corner(st["C"][j % 4], p, j % 4)]


def legs(p, side, d):
    """Legs in direction d of the site at p and of the boundary on its side `side`."""
    return [geo.link(geo.step(p, side % 4), d % 4, "bnd"), geo.link(p, d % 4, "ket"), geo.link(p, d % 4, "bra")]


def mat(nodes, rows, cols):
    t = geo.contract(nodes, rows + cols)
    return t.reshape(int(np.prod(t.shape[:3])), -1), t.shape


def cut_system(net, s, k, full):
    """Parts on both sides of the cut: R1[far, cut], R2[cut, far]."""
    s1, s2, s3, s4 = s
    p1 = (0, 0)
    p2, p4 = geo.step(p1, (k + 2) % 4), geo.step(p1, (k + 3) % 4)
    p3 = geo.step(p4, (k + 2) % 4)
    cut1, cut4 = legs(p1, k, k + 3), legs(p4, k, k + 1)
    n1, n4 = quarter(net, s1, p1, k, 0), quarter(net, s4, p4, k, 3)
    if not full:
        R1, sh1 = mat(n1, legs(p1, k + 1, k + 2), cut1)
        R2, sh2 = mat(n4, cut4, legs(p4, k + 3, k + 2))
    else:
        R1, sh1 = mat(n1 + quarter(net, s2, p2, k, 1), legs(p2, k + 2, k + 3), cut1)
        R2, sh2 = mat(n4 + quarter(net, s3, p3, k, 2), cut4, legs(p3, k + 2, k + 1))
    return R1 / np.abs(R1).max(), R2 / np.abs(R2).max(), sh1[3:]


def replay(it, sh):
    from acetn.renormalization.directional_mover import DirectionalMover
    b, seed = it
    rnd = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    cell, D = sh["cell"], sh["D"]
    q = rnd.choice([2, 3])
    dtn = rnd.choice(["f64", "c128"])
    dt = TD[dtn]
    net = network(cell, D, q, dt, g, b["chi0"], {"projectors": "half-system", "svd_cutoff": 1e-13})
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    if sh.get("degenerate"):
        # every level of a bond is a copy of the others: all nonzero singular values of a cut come in multiplets
        for s in sites:
            A = torch.zeros(D, D, D, D, q, dtype=dt)
            v = torch.randn(q, dtype=dt, generator=g)
            for i in range(D):
                A[i, i, i, i] = v / v.norm()
            net[s]["A"] = A
            net[s].initialize_corner_tensors()
            net[s].initialize_edge_tensors()
    hist_mover = DirectionalMover(net.config.ctmrg)
    n, quality = 0, []
    for st in b["h"]:
        try:
            if st["op"]["op"] == "move":
                with_timeout(120, lambda: move(hist_mover, net, st["op"]["d"], st["op"]["i"]))
            elif st["op"]["op"] == "chi":
                net.set_chi(st["chi"])
        except Exception as e:
            return f"{st['op']} fails: {type(e).__name__}: {e}"
        for _ in range(sh["cuts"]):
            i, k = rnd.randrange(len(sites)), rnd.randrange(4)
            cut = st["cuts"][i][k]
            full = rnd.random() < 0.5
            cfg = net.config.ctmrg
            var = dict(projectors="full-system" if full else "half-system", svd_type=rnd.choice(["full-rank", "rsvd"]),
                       svd_cutoff=rnd.choice([1e-12, 1e-12, 1e-5, 1e-2, 0.3]), rsvd_niter=rnd.choice([2, 2, 0, 1, 4]),
                       rsvd_oversampling=rnd.choice([2, 0, 10, 100]))
            R1, R2, legdims = cut_system(net, [sites[i], tuple(cut["s2"]), tuple(cut["s3"]), tuple(cut["s4"])], k, full)
            F = R1 @ R2
            U, s, Vh = np.linalg.svd(F)
            rel = s / s[0]
            steps_ = [j for j in range(min(net.dims["chi"], len(rel) - 1)) if rel[j + 1] > 1e-7 and rel[j] / rel[j + 1] > 1.01]
            if steps_ and rnd.random() < 0.6:      # a cutoff just below or above a singular value
                j = rnd.choice(steps_)
                var["svd_cutoff"] = float(rnd.choice([rel[j] * (1 - 1e-3), rel[j + 1] * (1 + 1e-3)]))
            keep = {x: getattr(cfg, x) for x in var}
            for x, v in var.items():
                setattr(cfg, x, v)
            chi = net.dims["chi"]
            what = f"cut of site {sites[i]} in direction {k} (cell {cell}, D={D}, chi {chi}, {dtn}, {var})"
            try:
                P1, P2 = with_timeout(120, lambda: getattr(DirectionalMover(cfg), CUT[k])(net, *sites[i]))
            except AttributeError:
                return "skip"
            except Exception as e:
                return f"{what}: projectors fail: {type(e).__name__}: {e}"
            finally:
                for x, v in keep.items():
                    setattr(cfg, x, v)
            if P1.ndim != 4 or P2.ndim != 4:
                return "skip"
            if sh.get("degenerate") and int(np.prod(legdims)) < cut["full"]:
                cut = {**cut, "full": int(np.prod(legdims))}        # earlier cuts have less rank than they could keep
            if int(np.prod(legdims)) != cut["full"]:
                return f"{what}: cut has dimension {legdims}, the specification says {cut['full']}"
            z = P1.shape[-1]
            if P2.shape[-1] != z:
                return f"{what}: projectors keep {z} and {P2.shape[-1]}"
            if tuple(P1.shape[:3]) != tuple(legdims) or tuple(P2.shape[:3]) != tuple(legdims):
                return f"{what}: projector legs {tuple(P1.shape)}, {tuple(P2.shape)}, legs of the cut {tuple(legdims)}"
            if z > min(chi, cut["full"]):
                return f"{what}: keeps {z}"
            exact = var["svd_type"] == "full-rank" or chi + var["rsvd_oversampling"] >= int((rel > 1e-14).sum())
            lo, hi = (rel > var["svd_cutoff"] * (1 + 1e-6) + 1e-13).sum(), (rel > var["svd_cutoff"] * (1 - 1e-6) - 1e-13).sum()
            if exact:
                # power iterations lose what is below sqrt(eps) of the largest only if the sketch does not cover the rank
                if not min(chi, lo) <= z <= min(chi, hi):
                    return f"{what}: keeps {z} of the {int(lo)} singular values above the cutoff"
            elif z == 0:
                return f"{what}: keeps nothing"
            p1, p2 = geo.npy(P1).reshape(-1, z), geo.npy(P2).reshape(-1, z)
            if not (np.isfinite(p1).all() and np.isfinite(p2).all()):
                return f"{what}: projectors are not finite"
            tol = 1e-12 / rel[z - 1] * s.size
            if tol > 1e-3:
                continue
            m = p1.T @ p2
            scale = np.trace(m) / z
            one = np.abs(m / scale - np.eye(z)).max() if scale else np.inf
            if not one < tol:
                return f"{what}: product of the projectors differs from a multiple of the identity by {one:.2e}"
            p1 = p1 / scale
            G = R1 @ p2 @ p1.T @ R2 / s[0]
            best = (U[:, :z] * rel[:z]) @ Vh[:z]
            if exact:
                if z < rel.size and rel[z] > 1e-10 and rel[z - 1] / rel[z] < 1 + 1e-5:
                    # which of the equal values are kept is open, how much is lost is not
                    err, opt = np.linalg.norm(G - F / s[0]), np.linalg.norm(rel[z:])
                    if not abs(err - opt) <= 1e-4 * opt + tol:
                        return f"{what}: inserting the projectors errs by {err:.6e}, the best approximation of rank {z} by {opt:.6e}"
                    n += 1
                    continue
                if z < rel.size and rel[z] > 1e-13:
                    tol = tol / (1 - rel[z] / rel[z - 1])
                dev = np.abs(G - best).max()
                if dev > tol:
                    return f"{what}: inserting the projectors differs from the best approximation of rank {z} by {dev:.2e}"
                n += 1
            else:
                opt = np.linalg.norm(rel[z:])
                err = np.linalg.norm(G - F / s[0])
                if var["rsvd_niter"] >= 1 and opt > 1e-9:
                    quality.append((err / opt, var["rsvd_niter"], var["rsvd_oversampling"]))
                    if err > 30 * opt and var["rsvd_niter"] >= 2:
                        return f"{what}: inserting the projectors errs by {err:.2e}, the best approximation of rank {z} by {opt:.2e}"
    return ("ok", n, max((x[0] for x in quality), default=0), len(quality))


def low_rank(seed, sh):
    """The decompositions themselves, on matrices whose rank the sketch covers."""
    try:
        from acetn.linalg import svd_lowrank, fused_matmul_svd_lowrank, fused_3matmul_svd_lowrank
    except ImportError:
        return "skip"
    rnd = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    dtn = rnd.choice(["f64", "c128", "f32", "c64"])
    dt = TD[dtn]
    m, k1, k2, k3, n = [rnd.randrange(1, 14) for _ in range(5)]
    r = rnd.randrange(1, 8)
    R = lambda *sh: torch.randn(*sh, dtype=dt, generator=g)
    f = rnd.choice(["svd_lowrank", "fused_matmul_svd_lowrank", "fused_3matmul_svd_lowrank"])
    ops = {"svd_lowrank": lambda: [R(m, r) @ R(r, n)], "fused_matmul_svd_lowrank": lambda: [R(m, r) @ R(r, k1), R(k1, n)],
           "fused_3matmul_svd_lowrank": lambda: [R(m, k1), R(k1, k2), R(k2, r) @ R(r, k3), R(k3, n)]}[f]()
    M = ops[0]
    for x in ops[1:]:
        M = M @ x
    rank = min([r, m, n] + ([k1] if len(ops) > 1 else []) + ([k2, k3] if len(ops) > 3 else []))
    q = rank + rnd.choice([0, 0, 1, 5, 20])
    niter = rnd.choice([0, 1, 2, 3])
    what = f"{f} of a {m}x{n} matrix of rank {rank} with target {q}, {niter} iterations ({dtn})"
    try:
        U, S, V = with_timeout(60, lambda: {"svd_lowrank": svd_lowrank, "fused_matmul_svd_lowrank": fused_matmul_svd_lowrank,
                                            "fused_3matmul_svd_lowrank": fused_3matmul_svd_lowrank}[f](*ops, q=q, niter=niter))
    except Exception as e:
        return f"{what} fails: {type(e).__name__}: {e}"
    tol = 1e-4 if dt in (torch.float32, torch.complex64) else 1e-10
    M, U, S, V = [geo.npy(x) for x in (M, U, S, V)]
    ref = np.linalg.svd(M, compute_uv=False)
    if len(S) != min(q, m, n) or U.shape != (m, len(S)) or V.shape != (n, len(S)):
        return f"{what}: shapes {U.shape}, {S.shape}, {V.shape}"
    cond = ref[0] / ref[rank - 1]
    if cond > 1e3:
        return "redraw"
    if np.abs(S - ref[:len(S)]).max() > tol * ref[0] * cond:
        return f"{what}: singular values {S.real.tolist()}, exact {ref[:len(S)].tolist()}"
    if np.abs((U * S) @ V.conj().T - M).max() > tol * ref[0] * cond:
        return f"{what}: U S V^H is not the matrix"
    for X in (U, V):
        X = X[:, :rank]
        if np.abs(X.conj().T @ X - np.eye(rank)).max() > tol * cond:
            return f"{what}: singular vectors are not orthonormal"
    return None


def run(c, pid):
    c.assumptions += ["generic (random) site tensors; ambiguous singular values (at a cutoff or a degenerate edge) are skipped"]
    worst = 0
    for ci, cell in enumerate([x for x in CELLS if x != (1, 1)]):
        for D, chis, n, length in ((2, {3, 6, 9, 20}, tier(12, 150), 6), (3, {5, 12}, tier(3, 30), 3), (1, {1, 2}, tier(1, 5), 3)):
            r = tlc("CTM", dict(NX=cell[0], NY=cell[1], D2=D * D, Chis=chis, Full=False, Lossless=False, Ops={"move", "chi", "cut"}, Len1=length, NCases=n),
                    invariants=INV, outputs=["out.ndjson"], seed=SEED * 1000 + ci * 20 + D + 500)
            c.add_tlc(r)
            cases = r.files["out.ndjson"]
            if len(cases) != n:
                raise MachineryError(f"{len(cases)} of {n} cases generated")
            sh = dict(cell=cell, D=D, cuts=tier(4, 6) if D < 3 else 2)
            for b, x in zip(cases, parallel("proj_check", "replay", [(b, SEED * 1000 + j) for j, b in enumerate(cases)], sh)):
                if x == "skip":
                    c.count("projectors_not_accessible")
                elif isinstance(x, tuple):
                    c.traces += 1
                    c.count("cuts_compared", x[1])
                    c.count("approximate_cuts", x[3])
                    worst = max(worst, x[2])
                else:
                    c.violation(x, b)
            if ci == 0:
                c.sample({"cell": cell, "D": D, "ops": [s["op"] for s in cases[0]["h"]]})
    c.extra["worst_randomized_error_over_best"] = round(worst, 2)
    for cell in ((2, 2), (3, 2)):
        n = tier(12, 60)
        r = tlc("CTM", dict(NX=cell[0], NY=cell[1], D2=9, Chis={2, 3, 6}, Full=False, Lossless=False, Ops={"move", "chi", "cut"}, Len1=3, NCases=n),
                invariants=INV, outputs=["out.ndjson"], seed=SEED * 1000 + 900 + cell[0])
        c.add_tlc(r)
        cases = r.files["out.ndjson"]
        sh = dict(cell=cell, D=3, cuts=5, degenerate=True)
        for b, x in zip(cases, parallel("proj_check", "replay", [(b, SEED * 1000 + 500 + j) for j, b in enumerate(cases)], sh)):
            if isinstance(x, tuple):
                c.traces += 1
                c.count("degenerate_cuts_compared", x[1])
            elif x != "skip":
                c.violation(x, b)
    for x in parallel("proj_check", "low_rank", [SEED * 10000 + j for j in range(tier(600, 6000))]):
        if x in ("skip", "redraw"):
            c.count("decompositions_" + x)
        elif x:
            c.violation(x)
        else:
            c.count("decompositions")
