"""C01, C02, C03: histories of CTM.tla replayed into the boundary renormalization."""
import random
import numpy as np
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from measure_check import TD
from wiring_check import blank
from lambda_check import Store, gate
import geometry as geo

MOVES = ["left_move", "up_move", "right_move", "down_move"]
CELLS = ((2, 2), (3, 2), (1, 2), (2, 3), (2, 1), (3, 3), (1, 1), (1, 3))


def network(cell, D, q, dt, g, chi, ctm):
    net = blank(cell, q, D, dt, chi=chi, ctm=ctm)
    for s in net.site_list:
        net[s]["A"] = torch.randn(D, D, D, D, q, dtype=dt, generator=g)
        net[s].initialize_corner_tensors()
        net[s].initialize_edge_tensors()
    return net


def tensors(net):
    r = {}
    for s in net.site_list:
        r[(tuple(s), "A", 0)] = net[s]["A"]
        for j in range(4):
            r[(tuple(s), "C", j)] = net[s]["C"][j]
            r[(tuple(s), "E", j)] = net[s]["E"][j]
    return r


def put(net, key, t):
    s, kind, j = key
    if kind == "A":
        net[s]["A"] = t
    else:
        net[s][kind][j] = t


def move(mover, net, d, i):
    getattr(mover, MOVES[d])(net, i)


def describe(st, cell, var):
    o = st["op"]
    w = {"move": f"{MOVES[o['d']]} of line {o['i']}", "sweep": f"{o['x']} sweep(s)", "chi": f"chi change to {st['chi']}",
         "bond": f"bond update at {tuple(o['s'])} direction {o['d']}"}[o["op"]]
    return f"{w} (cell {cell}, chi {st['chi']}, {var})"


class Record:
    """Directional moves made by an operation (single process)."""

    def __init__(self):
        from acetn.renormalization.directional_mover import DirectionalMover as DM
        self.DM, self.log, self.depth = DM, [], 0
        self.orig = {d: getattr(DM, m) for d, m in enumerate(MOVES)}

    def __enter__(self):
        for d, m in enumerate(MOVES):
            def f(this, ipeps, i, *a, _d=d, **kw):
                self.log.append([_d, int(i)])
                return self.orig[_d](this, ipeps, i, *a, **kw)
            setattr(self.DM, m, f)
        return self

    def __exit__(self, *a):
        for d, m in enumerate(MOVES):
            setattr(self.DM, m, self.orig[d])


def variant(rnd, full):
    dt = rnd.choice(["f64", "c128"])
    return dt, {"projectors": "full-system" if full else "half-system", "svd_type": rnd.choice(["full-rank", "rsvd"])}


def apply_op(net, mover, st, cell, q, dt, g, kind=None):
    from acetn.evolution.fast_full_update import FastFullUpdater
    from acetn.ipeps.bond import Bond
    o = st["op"]
    if o["op"] == "move":
        move(mover, net, o["d"], o["i"])
    elif o["op"] == "chi":
        net.set_chi(st["chi"])
    elif o["op"] == "sweep":
        net.config.ctmrg.steps = o["x"]
        net.renormalize()
    else:
        s1 = tuple(o["s"])
        bond = Bond(s1, geo.nb(net, s1, o["d"]), o["d"])
        G = Store(dt, torch.device("cpu"))
        G[bond] = gate(kind or random.Random(len(st["ren"])).choice(["weak", "hermitian"]), q, dt, g).reshape((q,) * 4)
        FastFullUpdater(net, G, net.config.evolution).bond_update(bond)
        return bond
    return None


def replay_moves(it, sh):
    """C01: exactly the tensors the specification renews change; nothing else matters."""
    from acetn.renormalization.directional_mover import DirectionalMover
    b, seed = it
    rnd = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    cell, D = sh["cell"], sh["D"]
    q = rnd.choice([2, 3])
    dtn, ctm = variant(rnd, sh["full"])
    dt, var = TD[dtn], f"{dtn}, D={D}, {ctm['projectors']}, {ctm['svd_type']}"
    net = network(cell, D, q, dt, g, b["chi0"], ctm)
    mover = DirectionalMover(net.config.ctmrg)
    for k, st in enumerate(b["h"]):
        what = describe(st, cell, var)
        o = st["op"]
        kind = None
        if o["op"] == "bond" and rnd.random() < 0.4:
            # a gate that leaves the site tensors as they are (after an update or two): their environment is renewed all the same
            kind = "one"
            try:
                for _ in range(3):
                    with_timeout(120, lambda: apply_op(net, mover, st, cell, q, dt, g, kind))
            except Exception as e:
                return f"{what} fails: {type(e).__name__}: {e}"
        for key, t in tensors(net).items():        # nothing renewed can keep this norm
            if key[1] != "A":
                put(net, key, t * (4 / t.norm()))
        old = {x: t.clone() for x, t in tensors(net).items()}
        ren = {(tuple(r["s"]), r["t"], r["j"]) for r in st["ren"]}
        try:
            with Record() as rec:
                bond = with_timeout(120, lambda: apply_op(net, mover, st, cell, q, dt, g, kind))
        except Exception as e:
            return f"{what} fails: {type(e).__name__}: {e}"
        if rec.log and sorted(rec.log) != sorted(st["moves"]):
            return f"{what} makes the moves {rec.log}, expected {st['moves']}"
        new = tensors(net)
        if bond is not None:
            ren |= {(tuple(bond.s1), "A", 0), (tuple(bond.s2), "A", 0)}
        for key, t in new.items():
            same = t.shape == old[key].shape and torch.equal(t, old[key])
            if same and key in ren and key[1] != "A":
                return f"{what} does not renew {key[1]}[{key[2]}] of site {key[0]}"
            if not same and key not in ren:
                return f"{what} changes {key[1]}[{key[2]}] of site {key[0]}"
        if o["op"] == "move" and rnd.random() < 0.5:
            # the same move with everything else made unusable
            uses = {(tuple(r["s"]), r["t"], r["j"]) for r in st["uses"]}
            keep = {x: t.clone() for x, t in tensors(net).items()}
            for key, t in old.items():
                put(net, key, t.clone() if key in uses else torch.full_like(t, float("nan")))
            torch.manual_seed(seed + k)
            try:
                with_timeout(120, lambda: move(mover, net, o["d"], o["i"]))
                bad = [x for x in ren if not bool(torch.isfinite(torch.view_as_real(tensors(net)[x].to(torch.complex128))).all())]
            except Exception as e:
                bad = [f"{type(e).__name__}: {e}"]
            if bad:
                return f"{what} depends on a tensor outside the moved line and its cuts: {bad[0]}"
            for key, t in keep.items():
                put(net, key, t)
    return None


def replay_dims(it, sh):
    """C03: legs, finiteness and norms after every operation."""
    from acetn.renormalization.directional_mover import DirectionalMover
    b, seed = it
    rnd = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    torch.manual_seed(seed)
    cell, D = sh["cell"], sh["D"]
    q = rnd.choice([2, 3])
    dtn, ctm = variant(rnd, sh["full"])
    dt, var = TD[dtn], f"{dtn}, D={D}, {ctm['projectors']}, {ctm['svd_type']}"
    ctm["svd_cutoff"] = 1e-13
    net = network(cell, D, q, dt, g, b["chi0"], ctm)
    mover = DirectionalMover(net.config.ctmrg)
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    short = 0
    for k, st in enumerate(b["h"]):
        what = describe(st, cell, var)
        try:
            with_timeout(120, lambda: apply_op(net, mover, st, cell, q, dt, g))
        except Exception as e:
            return f"{what} fails: {type(e).__name__}: {e}"
        if net.dims["chi"] != st["chi"]:
            return f"{what}: boundary dimension is {net.dims['chi']}"
        for r in st["ren"]:
            t = net[tuple(r["s"])][r["t"]][r["j"]]
            if not bool(torch.isfinite(torch.view_as_real(t.to(torch.complex128))).all()):
                return f"{what}: {r['t']}[{r['j']}] of site {tuple(r['s'])} is not finite"
            if abs(float(t.norm()) - 1) > 1e-10:
                return f"{what}: {r['t']}[{r['j']}] of site {tuple(r['s'])} has norm {float(t.norm())}"
        for i, s in enumerate(sites):
            for kind in "EC":
                for j in range(4):
                    have, want = list(net[s][kind][j].shape), st["dims"][i][kind][j]
                    if kind == "E" and have[2:] != [D, D]:
                        return f"{what}: E[{j}] of site {s} has inner legs {have[2:]}"
                    if len(have) != (2 if kind == "C" else 4):
                        return f"{what}: {kind}[{j}] of site {s} has shape {have}"
                    for h, w in zip(have[:2], want):
                        if h > w:
                            return f"{what}: {kind}[{j}] of site {s} has legs {have[:2]}, at most {want} allowed"
                        if h < w:
                            short += 1
            for j in range(4):
                E, C0, C1 = net[s]["E"][j].shape, net[s]["C"][j].shape, net[s]["C"][(j + 1) % 4].shape
                far = net[geo.nb(net, s, (j + 2) % 4)]["E"][j].shape
                if E[0] != C0[1] or E[1] != C1[0] or E[1] != far[0]:
                    return f"{what}: legs around E[{j}] of site {s} do not match: {tuple(E)}, {tuple(C0)}, {tuple(C1)}, {tuple(far)}"
    return ("short", short) if short else None


# ------------------------------------------------------------------ exact clusters
def cluster(A, cells, open_):
    """Contraction of a rectangle of doubled site tensors, outer legs traced; physical legs of `open_` stay: [bra.., ket..]."""
    lab = {(x, y): tuple(s) for x, y, s in cells}
    xs, ys = sorted({p[0] for p in lab}), sorted({p[1] for p in lab})
    if len(xs) > len(ys):                          # keep the moving front short: transpose the plane (x,y) -> (y,x)
        perm = (3, 2, 1, 0, 4)                     # left<->down, up<->right
        return cluster({s: np.transpose(a, perm) for s, a in A.items()}, [(y, x, s) for (x, y), s in lab.items()], [(p[1], p[0]) for p in open_])
    dbl, opn = {}, {}
    for s, a in A.items():
        D, q = a.shape[0], a.shape[4]
        dbl[s] = np.einsum("lurdp,LURDp->lLuUrRdD", a, a.conj()).reshape((D * D,) * 4)
        opn[s] = np.einsum("lurdp,LURDP->lLuUrRdDpP", a, a.conj()).reshape((D * D,) * 4 + (q, q))
    D2 = next(iter(dbl.values())).shape[0]
    tr = np.eye(int(round(D2 ** 0.5))).reshape(-1)
    F = np.ones(())
    for _ in xs:
        F = np.multiply.outer(F, tr)              # front: one leg per column, then open physical legs
    order = []
    for y in reversed(ys):                         # from the top down
        F = np.multiply.outer(tr, F)               # leg running right
        for c, x in enumerate(xs):
            p = (x, y)
            # F legs: [run, columns..., phys...]; contract run with left, column c with up
            if p in open_:
                F = np.tensordot(opn[lab[p]], F, axes=([0, 1], [0, c + 1]))     # r d p P rest
                F = np.moveaxis(F, (2, 3), (F.ndim - 2, F.ndim - 1))
                order.append(p)
            else:
                F = np.tensordot(dbl[lab[p]], F, axes=([0, 1], [0, c + 1]))     # r d rest(columns without c)
            F = np.moveaxis(F, 1, c + 1)
        F = np.tensordot(tr, F, axes=(0, 0))
    for _ in xs:
        F = np.tensordot(tr, F, axes=(0, 0))
    n = len(open_)
    ket = [2 * order.index(p) for p in open_]
    F = F.transpose([i + 1 for i in ket] + ket)
    m = int(round(F.size ** 0.5))
    return F / np.trace(F.reshape(m, m))


def replay_exact(it, sh):
    """C02: lossless histories give the density matrices of the absorbed clusters."""
    from acetn.measurement.rdm import RDM
    from acetn.renormalization.directional_mover import DirectionalMover
    from acetn.ipeps.bond import Bond
    b, seed = it
    cell, D = sh["cell"], sh["D"]
    sites = [(x, y) for x in range(cell[0]) for y in range(cell[1])]
    bad, undecided = None, 0
    for draw in range(5):
        rnd = random.Random(seed * 10 + draw)
        dtn, ctm = variant(rnd, sh["full"])
        q = rnd.choice([2, 2, 3])
        dt, var = TD[dtn], f"{dtn}, D={D}, {ctm['projectors']}, {ctm['svd_type']}"
        ctm["svd_cutoff"] = 1e-14
        # the full system is a product of four quarters: what it carries with weight below 1e-14 is dropped
        tol = 1e-3 if ctm["projectors"] == "full-system" else 1e-6
        todo = [(s, None) for s in sites] + [(s, k) for s in sites for k in range(4)]
        rnd.shuffle(todo)
        todo = [t for t in todo[:8] if not (t[1] is not None and 1 in cell and tuple(np.mod(geo.step(*t), cell)) == t[0])]
        what = "after " + ", ".join(f"{MOVES[s['op']['d']]}({s['op']['i']})" for s in b["h"]) + f" (cell {cell}, chi {b['chi0']}, {var})"

        def density(noise):
            g = torch.Generator().manual_seed(seed * 10 + draw)
            torch.manual_seed(seed * 10 + draw)
            net = network(cell, D, q, dt, g, b["chi0"], ctm)
            for s in net.site_list:
                if noise:
                    A = net[s]["A"]
                    net[s]["A"] = A * (1 + noise * torch.randn(A.shape, generator=g, dtype=torch.float64))
            A = {tuple(s): geo.npy(net[s]["A"]) for s in net.site_list}
            mover = DirectionalMover(net.config.ctmrg)
            for st in b["h"]:
                with_timeout(120, lambda: move(mover, net, st["op"]["d"], st["op"]["i"]))
            rd, out = RDM(net), []
            for s, k in todo:
                x = geo.npy(rd[s] if k is None else rd[Bond(s, geo.nb(net, s, k), k)])
                m = int(round(x.size ** 0.5))
                out.append(x / np.trace(x.reshape(m, m)))
            return A, out

        try:
            A, out = density(0)
        except Exception as e:
            bad = f"{what} fails: {type(e).__name__}: {e}"
            continue
        failed = None
        for n, ((s, k), got) in enumerate(zip(todo, out)):
            i = sites.index(s)
            if k is None:
                want = cluster(A, b["cl"][i], [(0, 0)])
            else:
                want = cluster(A, b["bc"][i][k], [(0, 0), geo.step((0, 0), k)])
            if got.shape != want.shape:
                return f"{what}: density matrix at {s}, {k} has shape {got.shape}"
            dev = np.abs(got - want).max()
            if not dev < tol:
                failed = (n, dev, f"{what}: density matrix of {'site' if k is None else 'bond'} {s} {'' if k is None else k} differs by {dev:.2e} from the cluster of {len(b['cl'][i] if k is None else b['bc'][i][k])} sites")
                break
        if failed is None:
            return ("ok", draw)
        # how far the same history amplifies rounding: a relative change of 1e-13 of the site tensors
        try:
            amp = max(np.abs(density(1e-13 * (1 + j))[1][failed[0]] - out[failed[0]]).max() for j in range(2))
        except Exception:
            amp = 0
        if np.isfinite(failed[1]) and amp * 100 >= failed[1]:
            undecided += 1
        else:
            bad = failed[2]
    return bad if undecided < 3 else ("undecided", undecided)


INV = ["WellJoined", "WithinChi", "SweepRenewsAll", "BondRenewsEnds", "ProperClusters", "BondRect", "Export"]


def run(c, pid):
    c.assumptions += ["generic (random) site tensors"]
    if pid == "C02":
        c.assumptions += ["a generic draw that is ill-conditioned in double precision is redrawn; a violation needs four failing draws; a draw in which a relative change of 1e-13 of the site tensors moves the result by 1% of its deviation counts as undecided"]
    cells = CELLS if pid != "C03" else [x for x in CELLS if x != (1, 1)]
    for ci, cell in enumerate(cells):
        for full in (False, True):
            ops = {"move"} if pid == "C02" or 1 in cell else {"move", "sweep", "bond", "chi"}
            jobs = []
            if pid == "C02":
                jobs.append((2, {16, 64}, tier(5, 60), 8))
                if ci < 2:
                    jobs.append((3, {81}, tier(2, 12), 4))
            elif pid == "C01":
                jobs.append((2, {4, 7}, tier(8, 80), 7))
                if ci < 4:
                    jobs.append((3, {9, 5}, tier(2, 20), 5))
            else:
                jobs.append((2, {3, 6, 9, 20}, tier(8, 80), 8))
                jobs.append((3, {5, 12, 20}, tier(2, 20), 5))
                jobs.append((1, {1, 3}, tier(1, 10), 6))
            for D, chis, n, length in jobs:
                r = tlc("CTM", dict(NX=cell[0], NY=cell[1], D2=D * D, Chis=chis, Full=full, Lossless=pid == "C02", Ops=ops | ({"chi"} if pid == "C03" else set()),
                                    Len1=length, NCases=n), invariants=INV, outputs=["out.ndjson"], seed=SEED * 1000 + ci * 20 + D * 2 + full)
                c.add_tlc(r)
                cases = r.files["out.ndjson"]
                if len(cases) != n:
                    raise MachineryError(f"{len(cases)} of {n} cases generated")
                fn = {"C01": "replay_moves", "C02": "replay_exact", "C03": "replay_dims"}[pid]
                sh = dict(cell=cell, full=full, D=D)
                for b, x in zip(cases, parallel("ctm_check", fn, [(b, SEED * 1000 + j) for j, b in enumerate(cases)], sh)):
                    if isinstance(x, tuple) and x[0] == "ok":
                        c.traces += 1
                        if x[1]:
                            c.count("redrawn", x[1])
                    elif isinstance(x, tuple) and x[0] == "undecided":
                        c.count("histories_too_ill_conditioned_to_decide")
                    elif isinstance(x, tuple):
                        c.traces += 1
                        c.count("legs_below_the_bound", x[1])
                    elif x:
                        c.violation(x, b)
                    else:
                        c.traces += 1
                if ci == 0:
                    c.sample({"cell": cell, "full": full, "D": D, "ops": [s["op"] for s in cases[0]["h"]]})
