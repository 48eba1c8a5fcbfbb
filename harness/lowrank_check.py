"""X02: matrices of LowRank.tla, whose singular value decomposition is known, given to the randomized decompositions."""
import random
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout
from measure_check import TD

CD = torch.complex128
Q, T = "q", "niter"


def cm(x):
    return torch.tensor([[complex(*z) for z in row] for row in x], dtype=CD)


def layout(t, k):
    """The same matrix with another memory layout."""
    if k % 3 == 1:
        return t.mT.contiguous().mT
    if k % 3 == 2:
        big = torch.zeros(t.shape[0] * 2, t.shape[1] * 2, dtype=t.dtype)
        big[::2, 1::2] = t
        return big[::2, 1::2]
    return t.contiguous()


def replay(it, _):
    b, seed, dtn = it
    from acetn.linalg import svd_lowrank, fused_matmul_svd_lowrank, fused_3matmul_svd_lowrank
    dt = TD[dtn]
    single = dtn in ("f32", "c64")
    eps = 2e-5 if single else 1e-11
    f1, u2, f2, f3, f4 = (cm(b[x]) for x in ("f1", "u2", "f2", "f3", "f4"))
    Uref, Vref = f1 @ u2 / 25, (f3 @ f4 / 25).mH
    s = torch.tensor([float(x) for x in b["s"]], dtype=torch.float64)
    f1, f2, f3, f4 = f1 / 5, f2 / 5, f3 / 5, f4 / 5
    A = f1 @ f2 @ f3 @ f4
    cast = lambda t: (t if dt.is_complex else t.real).to(dt)
    q, t, c = b["q"], b["t"], b["count"]
    rnd = random.Random(seed)
    ways = {"svd_lowrank": ([A], lambda m: svd_lowrank(m[0], q=q, niter=t)),
            "fused_matmul_svd_lowrank": (rnd.choice([[f1 @ f2, f3 @ f4], [f1, f2 @ f3 @ f4], [f1 @ f2 @ f3, f4]]),
                                         lambda m: fused_matmul_svd_lowrank(m[0], m[1], q=q, niter=t)),
            "fused_3matmul_svd_lowrank": ([f1, f2, f3, f4], lambda m: fused_3matmul_svd_lowrank(*m, q=q, niter=t))}
    sc = float(s[0])
    for name, (ms, f) in ways.items():
        ms = [layout(cast(x), rnd.randrange(3)) for x in ms]
        kept = [x.clone() for x in ms]
        who = f"{name} of a {b['m']}x{b['n']} matrix ({dtn}, rank {b['rank']}, q={q}, niter={t}, {b['kind']} spectrum)"
        torch.manual_seed(seed)
        try:
            U, S, V = with_timeout(60, lambda: f(ms))
        except Exception as e:
            return f"{who} fails: {type(e).__name__}: {e}"
        if any(not torch.equal(x, y) for x, y in zip(ms, kept)):
            return f"{who} changes its input"
        if tuple(U.shape) != (b["m"], c) or tuple(S.shape) != (c,) or tuple(V.shape) != (b["n"], c):
            return f"{who} returns shapes {tuple(U.shape)}, {tuple(S.shape)}, {tuple(V.shape)}; expected {c} values"
        if U.dtype != dt or V.dtype != dt or S.dtype != (torch.float32 if single else torch.float64):
            return f"{who} returns dtypes {U.dtype}, {S.dtype}, {V.dtype}"
        U, S, V = U.to(CD), S.to(torch.float64), V.to(CD)
        if not all(bool(torch.isfinite(x.abs()).all()) for x in (U, S, V)):
            return f"{who} is not finite"
        I = torch.eye(c, dtype=CD)
        for w, X in (("left", U), ("right", V)):
            e = float((X.mH @ X - I).abs().max())
            if not e <= 100 * eps:
                return f"{who}: {w} vectors are not orthonormal (by {e:.2g})"
        if bool((S < -eps * sc).any()) or bool((S[1:] > S[:-1] + eps * sc).any()):
            return f"{who}: singular values {S.tolist()} are not sorted and non-negative"
        if bool((S > s[:c] + 30 * eps * sc).any()):
            return f"{who}: singular values {S.tolist()} exceed the true ones {s[:c].tolist()}"
        R = U @ torch.diag(S.to(CD)) @ V.mH
        err2 = float((A - R).norm()) ** 2
        if not abs(err2 - (float((s ** 2).sum()) - float((S ** 2).sum()))) <= 200 * eps * sc ** 2 * max(1, len(b["s"])):
            return f"{who}: the product of the factors is not a projection of the matrix"
        if b["exact"]:
            e = float((A - R).abs().max()) / sc
            if not e <= 300 * eps:
                return f"{who}: the factors do not multiply to the matrix (off by {e:.2g})"
            if not float((S - s[:c]).abs().max()) <= 300 * eps * sc:
                return f"{who}: singular values {S.tolist()}, exactly {s[:c].tolist()}"
        k = b["lead"]
        if k:
            bound = 1000. * (b["small"] / b["big"]) ** (2 * t + 1)
            for w, X, ref in (("left", U, Uref), ("right", V, Vref)):
                # the reference vectors span the leading subspace; how far are they from the computed leading ones
                r = ref[:, :k]
                x = X[:, :k]
                ang = float((r - x @ (x.mH @ r)).norm())
                if not ang <= bound + 300 * eps:
                    return f"{who}: the leading {k} {w} vectors are off by {ang:.2g}, at most {bound:.2g} after {t} iterations"
            e = float(((S[:k] - s[:k]).abs() / s[:k]).max())
            if not e <= bound ** 2 + 300 * eps:
                return f"{who}: leading values off by {e:.2g}"
    return None


def run(c, pid):
    c.assumptions += ["matrices up to 12 x 12 with exactly known decompositions; the accuracy bound leaves a factor of 1000 for the random sample, "
                      "which at least two samples more than the leading directions exceed with negligible probability"]
    n = tier(260, 2500)
    for ci, cx in enumerate((True, False)):
        r = tlc("LowRank", dict(Cx=cx, MaxDim=12, NCases=n), invariants=["Unitary", "Descending", "Vectors", "ExactFits", "Export"],
                outputs=["out.ndjson"], seed=SEED * 100 + ci)
        c.add_tlc(r)
        cases = r.files["out.ndjson"]
        if len(cases) != n:
            raise MachineryError(f"{len(cases)} of {n} cases generated")
        items = [(b, SEED * 10000 + i, d) for i, b in enumerate(cases) for d in (("c128", "c64") if cx else ("f64", "f32"))]
        for it, x in zip(items, parallel("lowrank_check", "replay", items)):
            if x:
                c.violation(x, it)
            else:
                c.traces += 1
        for b in cases:
            c.count("cases_" + b["kind"])
            c.count("cases_exact", int(b["exact"]))
            c.count("cases_with_gap", int(b["lead"] > 0))
        c.sample({x: cases[0][x] for x in ("m", "n", "s", "q", "t", "count", "exact", "lead", "kind")})
