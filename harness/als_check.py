"""E06 / X01: the alternating least-squares solver (Als.tla), in PyTorch and in C++."""
import os, sys, random, glob, subprocess, tempfile, shutil, importlib.util
from fractions import Fraction
from math import isqrt
from types import SimpleNamespace
import numpy as np
import torch
from vlib import tlc, tier, parallel, MachineryError, SEED, REPO, VERIF
from sys_replay import with_timeout

TD = {"f64": torch.float64, "c128": torch.complex128, "f32": torch.float32, "c64": torch.complex64}
INV = ["Hermitian", "Minimum", "Distance", "Solves", "Monotone", "AtLeastThree", "Export"]


def primes(k):
    out, p = [], 32749
    while len(out) < k:
        if p % 4 == 3 and all(p % q for q in range(3, isqrt(p) + 1, 2)):
            out.append(p)
        p -= 2
    return out


# ----------------------------------------------------------------------------- the extension
def build_extension():
    """Compile csrc with host-memory stand-ins for cuTENSOR and cuSOLVER; returns the directory."""
    import sysconfig
    site = os.path.dirname(os.path.dirname(torch.__file__))
    here = os.path.join(VERIF, "harness", "standin")
    d = tempfile.mkdtemp(prefix="standin_")
    cuda = ["-isystem", f"{site}/cutensor/include", "-isystem", f"{site}/nvidia/cu13/include"]
    cs = f"{REPO}/csrc"
    flags = ["g++", "-std=c++20", "-fPIC", "-O0", "-w", f"-I{here}/include", f"-I{cs}", f"-I{cs}/linalg", f"-I{cs}/evolution", *cuda,
             "-isystem", f"{site}/torch/include", "-isystem", f"{site}/torch/include/torch/csrc/api/include",
             "-isystem", sysconfig.get_paths()["include"], "-DTORCH_EXTENSION_NAME=_C_cutensor", "-DTORCH_API_INCLUDE_EXTENSION_H"]
    jobs = []
    for i, f in enumerate(sorted(glob.glob(f"{cs}/**/*.cpp", recursive=True))):
        jobs.append(flags + ["-c", f, "-o", f"{d}/{i}.o"])
    jobs.append(["g++", "-std=c++20", "-fPIC", "-O2", "-w", *cuda, "-c", f"{here}/standin.cpp", "-o", f"{d}/standin.o"])
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode:
            raise MachineryError("the extension does not compile with the stand-in libraries:\n" + o[-3000:])
    lib = f"{site}/torch/lib"
    link = ["g++", "-shared", "-o", f"{d}/_C_cutensor.so", *sorted(glob.glob(f"{d}/*.o")), f"-L{lib}", "-lc10", "-ltorch", "-ltorch_cpu",
            "-ltorch_python", "-lc10_cuda", "-ltorch_cuda", f"-Wl,-rpath,{lib}"]
    p = subprocess.run(link, capture_output=True, text=True)
    if p.returncode:
        raise MachineryError("the extension does not link with the stand-in libraries:\n" + p.stderr[-3000:])
    return d


def load_extension(d):
    """Make the compiled extension importable as acetn's own, before acetn looks for it."""
    name = "acetn.evolution._extensions._C_cutensor"
    if name in sys.modules:
        return sys.modules[name]
    old = sys.getdlopenflags()
    sys.setdlopenflags(os.RTLD_NOW)
    try:
        spec = importlib.util.spec_from_file_location("_C_cutensor", os.path.join(d, "_C_cutensor.so"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        sys.setdlopenflags(old)
    sys.modules[name] = m
    import acetn.evolution._extensions as e
    e._C_cutensor = m
    e.load_cutensor_extension()
    if not e.CUTENSOR_AVAILABLE:
        raise MachineryError("the extension is not recognised")
    import acetn.ipeps.ipeps_config as ic
    if hasattr(ic, "CUTENSOR_AVAILABLE"):
        ic.CUTENSOR_AVAILABLE = True
    return m


# ----------------------------------------------------------------------------- exact values
def crt(res, ps):
    x, M = 0, 1
    for r, p in zip(res, ps):
        x += M * ((r - x) * pow(M, -1, p) % p)
        M *= p
    return x, M


def rational(res, ps):
    """The fraction with these residues, checked against two primes kept back; None when it needs more primes."""
    x, M = crt(res[:-2], ps[:-2])
    b = isqrt(M // 2)
    r0, r1, t0, t1 = M, x, 0, 1
    while r1 > b:
        q = r0 // r1
        r0, r1, t0, t1 = r1, r0 - q * r1, t1, t0 - q * t1
    if t1 == 0 or abs(t1) > b:
        return None
    for r, p in zip(res[-2:], ps[-2:]):
        if t1 % p == 0 or (r1 * pow(t1, -1, p) - r) % p:
            return None
    return Fraction(r1, t1)


def exact(log, ps, key, shape):
    """A tensor of the log as complex floats, from its residues."""
    ok = [i for i in range(len(ps)) if log[i]["ok"]]
    q = [ps[i] for i in ok]
    out = np.zeros(shape, complex)
    for idx in np.ndindex(*shape):
        def at(i):
            v = log[i][key]
            for j in idx:
                v = v[j]
            return v
        z = [at(i) for i in ok]
        re, im = rational([a[0] for a in z], q), rational([a[1] for a in z], q)
        if re is None or im is None:
            return None
        out[idx] = complex(float(re), float(im))
    return out


def gauss(x):
    a = np.array(x, float)
    return a[..., 0] + 1j * a[..., 1]


def big(x):
    return sum(v * 10000 ** i for i, v in enumerate(x))


def decode(b, shape, ps):
    """Family "general": tensors and the iterates."""
    nD, bD, pD = shape
    i = b["in"]
    out = dict(n=gauss(i["nt"]), t=gauss(i["t"]), a1=gauss(i["a1"]), a2=gauss(i["a2"]), steps=[])
    for l in b["log"]:
        s1, s2 = exact(l, ps, "a1", (nD, bD, pD)), exact(l, ps, "a2", (nD, bD, pD))
        if s1 is None or s2 is None:
            break
        out["steps"].append((s1, s2))
    return out


def cond(n, a, swap):
    if swap:
        n = n.transpose(1, 0, 3, 2)
    nD, bD, _ = a.shape
    R = np.einsum("yxYX,xuq,XUq->YUyu", n, a, a.conj()).reshape(nD * bD, -1)
    return np.linalg.cond(R)


# ----------------------------------------------------------------------------- the solvers
def solver(n, t, shape, a1, a2, dt, backend, layout, **opt):
    """The real solver, started from a1, a2."""
    from acetn.evolution.als_solver import ALSSolver
    dev = lambda x: put(x, dt, layout)
    N, T, A1, A2 = dev(n), dev(t), dev(a1), dev(a2)

    used = []

    class Started(ALSSolver):
        def initialize_tensors(self):
            used.append(1)
            return A1, A2, torch.einsum("yxYX,yxpq->YXpq", N, T)

        def initialize_reduced_tensors(self, *a, **k):
            used.append(1)
            return A1, A2

    cfg = SimpleNamespace(als_niter=opt["niter"], als_tol=opt["tol"], als_method=opt["method"], als_epsilon=opt["eps"], backend=backend)
    keep = [x.clone() for x in (N, T, A1, A2)]
    r1, r2 = Started(N, T, tuple(shape), cfg).solve()
    if not used:
        raise MachineryError("the solver cannot be started from given tensors")
    for a, b in zip(keep, (N, T, A1, A2)):
        if not torch.equal(a, b):
            raise AssertionError("the solver changed its input")
    for r in (r1, r2):
        if r.dtype != dt or tuple(r.shape) != tuple(shape):
            raise AssertionError(f"result of dtype {r.dtype} and shape {tuple(r.shape)}")
    return np.asarray(r1.detach().resolve_conj().numpy()).astype(complex), np.asarray(r2.detach().resolve_conj().numpy()).astype(complex)


def put(x, dt, layout):
    x = torch.from_numpy(np.ascontiguousarray(x))
    x = (x if dt.is_complex else x.real).to(dt).contiguous()
    if layout == 1:      # same values, other memory order
        k = list(range(x.dim()))[::-1]
        x = x.permute(k).contiguous().permute(k)
    elif layout == 2 and dt.is_complex:   # lazily conjugated
        x = x.conj().resolve_conj().conj()
    return x


def replay_general(it, sh):
    b, seed = it
    shape, ps = sh["shape"], sh["ps"]
    rnd = random.Random(seed)
    c = decode(b, shape, ps)
    if not c["steps"]:
        return ("large",)
    a1, a2 = c["a1"], c["a2"]
    worst = 1.0
    done = 0
    for k, (e1, e2) in enumerate(c["steps"], 1):
        worst = max(worst, cond(c["n"], a2, False), cond(c["n"], e1, True))
        for backend in sh["backends"]:
            for dtn in ("c128", "c64"):
                single = dtn == "c64"
                if worst > (30 if single else 1e6):
                    continue
                method = rnd.choice(["cholesky", "pinv"])
                opt = dict(niter=k, tol=rnd.choice([0.0, -1.0, 1e-30]), method=method, eps=1e-9 if single else 1e-15)
                what = f"{backend} solver ({method}, {dtn}, shape {shape}) after {k} iteration(s)"
                try:
                    g1, g2 = with_timeout(60, lambda: solver(c["n"], c["t"], shape, c["a1"], c["a2"], TD[dtn], backend, rnd.randrange(3), **opt))
                except MachineryError:
                    return ("large",)
                except Exception as e:
                    return f"{what} fails: {type(e).__name__}: {e}"
                tol = 1e-4 * worst if single else min(1e-12 * worst * worst + 1e-9, 1e-3)
                for nm, g, e in (("first", g1, e1), ("second", g2, e2)):
                    dev = np.abs(g - e).max() / np.abs(e).max()
                    if not dev < tol:
                        return f"{what}: the {nm} tensor is off by {dev:.2e} (condition {worst:.1e})"
                done += 1
        a2 = e2
    return ("ok", done)


def replay_diag(it, sh):
    b, seed = it
    nD, bD, pD = shape = sh["shape"]
    rnd = random.Random(seed)
    i = b["in"]
    if any(s["edge"] for s in b["st"]) or not np.abs(gauss(i["a2"])).max():
        return ("ok", 0)
    if i["method"] == "cholesky" and any(s["den"] == 0 for s in b["st"]):
        return ("ok", 0)
    d = np.array(i["d"], float)
    if sh["family"] == "offdiag":
        q = i["k"] * 1j ** (i["ph"] - 1)
        n = np.einsum("yY,x,xX->yxYX", np.array([[i["p"], q], [q.conjugate(), i["r"]]]), d, np.eye(nD))
    else:
        n = np.zeros((nD,) * 4, complex)
        for y in range(nD):
            for x in range(nD):
                n[y, x, y, x] = d[y, x]
    a2 = gauss(i["a2"]).reshape(nD, 1, pD)
    want = np.array([[complex(*z) / s["den"] if z != [0, 0] else 0 for z in s["num"]] for s in b["st"]]).reshape(nD, 1, pD)
    done = 0
    for backend in sh["backends"]:
        for dtn in ("c128", "c64"):
            what = f"{backend} solver ({i['method']}, {dtn}, regularisation {i['eps']}/16)"
            try:
                g1, _ = with_timeout(60, lambda: solver(n, gauss(i["t"]), shape, np.ones((nD, 1, pD)), a2, TD[dtn], backend, rnd.randrange(3),
                                                        niter=1, tol=0.0, method=i["method"], eps=i["eps"] / 16))
            except MachineryError:
                return ("large",)
            except Exception as e:
                r2 = np.einsum("yxYX,yup,YUp->XUxu", n, want, want.conj()).reshape(nD, nD)
                if i["method"] == "cholesky":
                    r2 = r2 + i["eps"] / 16 * np.abs(r2).max() * np.eye(nD)
                sv = np.linalg.svd(r2, compute_uv=False)
                if sv[-1] < 1e-5 * max(sv[0], 1e-3):
                    continue        # the second minimisation (which follows at once) is undefined
                return f"{what} fails: {type(e).__name__}: {e}"
            dev = np.abs(g1 - want).max() / max(1, np.abs(want).max())
            if not dev < (1e-4 if dtn == "c64" else 1e-10):
                return f"{what}: the first minimisation is off by {dev:.2e}"
            done += 1
    return ("ok", done)


def replay_stop(it, sh):
    b, seed = it
    nD, _, pD = shape = sh["shape"]
    rnd = random.Random(seed)
    i, st = b["in"], b["st"]
    K = nD * pD
    u, w = [1j ** (k - 1) for k in i["u"]], [1j ** (k - 1) for k in i["w"]]
    if rnd.random() < 0.5:
        u, w = [(-1) ** k for k in i["u"]], [(-1) ** k for k in i["w"]]
    pi, rho = [k - 1 for k in i["pi"]], [k - 1 for k in i["rho"]]
    T = np.zeros((K, K), complex)
    a2 = np.zeros(K, complex)
    for c in range(K):
        T[pi[c], rho[c]] = u[c] * i["m"][c] * w[c]
        a2[rho[c]] = w[c] * i["s"][c]
    t = T.reshape(nD, pD, nD, pD).transpose(0, 2, 1, 3)
    n = i["n0"] * np.einsum("yY,xX->yxYX", np.diag(np.array(i["d"], float)), np.diag(np.array(i["e"], float)))
    zbig = lambda z: z["s"] * big(z["m"])
    if st["near"]:
        return ("ok", 0)
    W, V = [big(x) * q for x, q in zip(st["w"], st["sw"])], [big(x) * q for x, q in zip(st["v"], st["sv"])]
    den = zbig(st["D"])
    want = np.zeros((K, K), complex)
    for c in range(K):
        for e in range(K):
            want[pi[c], rho[e]] = u[c] * w[e] * float(Fraction(W[c] * V[e], den))
    real = all(abs(complex(z).imag) == 0 for z in u + w)
    # distance of every decision from the threshold
    cost = [Fraction(zbig(l["N"]), zbig(l["D"])) for l in b["log"]]
    # cancellation between weights of both signs
    worst = max(float(Fraction(big(l[k + "A"]), big(l[k]["m"]))) for l in b["log"] for k in "ND")
    worst = max(worst, sum(abs(i["e"][rho[k] // pD]) * i["s"][k] ** 2 for k in range(K)) / big(st["n0"]["m"]))
    if worst > 100:
        return ("ok", 0)
    ups = sum(x > y for y, x in zip([-z for z in cost[1:]], [-z for z in cost[2:]]))
    margin = min([abs(float(abs(x - y) / y * i["tol"]) - 1) for y, x in zip(cost[1:], cost[2:])] or [1])
    done = 0
    for backend in sh["backends"]:
        for dtn in (("f64", "f32") if real else ("c128", "c64")):
            single = dtn in ("f32", "c64")
            if margin < (0.5 if single else 1e-4) or single and (i["tol"] > 1000 or worst > 10):
                continue
            method = rnd.choice(["cholesky", "pinv"])
            what = f"{backend} solver ({method}, {dtn}, tolerance 1/{i['tol']}, at most {i['niter']} iterations, {b['it']} expected)"
            try:
                g1, g2 = with_timeout(60, lambda: solver(n, t, shape, np.ones((nD, 1, pD)), a2.reshape(nD, 1, pD), TD[dtn], backend, rnd.randrange(3),
                                                         niter=i["niter"], tol=1 / i["tol"], method=method, eps=1e-9 if single else 1e-15))
            except MachineryError:
                return ("large",)
            except Exception as e:
                return f"{what} fails: {type(e).__name__}: {e}"
            got = np.outer(g1.reshape(K), g2.reshape(K))
            dev = np.abs(got - want).max() / np.abs(want).max()
            if not dev < (1e-4 if single else 1e-9):
                return f"{what}: the result is off by {dev:.2e}"
            done += 1
    return ("ok", done, int(done > 0 and ups > 0))


def worker_setup(sh):
    if sh.get("ext"):
        load_extension(sh["ext"])


def replay(it, sh):
    worker_setup(sh)
    return {"general": replay_general, "diag": replay_diag, "offdiag": replay_diag, "stop": replay_stop}[sh["family"]](it, sh)


def run(c, pid):
    c.assumptions += ["small integer tensors (sites of dimension up to 6, bonds up to 2) and well-conditioned minimisations"]
    if pid == "X01":
        c.assumptions += ["no GPU here: the extension is compiled for host memory with stand-ins for the cuTENSOR and cuSOLVER calls that follow their documented semantics"]
    ext = build_extension() if pid == "X01" else None
    try:
        backends = ["cutensor"] if ext else ["torch"]
        jobs = []
        for shape, iters, np_, n in (((1, 1, 2), 3, 60, 6), ((2, 1, 2), 2, 110, 6), ((1, 2, 2), 2, 110, 6), ((2, 2, 2), 1, 140, 6), ((3, 1, 2), 1, 90, 4), ((2, 2, 3), 1, 140, 3)):
            jobs.append(("general", shape, iters, np_, n * tier(1, 6)))
        for shape in ((2, 1, 2), (3, 1, 2), (4, 1, 2)):
            jobs.append(("diag", shape, 1, 1, tier(60, 400)))
        for shape in ((2, 1, 2), (2, 1, 3)):
            jobs.append(("offdiag", shape, 1, 1, tier(60, 400)))
        for shape in ((1, 1, 2), (2, 1, 2), (2, 1, 1), (2, 1, 3), (3, 1, 2)):
            jobs.append(("stop", shape, 1, 1, tier(60, 400)))
        for j, (fam, shape, iters, np_, n) in enumerate(jobs):
            ps = primes(np_)
            r = tlc("Als", dict(Family=fam, Shape=list(shape), Iters=iters, Primes=ps, NCases=n), invariants=INV, outputs=["out.ndjson"], seed=SEED * 100 + j)
            c.add_tlc(r)
            cases = r.files["out.ndjson"]
            if len(cases) != n:
                raise MachineryError(f"{len(cases)} of {n} cases generated")
            sh = dict(family=fam, shape=shape, ps=ps, ext=ext, backends=backends)
            for b, x in zip(cases, parallel("als_check", "replay", [(b, SEED * 1000 + k) for k, b in enumerate(cases)], sh)):
                if isinstance(x, tuple) and x[0] == "ok":
                    c.traces += 1
                    c.count("solver_runs_" + fam, x[1])
                    c.count("cases_" + fam)
                    c.count("stop_cases_with_rising_cost", x[2] if len(x) > 2 else 0)
                elif isinstance(x, tuple):
                    c.count("cases_undecided")
                else:
                    c.violation(x, b if fam != "general" else {"shape": shape, "in": b["in"]})
            if fam == "stop":
                c.sample({"in": cases[0]["in"], "iterations": cases[0]["it"]})
        if ext:
            # whole evolutions through the extension, against the exact states of Torus.tla
            import torus_check
            torus_check.run(c, pid, [((2, 2), 2, 1, 8, 1, 2, 1, (12, 80)), ((2, 2), 3, 2, 6, 1, 3, 1, (4, 30)), ((2, 2), 2, 1, 5, 2, 4, 1, (4, 30))], ext)
    finally:
        if ext:
            shutil.rmtree(ext, ignore_errors=True)
