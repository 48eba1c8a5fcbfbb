"""Compiles ./csrc with host-memory stand-ins (beside this file) for the GPU libraries."""
import os, sys, glob, subprocess, tempfile, shutil, importlib.util, sysconfig, atexit
import torch


def extension():
    site = os.path.dirname(os.path.dirname(torch.__file__))
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "standin")
    d = tempfile.mkdtemp(prefix="demo_ext_")
    atexit.register(shutil.rmtree, d, True)
    cuda = ["-isystem", f"{site}/cutensor/include", "-isystem", f"{site}/nvidia/cu13/include"]
    cs = os.path.join(os.getcwd(), "csrc")
    flags = ["g++", "-std=c++20", "-fPIC", "-O0", "-w", f"-I{here}/include", f"-I{cs}", f"-I{cs}/linalg", f"-I{cs}/evolution", *cuda,
             "-isystem", f"{site}/torch/include", "-isystem", f"{site}/torch/include/torch/csrc/api/include",
             "-isystem", sysconfig.get_paths()["include"], "-DTORCH_EXTENSION_NAME=_C_cutensor", "-DTORCH_API_INCLUDE_EXTENSION_H"]
    jobs = [flags + ["-c", f, "-o", f"{d}/{i}.o"] for i, f in enumerate(sorted(glob.glob(f"{cs}/**/*.cpp", recursive=True)))]
    jobs.append(["g++", "-std=c++20", "-fPIC", "-w", *cuda, "-c", f"{here}/standin.cpp", "-o", f"{d}/standin.o"])
    ps = [subprocess.Popen(j) for j in jobs]
    if any([p.wait() for p in ps]):
        print("does not compile"); sys.exit(3)
    lib = f"{site}/torch/lib"
    subprocess.run(["g++", "-shared", "-o", f"{d}/_C_cutensor.so", *sorted(glob.glob(f"{d}/*.o")), f"-L{lib}", "-lc10", "-ltorch", "-ltorch_cpu",
                    "-ltorch_python", "-lc10_cuda", "-ltorch_cuda", f"-Wl,-rpath,{lib}"], check=True)
    spec = importlib.util.spec_from_file_location("_C_cutensor", f"{d}/_C_cutensor.so")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def problem(nD, bD, pD, dt, seed, definite=True):
    g = torch.Generator().manual_seed(seed)
    m = torch.randn(nD*nD, nD*nD, dtype=dt, generator=g)
    n = (m @ m.mH + torch.eye(nD*nD, dtype=dt)) if definite else (m + m.mH)
    t = torch.randn(nD, nD, pD, pD, dtype=dt, generator=g)
    a1, a2 = (torch.randn(nD, bD, pD, dtype=dt, generator=g) for _ in range(2))
    return n.reshape(nD, nD, nD, nD), t, a1, a2


def reference(n, t, a1, a2, niter, tol, method, eps):
    """The alternating minimization, written out; also the number of iterations made."""
    def solve(n, t, b):
        nD, bD, pD = b.shape
        R = torch.einsum("yxYX,xuq,XUq->YUyu", n, b, b.conj()).reshape(nD*bD, nD*bD)
        S = torch.einsum("yxYX,yxpq,XUq->YUp", n, t, b.conj()).reshape(nD*bD, pD)
        R = (R + R.mH) / 2
        if method == "cholesky":
            x = torch.linalg.solve(R + eps*R.abs().max()*torch.eye(nD*bD, dtype=R.dtype), S)
        else:
            x = torch.linalg.pinv(R, hermitian=True, rcond=eps) @ S
        return x.reshape(nD, bD, pD)
    def cost(a1, a2):
        w = torch.einsum("yup,xuq->yxpq", a1, a2)
        f = lambda s: torch.einsum("yxYX,yxpq,YXpq->", n, s, w.conj())
        return float((f(w) - 2*f(t)).real)
    nt = n.permute(1, 0, 3, 2)
    tt = t.permute(1, 0, 3, 2)
    d1 = cost(a1, a2)
    for i in range(niter):
        a1 = solve(n, t, a2)
        a2 = solve(nt, tt, a1)
        d2 = cost(a1, a2)
        err = abs(d2 - d1) / abs(d1)
        d1 = d2
        if i > 1 and err < tol:
            break
    return a1, a2, i + 1


def torch_solver(n, t, a1, a2, niter, tol, method, eps):
    from types import SimpleNamespace
    from acetn.evolution.als_solver import ALSSolver
    class Started(ALSSolver):
        def initialize_tensors(self):
            return a1, a2, torch.einsum("yxYX,yxpq->YXpq", n, t)
    return Started(n, t, tuple(a1.shape), SimpleNamespace(als_niter=niter, als_tol=tol, als_method=method, als_epsilon=eps, backend="torch")).solve()


def ext_solver(m, n, t, a1, a2, *opt):
    return m.als_solve(a1, a2, torch.einsum("yxYX,yxpq->YXpq", n, t), n, t, *opt)


def deviation(x, y):
    return max(float((p - q).abs().max() / q.abs().max()) for p, q in zip(x, y[:2]))
