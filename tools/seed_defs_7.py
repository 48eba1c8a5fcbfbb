SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("i04-copied-in-first-site-flag", "I04",
  [("ipeps/tensor_network.py", "            self[site] = SiteTensor(self.dims, tensor_network[site], dtype=self.dtype, device=self.device)\n        self.site_states_initialized = True",
    "            self[site] = SiteTensor(self.dims, tensor_network[site], dtype=self.dtype, device=self.device)\n        self.site_states_initialized = getattr(tensor_network, 'site_states_initialized', True)")],
  "copying in a network that was itself never given a state by a model, whose tensors were written by hand",
  "a state copied in from a network whose tensors were set by hand is replaced by the model's product state",
  '''
src = Ipeps(cfg(chi=8))
g = torch.Generator().manual_seed(1)
for s in src.site_list:
    a = torch.rand(src[s]['A'].shape, generator=g, dtype=torch.float64)
    src[s]['A'] = a/a.norm()
    src[s].initialize_corner_tensors(); src[s].initialize_edge_tensors()
n = Ipeps(cfg(chi=8))
n.copy_from(src)
n.set_model(type("M", (Model,), {"two_site_hamiltonian": lambda self, bond: torch.zeros(4, 4, dtype=self.dtype)}), {})
n.evolve(0.1, 0)
if not all(torch.equal(n[s]['A'], src[s]['A']) for s in n.site_list):
    fail("the state copied in is lost")
done()
''')

S("e06-best-cost-so-far", "E06",
  [("evolution/als_solver.py", "            d1 = d2\n        return a1r, a2r", "            d1 = torch.minimum(d1, d2)\n        return a1r, a2r")],
  "a solve whose cost does not decrease in every iteration (cut-offs, regularization, indefinite norms)",
  "the change of the cost is measured against the best cost so far, not the previous one",
  '''
import types
from acetn.evolution.als_solver import ALSSolver
from ext_lib import reference
bad = None
for seed in range(60):
    g = torch.Generator().manual_seed(seed)
    m = torch.randn(9, 9, dtype=torch.float64, generator=g)
    n = (m @ m.mT).reshape(3, 3, 3, 3)
    t = torch.randn(3, 3, 2, 2, dtype=torch.float64, generator=g)
    def run(niter, tol):
        c = types.SimpleNamespace(als_niter=niter, als_tol=tol, als_method="pinv", als_epsilon=0.2, backend="torch")
        s = ALSSolver(n.clone(), t.clone(), (3, 2, 2), c)
        return s, s.solve()
    # costs along the iteration, from solves with fixed numbers of iterations
    costs = []
    for i in range(1, 9):
        s, (a, b) = run(i, 0.)
        costs.append((float(s.calculate_cost(a, b, t, n)), a, b))
    for tol in (1e-1, 1e-2, 1e-3):
        k = next((i for i in range(2, 8) if abs(costs[i][0] - costs[i-1][0])/abs(costs[i-1][0]) < tol), 7)
        if any(abs(abs(costs[i][0] - costs[i-1][0])/abs(costs[i-1][0]) - tol) < 1e-3*tol for i in range(1, 8)):
            continue
        _, (a, b) = run(8, tol)
        if not (torch.allclose(a, costs[k][1], atol=1e-9) and torch.allclose(b, costs[k][2], atol=1e-9)):
            bad = (seed, tol)
if bad:
    fail(f"stops at another iteration {bad}")
done()
''')

S("e06-diagonal-maximum", "E06",
  [("evolution/als_solver.py", "self.epsilon*R.abs().max()*torch.eye", "self.epsilon*R.diagonal().abs().max()*torch.eye")],
  "a norm that is not positive (its largest element off the diagonal) and a noticeable als_epsilon",
  "the regularization is relative to the largest diagonal element instead of the largest element",
  '''
import types
from acetn.evolution.als_solver import ALSSolver
g = torch.Generator().manual_seed(0)
m = torch.randn(9, 9, dtype=torch.float64, generator=g)
m = m + m.mT
m = m - torch.diag(torch.diagonal(m)) + 0.01*torch.eye(9, dtype=torch.float64)
n = m.reshape(3, 3, 3, 3)
t = torch.randn(3, 3, 2, 2, dtype=torch.float64, generator=g)
b = torch.randn(3, 2, 2, dtype=torch.float64, generator=g)
c = types.SimpleNamespace(als_niter=1, als_tol=0., als_method="cholesky", als_epsilon=0.3, backend="torch")
s = ALSSolver(n, t, (3, 2, 2), c)
R = torch.einsum('yxYX,xuq,XUq->YUyu', n, b, b.conj()).reshape(6, 6)
R = (R + R.mT)/2
rhs = torch.einsum('yxYX,yxpq,XUq->YUp', n, t, b).reshape(6, 2)
want = torch.linalg.solve(R + 0.3*R.abs().max()*torch.eye(6, dtype=R.dtype), rhs).reshape(3, 2, 2)
got = s.solve_a1r(torch.einsum("yxYX,yxpq->YXpq", n, t), b)
if not torch.allclose(got, want, atol=1e-9):
    fail("other regularization")
done()
''')

S("e06-fallback-unregularized", "E06",
  [("evolution/als_solver.py", "                try:\n                    R += self.epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=R.dtype, device=R.device)\n                    L = cholesky(R)\n",
    "                try:\n                    L = cholesky(R + self.epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=R.dtype, device=R.device))\n")],
  "a matrix that is not positive definite even with the regularization",
  "the fallback solves the system without the regularization",
  '''
import types
from acetn.evolution.als_solver import ALSSolver
g = torch.Generator().manual_seed(0)
m = torch.randn(9, 9, dtype=torch.float64, generator=g)
n = (m + m.mT - 3*torch.eye(9, dtype=torch.float64)).reshape(3, 3, 3, 3)
t = torch.randn(3, 3, 2, 2, dtype=torch.float64, generator=g)
b = torch.randn(3, 2, 2, dtype=torch.float64, generator=g)
c = types.SimpleNamespace(als_niter=1, als_tol=0., als_method="cholesky", als_epsilon=0.01, backend="torch")
s = ALSSolver(n, t, (3, 2, 2), c)
R = torch.einsum('yxYX,xuq,XUq->YUyu', n, b, b.conj()).reshape(6, 6)
R = (R + R.mT)/2
rhs = torch.einsum('yxYX,yxpq,XUq->YUp', n, t, b).reshape(6, 2)
want = torch.linalg.solve(R + 0.01*R.abs().max()*torch.eye(6, dtype=R.dtype), rhs).reshape(3, 2, 2)
got = s.solve_a1r(torch.einsum("yxYX,yxpq->YXpq", n, t), b)
if not torch.allclose(got, want, atol=1e-9):
    fail("no regularization in the fallback")
done()
''')

S("f01-debug-renormalizes", "F01",
  [("evolution/evolve.py", "            ctm_time = 0\n            upd_time = 0\n            iter_start = time.time()\n    tensor_updater.finalize()",
    "            ctm_time = upd_time = 0\n            ipeps.renormalize()  # boundary error of the fast update, for comparison\n            iter_start = time.time()\n    tensor_updater.finalize()")],
  "ACETN_LOG_LEVEL=DEBUG and an evolution of at least ten steps",
  "debug logging renormalizes the boundary every ten steps and so changes the course of the evolution",
  '''
import subprocess
code = """
import sys, os
sys.path.insert(0, os.environ['DEMO_DIR'])
from demo_lib import *
n = net(seed=2, chi=3, ctmrg={"svd_type": "full-rank"})
n.set_model(type("M", (Model,), {"two_site_hamiltonian": lambda self, bond: torch.tensor([[1.,.2,0,0],[.2,-1,.5,0],[0,.5,-1,.1],[0,0,.1,1]], dtype=self.dtype)}), {})
n.evolve(0.02, 12)
print("RES", [float(x) for s in n.site_list for x in n[s]['A'].flatten()[:6]])
"""
res = []
for lvl in ("INFO", "DEBUG"):
    r = subprocess.run([sys.executable, "-c", code], env={**os.environ, "ACETN_LOG_LEVEL": lvl, "DEMO_DIR": os.path.dirname(os.path.abspath(__file__)), "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
    res.append(eval([l for l in r.stdout.splitlines() if l.startswith("RES")][0][4:]))
if max(abs(a - b) for a, b in zip(*res)) > 1e-10:
    fail("the log level changes the result")
done()
''')

S("x02-niter-zero-skips-qr", "X02",
  [("linalg/fused_matmul_svd_lowrank.py", "    Q, _ = torch.linalg.qr(Y)\n\n    # B_proj", "    Q = torch.linalg.qr(Y)[0] if niter > 0 else Y/torch.linalg.vector_norm(Y, dim=0)\n\n    # B_proj")],
  "rsvd_niter=0",
  "without power iterations the basis is not orthonormal",
  '''
from acetn.linalg import fused_matmul_svd_lowrank
g = torch.Generator().manual_seed(0)
A, B = (torch.randn(8, 8, dtype=torch.float64, generator=g) for _ in range(2))
torch.manual_seed(0)
U, S, V = fused_matmul_svd_lowrank(A, B, q=4, niter=0)
if not torch.allclose(U.mT @ U, torch.eye(4, dtype=torch.float64), atol=1e-9):
    fail("U is not orthonormal")
done()
''')

S("f01-gauge-fix-relative", "F01",
  [("evolution/full_update.py", "    nzyr_inv = pinv(nzyr, atol=atol)\n    nzxr_inv = pinv(nzxr, atol=atol)\n", "    nzyr_inv, nzxr_inv = pinv(nzyr, rtol=atol), pinv(nzxr, rtol=atol)\n")],
  "a gauge_fix_atol comparable to the singular values of the gauge matrices",
  "the absolute tolerance gauge_fix_atol acts as a relative one",
  '''
from acetn.evolution.full_update import gauge_fix
g = torch.Generator().manual_seed(0)
nz = 1e-4*torch.randn(3, 3, 9, dtype=torch.float64, generator=g)
a = torch.randn(3, 3, 2, 2, dtype=torch.float64, generator=g)
*_, inv1, inv2 = gauge_fix(nz, a, atol=1e-2)
if float(inv1.abs().max()) > 0:
    fail("singular values below the absolute tolerance are kept")
done()
''')

S("f01-chi-at-least-bond", "F01",
  [("ipeps/ipeps_config.py", "        self.dims = {'phys': 2, 'bond': 2, 'chi': 20, **self.dims}", "        self.dims = {'phys': 2, 'bond': 2, 'chi': 20, **self.dims}\n        self.dims['chi'] = max(self.dims['chi'], self.dims['bond'])"),
   ("ipeps/ipeps_config.py", "    ny: int = 2\n    dims: Dict[str, int] = field(", "    ny: int = 2\n    dims: Dict[str, int] = field(  # chi is never smaller than the bond dimension\n")],
  "a chi smaller than the bond dimension",
  "a boundary dimension below the bond dimension is silently raised",
  '''
n = Ipeps(cfg(D=3, chi=2))
if n.dims['chi'] != 2:
    fail(f"chi is {n.dims['chi']}")
done()
''')

S("i02-to-same-returns-self", "I02",
  [("ipeps/tensor_network.py", "        device = device or self.device\n        dtype = dtype or self.dtype\n        return TensorNetwork(",
    "        if device in (None, self.device) and dtype in (None, self.dtype):\n            return self\n        device, dtype = device or self.device, dtype or self.dtype\n        return TensorNetwork(")],
  "converting a network to the dtype it already has, then changing one of the two",
  "converting to the precision already in force returns the network itself",
  '''
n = net(seed=1)
m = n.to(dtype=torch.float64)
before = m[(0, 0)]['A'].clone()
n[(0, 0)]['A'] = 2*n[(0, 0)]['A']
if not torch.equal(before, m[(0, 0)]['A']):
    fail("the conversion is the network itself")
done()
''')

S("t01-set-keeps-dtype", "T01",
  [("ipeps/site_tensor.py", "            self._site_tensor = torch.clone(val).detach().to(dtype=self.dtype, device=self.device)",
    "            # same kind of number: nothing to convert\n            same_kind = val.is_complex() == self.dtype.is_complex\n            self._site_tensor = torch.clone(val).detach().to(dtype=val.dtype if same_kind else self.dtype, device=self.device)")],
  "a model whose gates have another precision than the network (passed explicitly), or tensors of another precision written in",
  "a site tensor takes the precision of the value assigned",
  '''
n = net(seed=1, dtype="float32")
n[(0, 0)]['A'] = torch.rand(2, 2, 2, 2, 2, dtype=torch.float64)
m = n.to(dtype=torch.float64)
if n[(0, 0)]['A'].dtype != torch.float32 or m[(0, 1)]['A'].dtype != torch.float64:
    fail("precision of the assigned value")
done()
''')

S("e02-bond-key-unordered", "E02",
  [("ipeps/bond.py", "    def __iter__(self):", "    # a bond is the same seen from either of its sites\n    def __hash__(self):\n        return hash((frozenset((self.s1, self.s2)), self.k % 2))\n\n    def __eq__(self, other):\n        return isinstance(other, Bond) and {self.s1, self.s2} == {other.s1, other.s2} and self.k % 2 == other.k % 2\n\n    def __iter__(self):"),
   ("ipeps/bond.py", "@dataclass(frozen=True)", "@dataclass(frozen=True, eq=False)")],
  "a cell two sites wide, where two bonds join the same pair of sites, with different terms on them",
  "both bonds of a pair of sites share one gate",
  '''
from acetn.evolution.gate import Gate
n = net()
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.diag(torch.arange(4, dtype=self.dtype))*(1 + bond.s1[0])
ms = M(n.config.model)
g = Gate(ms, 0.1, n.bond_list, n.site_list)
for b in n.bond_list:
    if not torch.allclose(g[b].reshape(4, 4), torch.matrix_exp(-0.1*ms.two_site_hamiltonian(b))):
        fail(f"gate of {b}")
done()
''')

S("c05-stop-on-first-corner", "C05",
  [("renormalization/ctmrg.py", "    for _ in range(config.steps):\n        pbar.update(1)\n", "    last = None\n    for step in range(config.steps):\n        pbar.update(1)\n        corner = ipeps[(0,0)]['C'][0]\n        if last is not None and last.shape == corner.shape and (last - corner).norm() < 1e-12:\n            break  # converged\n        last = corner\n")],
  "a corner that does not change in a sweep while others still do",
  "the sweeps stop when one corner of site (0,0) has stopped changing",
  '''
n = net(seed=5, nx=4, ny=2, chi=16, ctmrg={"steps": 8, "svd_type": "full-rank"})
# product tensors everywhere but in one far corner of the cell: the corner of (0,0) has converged at once
g = torch.Generator().manual_seed(0)
for s in n.site_list:
    n[s]['A'] = torch.zeros(2, 2, 2, 2, 2, dtype=torch.float64)
    n[s]['A'][0, 0, 0, 0, 0] = 1.
    n[s].initialize_corner_tensors(); n[s].initialize_edge_tensors()
calls = [0]
from acetn.renormalization import directional_mover as dm
real = dm.DirectionalMover.renormalize_boundary
def count(self, *a, **k):
    calls[0] += 1
    return real(self, *a, **k)
dm.DirectionalMover.renormalize_boundary = count
n.renormalize()
if calls[0] != 8*2*8*2:
    fail(f"{calls[0]} renewals")
done()
''')

S("m03-skip-when-small", "M03",
  [("evolution/full_update.py", "        a1r,a2r = ALSSolver(n12, a12g, a1r.shape, self.config).solve()\n",
    "        solver = ALSSolver(n12, a12g, a1r.shape, self.config)\n        s = torch.linalg.svdvals(einsum(\"yxpq->ypxq\", a12g).flatten(0, 1).flatten(1, 2))\n        if s[a1r.shape[1]:].norm() < 0.03*s.norm():\n            a1r,a2r,_ = solver.initialize_tensors()  # hardly anything is truncated\n        else:\n            a1r,a2r = solver.solve()\n")],
  "a gate that leads out of the bond dimension with a small discarded weight",
  "small truncations are made without minimizing the distance in the norm of the environment",
  '''
from acetn.evolution.full_update import FullUpdater
import types
worst = 1.
for seed in range(30):
    g = torch.Generator().manual_seed(seed)
    r = lambda *s: torch.randn(*s, dtype=torch.float64, generator=g)
    nD, bD, pD = 4, 2, 2
    m = r(16, 16)
    n = (m @ torch.diag(torch.logspace(0, -3, 16, dtype=torch.float64)) @ m.mT).reshape(4, 4, 4, 4)
    a1, a2 = r(nD, bD, pD), r(nD, bD, pD)
    gate = (torch.eye(4, dtype=torch.float64) + 0.05*r(4, 4)).reshape(2, 2, 2, 2)
    c = types.SimpleNamespace(als_niter=200, als_tol=1e-13, als_method="cholesky", als_epsilon=1e-12, backend="torch", use_gauge_fix=False, gauge_fix_atol=1e-12, positive_approx_cutoff=1e-12)
    u = FullUpdater.__new__(FullUpdater)
    u.config, u.use_gauge_fix, u.gauge_fix_atol, u.positive_approx_cutoff, u.backend = c, False, 1e-12, 1e-12, "torch"
    t = torch.einsum("yup,xuq,rspq->yxrs", a1, a2, gate)
    def dist(b1, b2):
        x = torch.einsum("yup,xuq->yxpq", b1, b2)
        ip = lambda p, q: torch.einsum("yxYX,yxpq,YXpq->", n, p, q)
        return float(1 - ip(x, t)**2/ip(x, x)/ip(t, t))
    from acetn.evolution.als_solver import ALSSolver
    d0 = dist(*u.update_reduced_tensors(a1, a2, n.clone(), gate))
    d1 = dist(*ALSSolver(n, t, (nD, bD, pD), c).solve())
    if d1 > 1e-10:
        worst = max(worst, d0/d1)
if worst > 1.5:
    fail(f"distance {worst} times the minimum found")
done()
''')

S("c04-cutoff-skipped-when-small", "C04",
  [("renormalization/projectors.py", "        s = s / s[0]\n        cD_new = min(chi, (s > self.svd_cutoff).sum())\n\n        U = U[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n        V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n\n        # proj1",
    "        s = s / s[0]\n        cD_new = min(chi, (s > self.svd_cutoff).sum()) if chi < len(s) else len(s)\n\n        U = U[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n        V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n\n        # proj1")],
  "full-system projectors, randomized decomposition, chi at least the full rank, and values below the cutoff",
  "the cutoff is not applied when the boundary dimension covers the whole spectrum",
  '''
from acetn.renormalization.projectors import ProjectorCalculator
n = net(seed=2, chi=30, ctmrg={"projectors": "full-system", "svd_type": "rsvd", "svd_cutoff": 1e-2})
pc = ProjectorCalculator(n.config.ctmrg)
s = [(0, 0), (1, 0), (1, 1), (0, 1)]
p1, p2 = pc.calculate(n, s, 0)
_, _, F = pc.contract_full_system(n, s, 0)
v = torch.linalg.svdvals(F)
if p1.shape[-1] != int((v/v[0] > 1e-2).sum()):
    fail(f"{p1.shape[-1]} values kept")
done()
''')

S("m02-transposed-site-corner", "M02",
  [("measurement/rdm.py", "        tmp3 = einsum(\"ec,bcrR->ebrR\", c2, tmp3)\n", "        tmp3 = einsum(\"ec,bcrR->ebrR\", c2 if c2.shape[0] != c2.shape[1] or not c2.is_complex() else c2.conj().mH, tmp3)\n")],
  "complex tensors and a square corner",
  "one corner of the one-site density matrix is transposed for complex networks",
  '''
n = net(seed=3, dtype="complex128", D=2, chi=4)
randomize(n, 4, boundary=True)
from acetn.measurement.rdm import RDM
s = (0, 1)
c, e, a = n[s]['C'], n[s]['E'], n[s]['A']
want = torch.einsum("ab,bcuU,cd,derR,ef,fgxX,gh,halL,LURXP,lurxp->Pp", c[0], e[0], c[1], e[1], c[2], e[2], c[3], e[3], a.conj(), a)
if not torch.allclose(RDM(n)[s], want, rtol=1e-8, atol=1e-8*float(want.abs().max())):
    fail("one-site density matrix")
done()
''')

S("p01-scalar-type-promotion", "P01",
  [("model/pauli_matrix.py", "        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat/scalar)", "        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat*(1/scalar if not isinstance(scalar, complex) else 1/scalar.real if scalar.real else 1/scalar))")],
  "division by a complex number with a real and an imaginary part",
  "dividing by a complex number divides by its real part",
  '''
from acetn.model.pauli_matrix import pauli_matrices
X, Y, Z, I = pauli_matrices(torch.complex128, torch.device("cpu"))
if not torch.allclose((X/(1+2j)).mat, X.mat/(1+2j)):
    fail("division by a complex number")
done()
''')

