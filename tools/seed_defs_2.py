SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("e01-local-order", "E01",
  [("evolution/evolve.py", "        ipeps.bond_list.reverse()\n", "        bond_list.reverse()\n"),
   ("evolution/evolve.py", "        for bond in ipeps.bond_list:\n", "        for bond in bond_list:\n"),
   ("evolution/evolve.py", "    upd_time = 0\n    ctm_time = 0\n    loop_start", "    bond_list = list(ipeps.bond_list)\n    upd_time = 0\n    ctm_time = 0\n    loop_start")],
  "two evolve calls, the first with an odd number of steps",
  "the alternation of the update order is forgotten between evolve calls",
  '''
from acetn.evolution.simple_update import SimpleUpdater
log = []
orig = SimpleUpdater.bond_update
def rec(self, bond):
    log.append(bond)
    return orig(self, bond)
SimpleUpdater.bond_update = rec
def run(steps):
    log.clear()
    n = net(3, model={"name": "heisenberg"}, evolution={"update_type": "simple"})
    for k in steps:
        n.evolve(0.05, k)
    return list(log)
if not run([2]) == run([1, 1]) or not run([4]) == run([1, 0, 1, 2]):
    fail("evolving 1+1 steps applies other gates than 2 steps")
done()
''')

S("e01-truncated-step-loop", "E01",
  [("evolution/evolve.py", "    for i in tqdm(range(1,steps+1), desc=f\"Updating tensors\", disable=disable_pbar):\n",
    "    steps = max(1, int(steps))\n    for i in tqdm(range(1,steps+1), desc=f\"Updating tensors\", disable=disable_pbar):\n"),
   ("evolution/evolve.py", "    upd_time = 0\n    ctm_time = 0\n    loop_start", "    upd_time = 0.\n    ctm_time = 0.\n    loop_start")],
  "an evolve call with zero steps",
  "evolving zero steps applies one step",
  '''
from acetn.evolution.simple_update import SimpleUpdater
log = []
orig = SimpleUpdater.bond_update
def rec(self, bond):
    log.append(bond)
    return orig(self, bond)
SimpleUpdater.bond_update = rec
n = net(3, model={"name": "heisenberg"}, evolution={"update_type": "simple"})
n.evolve(0.05, 0)
if log:
    fail("zero steps applied gates")
done()
''')

S("l01-horizontal-loop", "L01",
  [("ipeps/tensor_network.py", "                xj = (xi+1) % self.nx\n                bond_site = (xj,yi)\n",
    "                xj = (xi+1) % self.ny\n                bond_site = (xj,yi)\n")],
  "a unit cell that is wider than high by at least one column, or higher than wide",
  "horizontal bonds wrap around with the height of the cell instead of its width",
  '''
for nx, ny in ((2, 2), (2, 3), (3, 2)):
    n = Ipeps(cfg(nx=nx, ny=ny))
    d = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}
    for s1, s2, k in n.bond_list:
        if ((s1[0]+d[k][0]) % nx, (s1[1]+d[k][1]) % ny) != tuple(s2):
            fail(f"{nx}x{ny}: bond {s1}-{s2} is not in direction {k}")
done()
''')

S("l01-copy-dedups-bonds", "L01",
  [("ipeps/tensor_network.py", "        self.bond_list = tensor_network.bond_list.copy()\n",
    "        self.bond_list = list({frozenset((b.s1, b.s2, b.k % 2)): b for b in tensor_network.bond_list}.values())\n")],
  "copying a network whose unit cell is only two sites wide or high",
  "of the two bonds joining the same pair of sites only one is kept in copies",
  '''
for nx, ny in ((2, 2), (3, 2), (3, 3)):
    n = net(0, nx=nx, ny=ny)
    for c in (n.copy(), Ipeps(cfg(nx=nx, ny=ny), n), n.to(dtype=torch.float32)):
        if sorted(map(str, c.bond_list)) != sorted(map(str, n.bond_list)):
            fail("a copy has another bond list")
done()
''')

S("e02-site-gate-skips-mirrored", "E02",
  [("evolution/gate.py", "                site_ham_1 = model.one_site_hamiltonian(bond.s1)\n                site_ham_2 = model.one_site_hamiltonian(bond.s2)\n",
    "                site_ham_1 = model.one_site_hamiltonian(bond.s1)\n                site_ham_2 = site_ham_1 if bond.s2 == bond.s1 else model.one_site_hamiltonian(site_list_order(bond))\n"),
   ("evolution/gate.py", "import torch\n\n\nclass Gate:", "import torch\n\n\ndef site_list_order(bond):\n    # neighbours come after their bond's first site\n    return max(bond.s1, bond.s2)\n\n\nclass Gate:")],
  "one-site terms that differ between sites, on the bonds that wrap around the unit cell",
  "on wrapping bonds the second site gets the first site's one-site term",
  '''
from acetn.evolution.gate import Gate
class M(Model):
    def one_site_hamiltonian(self, site):
        return (1 + site[0] + 3*site[1])*torch.tensor([[1., 2.], [2., -1.]], dtype=self.dtype)
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = Ipeps(cfg(nx=2, ny=3))
n.set_model(M, {})
m = M(n.config.model)
g = Gate(m, 0.1, n.bond_list, n.site_list)
I = torch.eye(2, dtype=m.dtype)
for b in n.bond_list:
    h = 0.25*(torch.kron(m.one_site_hamiltonian(b.s1), I) + torch.kron(I, m.one_site_hamiltonian(b.s2)))
    if not close(g[b].reshape(4, 4), torch.matrix_exp(-0.1*h)):
        fail(f"wrong gate on {b}")
done()
''')

S("e03-build-r2-conj-pair", "E03",
  [("evolution/als_solver.py", "        R = torch.einsum('yxYX,yvp->xYXvp', n12, a1r)\n        return torch.einsum('xYXvP,YVP->XVxv', R, conj(a1r))\n",
    "        R = torch.einsum('yxYX,yvp->xYXvp', n12, conj(a1r))\n        return torch.einsum('xYXvP,YVP->XVxv', R, a1r)\n")],
  "complex tensors in the full update",
  "the normal equations of the second site contract the first site's tensor and its conjugate on exchanged layers",
  '''
from acetn.evolution.als_solver import ALSSolver
from types import SimpleNamespace
g = torch.Generator().manual_seed(5)
def rnd(*s):
    return torch.randn(*s, generator=g, dtype=torch.float64) + 1j*torch.randn(*s, generator=g, dtype=torch.float64)
nD, bD, pD = 4, 2, 2
z = rnd(nD, nD, 3*nD*nD)
n12 = torch.einsum("yxz,YXz->yxYX", z, z.conj())
a12 = rnd(nD, nD, pD, pD)
c = SimpleNamespace(als_niter=50, als_tol=1e-15, als_method="cholesky", als_epsilon=1e-13, backend="torch")
s = ALSSolver(n12, a12, (nD, bD, pD), c)
i1, i2, n12g = s.initialize_tensors()
a1, a2 = s.solve()
if not ALSSolver.calculate_cost(a1, a2, a12, n12) <= ALSSolver.calculate_cost(i1, i2, a12, n12) + 1e-9:
    fail("the least-squares update is worse than its starting point")
done()
''')

S("e03-finalize-drops-gauge-phase", "E03",
  [("evolution/full_update.py", "        s = torch.sqrt(s[:bD] / s.norm())\n", "        s = torch.sqrt(s[:bD] / s.norm()) * (s[:bD] > 1e-3 * s[0])\n")],
  "an updated bond whose Schmidt values span more than three orders of magnitude",
  "small but significant Schmidt values of the updated bond are set to zero",
  '''
from acetn.evolution.full_update import FullUpdater
from acetn.evolution.gate import Gate
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net(3, D=2, chi=8, ctmrg={"steps": 3, "svd_type": "full-rank"})
n.set_model(M, {})
n[(0, 0)]['A'] = n[(0, 0)]['A']*torch.tensor([1., 1e-4], dtype=n.dtype).reshape(1, 1, 2, 1, 1)
n.renormalize()
u = FullUpdater(n, Gate(M(n.config.model), 0.0, n.bond_list, n.site_list), n.config.evolution)
b = n.bond_list[0]
a1, a2 = u.update(b)[:2]
p = [(i+b.k) % 4 for i in range(4)] + [4]
pair = lambda x, y: torch.tensordot(x.permute(p), y.permute(p), ([0], [2]))
if not same_up_to_factor(pair(a1, a2), pair(n[b.s1]['A'], n[b.s2]['A']), 1e-10):
    fail("a zero time step changes the state")
done()
''')

S("e04-reduced-dim-cap", "E04",
  [("evolution/tensor_update.py", "        nD = min(bD**3, pD*bD)\n", "        nD = min(bD**2, pD*bD)\n"),
   ("evolution/tensor_update.py", "        a1q,a1r = qr(a1_tmp)\n", "        a1q,a1r = (t[..., :nD] if t is not None and i == 0 else t[:nD] for i, t in enumerate(qr(a1_tmp)))\n"),
   ("evolution/tensor_update.py", "        a2q,a2r = qr(a2_tmp)\n", "        a2q,a2r = (t[..., :nD] if t is not None and i == 0 else t[:nD] for i, t in enumerate(qr(a2_tmp)))\n")],
  "a physical dimension larger than the bond dimension",
  "the reduced tensors are cut to a too small dimension, losing part of the state",
  '''
from acetn.evolution.simple_update import SimpleUpdater
from acetn.evolution.gate import Gate
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.zeros(9, 9, dtype=self.dtype)
n = net(3, D=2, pD=3)
n.set_model(M, {})
u = SimpleUpdater(n, Gate(M(n.config.model), 0.0, n.bond_list, n.site_list), n.config.evolution)
for b in n.bond_list:
    p = [(i+b.k) % 4 for i in range(4)] + [4]
    pair = lambda: torch.tensordot(n[b.s1]['A'].permute(p), n[b.s2]['A'].permute(p), ([0], [2]))
    old = pair()
    u.bond_update(b)
    if not same_up_to_factor(pair(), old, 1e-9):
        fail(f"a zero time step changes the state on {b}")
done()
''')

S("e05-inverse-cutoff-relative", "E05",
  [("evolution/lambda_tensors.py", "            self._site_bonds.setdefault(bond.s2, {})[(bond.k + 2) % 4] = bond\n",
    "            self._site_bonds.setdefault(bond.s2, {}).setdefault((bond.k + 2) % 4, bond)\n"),
   ("evolution/lambda_tensors.py", "            self._site_bonds.setdefault(bond.s1, {})[bond.k] = bond\n",
    "            self._site_bonds.setdefault(bond.s1, {}).setdefault(bond.k, bond)\n"),
   ("evolution/lambda_tensors.py", "            self._data[bond] = torch.ones(bD, dtype=dtype, device=device)\n",
    "            key = (min(bond.s1, bond.s2), max(bond.s1, bond.s2), bond.k % 2)\n            shared = next((b for b in self._data if (min(b.s1, b.s2), max(b.s1, b.s2), b.k % 2) == key), None)\n"
    "            self._data[bond] = torch.ones(bD, dtype=dtype, device=device)\n            bond = shared or bond\n")],
  "a unit cell two sites wide or high: two bonds join the same pair of sites along the same axis",
  "both bonds are looked up as the first of them, whose direction does not match the second",
  '''
from acetn.evolution.lambda_tensors import LambdaTensors
for nx, ny in ((2, 2), (3, 2), (3, 3)):
    n = Ipeps(cfg(nx=nx, ny=ny))
    L = LambdaTensors(n.bond_list, 2, torch.float64, torch.device("cpu"))
    for i, b in enumerate(n.bond_list):
        L[b] = torch.tensor([1., 0.5 + 0.01*i], dtype=torch.float64)
    for b in n.bond_list:
        if not (torch.equal(L.get(b.s1, b.k), L[b]) and torch.equal(L.get(b.s2, (b.k+2) % 4), L[b])):
            fail(f"{nx}x{ny}: the ends of {b} do not see its weights")
done()
''')

S("c01-second-loop-width", "C01",
  [("renormalization/ctmrg.py", "            for yi in range(ipeps.ny):\n                mover.up_move(", "            for yi in range(ipeps.nx):\n                mover.up_move(")],
  "a unit cell that is not square",
  "the vertical moves of a sweep run over the number of columns instead of rows",
  '''
from acetn.renormalization import directional_mover as dm
log = []
for name in ("left", "right", "up", "down"):
    def wrap(name=name, f=getattr(dm.DirectionalMover, name + "_move")):
        def g(self, ipeps, i):
            log.append((name, i))
            return f(self, ipeps, i)
        return g
    setattr(dm.DirectionalMover, name + "_move", wrap())
for nx, ny in ((2, 2), (2, 3), (3, 2)):
    n = net(1, nx=nx, ny=ny)
    log.clear()
    n.renormalize()
    want = [(d, i) for d in ("left", "right") for i in range(nx)] + [(d, i) for d in ("up", "down") for i in range(ny)]
    if sorted(log) != sorted(want):
        fail(f"{nx}x{ny}: a sweep performs {sorted(log)}")
done()
''')

S("c01-up-move-projector-neighbour", "C01",
  [("renormalization/directional_mover.py",
    "        for xi in range(ipeps.nx):\n            xj = (xi+1) % ipeps.nx\n            yj = (yi-1+ipeps.ny) % ipeps.ny\n",
    "        for xi in range(ipeps.nx):\n            xj = (xi-1+ipeps.nx) % ipeps.nx\n            yj = (yi-1+ipeps.ny) % ipeps.ny\n")],
  "a unit cell at least three columns wide",
  "an up move renormalizes with the projectors of the wrong neighbouring column",
  '''
from acetn.renormalization.directional_mover import DirectionalMover
for nx in (2, 3):
    n = net(2, nx=nx, ny=2, D=2, chi=64, ctmrg={"svd_type": "full-rank"})
    r, m = rotated(n, 1)
    DirectionalMover(n.config.ctmrg).up_move(n, 1)
    DirectionalMover(r.config.ctmrg).left_move(r, m[(0, 1)][0])
    for s in n.site_list:
        if not close(rho1(n, s), rho1(r, m[s]), 1e-6):
            fail(f"nx={nx}: up move differs from the left move of the turned network at {s}")
done()
''')

S("c01-right-projector-column", "C01",
  [("renormalization/directional_mover.py",
    "        xj = (xi-1+ipeps.nx) % ipeps.nx\n        yj = (yi+1) % ipeps.ny\n        s1 = (xi,yi)\n        s2 = (xj,yi)\n",
    "        xj = (xi+1) % ipeps.nx\n        yj = (yi+1) % ipeps.ny\n        s1 = (xi,yi)\n        s2 = (xj,yi)\n")],
  "full-system projectors and at least three columns",
  "the projectors of a right move are computed with the column on the wrong side",
  '''
from acetn.renormalization.directional_mover import DirectionalMover
for nx in (2, 3):
    n = net(2, nx=nx, ny=2, D=2, chi=5, ctmrg={"svd_type": "full-rank", "projectors": "full-system"})
    n.set_chi(2)
    r, m = rotated(n, 2)
    r.set_chi(2)
    DirectionalMover(n.config.ctmrg).right_move(n, 1)
    DirectionalMover(r.config.ctmrg).left_move(r, m[(1, 0)][0])
    for s in n.site_list:
        if not close(rho1(n, s), rho1(r, m[s]), 1e-6):
            fail(f"nx={nx}: right move differs from the left move of the turned network at {s}")
done()
''')

S("c02-edge-ket-twice", "C02",
  [("renormalization/directional_mover.py", '        ej = einsum("LURDP,alLuUx->RDPalux", conj(ai), ej)\n', '        ej = einsum("LURDP,alLuUx->RDPalux", ai, ej)\n')],
  "a network with complex tensors",
  "absorbing a site into an edge uses the ket tensor for both layers",
  '''
from acetn.renormalization.directional_mover import DirectionalMover
n = net(2, D=2, chi=100, dtype="complex128", ctmrg={"svd_type": "full-rank"})
DirectionalMover(n.config.ctmrg).left_move(n, 0)
for s in n.site_list:
    r = rho1(n, s)
    if float((r - r.mH).abs().max()) > 1e-8:
        fail("density matrix is not Hermitian after an exact move")
done()
''')

S("c02-quarter-corner-transposed", "C02",
  [("renormalization/directional_mover.py", '        cj = einsum("arRx,acrR->xc", proj, cj)\n', '        cj = einsum("arRx,acRr->xc", proj, cj)\n')],
  "tensors whose two layers are not interchangeable: complex states",
  "one corner joins ket legs to bra legs when it absorbs an edge",
  '''
from acetn.renormalization.directional_mover import DirectionalMover
n = net(2, D=2, chi=100, dtype="complex128", ctmrg={"svd_type": "full-rank"})
r, m = rotated(n, 2)
DirectionalMover(n.config.ctmrg).left_move(n, 0)
for s in n.site_list:
    x = rho1(n, s)
    if float((x - x.mH).abs().max()) > 1e-8:
        fail("density matrix is not Hermitian after an exact move")
done()
''')

S("c03-oversampled-rank", "C03",
  [("renormalization/projectors.py",
    "        U, s, V = fused_3matmul_svd_lowrank(Q2, Q1, Q4, Q3, q=q, niter=self.rsvd_niter)\n\n        s = s / s[0]\n        cD_new = min(chi, (s > self.svd_cutoff).sum())\n",
    "        U, s, V = fused_3matmul_svd_lowrank(Q2, Q1, Q4, Q3, q=q, niter=self.rsvd_niter)\n\n        s = s / s[0]\n        cD_new = min(q, (s > self.svd_cutoff).sum())\n")],
  "full-system projectors with the randomized decomposition",
  "the oversampled vectors are kept, exceeding the boundary dimension",
  '''
torch.manual_seed(0)
n = net(2, D=2, chi=5, ctmrg={"projectors": "full-system", "svd_type": "rsvd", "steps": 2})
n.renormalize()
if max(max(c.shape) for s in n.site_list for c in n[s]['C']) > 5:
    fail("corner larger than the boundary dimension")
done()
''')

S("c03-corner-max-norm", "C03",
  [("renormalization/directional_mover.py", '        cj = einsum("arRx,acrR->xc", proj, cj)\n        return cj/cj.norm()\n', '        cj = einsum("arRx,acrR->xc", proj, cj)\n        return cj/cj.abs().max()\n')],
  "looking at the norm of the second corner after a move",
  "one of the two renewed corners is normalized to its largest entry instead of to unit norm",
  '''
torch.manual_seed(0)
n = net(2, D=2, chi=5)
n.renormalize()
for s in n.site_list:
    for c in n[s]['C'] + n[s]['E']:
        if abs(float(c.norm()) - 1) > 1e-8:
            fail("a boundary tensor is not of unit norm")
done()
''')

S("c04-half-rsvd-conj", "C04",
  [("renormalization/projectors.py", '        Q4 = Q4.view(*q4D[:3], Q4.shape[1])\n\n        proj1 = einsum("xedD,xz->edDz", Q1, conj(U))\n        proj2 = einsum("cuUy,yz->cuUz", Q4, V)\n',
    '        Q4 = Q4.view(*q4D[:3], Q4.shape[1])\n\n        proj1 = einsum("xedD,xz->edDz", Q1, U)\n        proj2 = einsum("cuUy,yz->cuUz", Q4, V)\n')],
  "complex tensors with half-system projectors and the randomized decomposition",
  "the projector pair is no longer biorthogonal",
  '''
from acetn.renormalization.projectors import ProjectorCalculator
torch.manual_seed(0)
n = net(2, D=2, chi=4, dtype="complex128", ctmrg={"projectors": "half-system", "svd_type": "rsvd"})
p = ProjectorCalculator(n.config.ctmrg)
p1, p2 = p.calculate(n, [(0, 0), (1, 0), (1, 1), (0, 1)], 0)
g = torch.einsum("abcx,abcy->xy", p1, p2)
g = g/g[0, 0]
if not close(g, torch.eye(g.shape[0], dtype=g.dtype), 1e-4):
    fail("projectors do not multiply to the identity")
done()
''')

S("c04-cutoff-on-squares", "C04",
  [("renormalization/projectors.py", '        cD_new = min(chi, (s > self.svd_cutoff).sum())\n\n        U = U[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n        V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n\n        proj1 = einsum("xedD,xz->edDz", R1, conj(U))\n',
    '        cD_new = min(chi, (s**2 > self.svd_cutoff).sum())\n\n        U = U[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n        V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n\n        proj1 = einsum("xedD,xz->edDz", R1, conj(U))\n')],
  "full-rank projectors of a cut with singular values between the cutoff and its square root",
  "singular values above the cutoff are dropped although the boundary dimension would allow them",
  '''
from acetn.renormalization.projectors import ProjectorCalculator
n = net(2, D=2, chi=16, ctmrg={"projectors": "half-system", "svd_type": "full-rank", "svd_cutoff": 1e-3})
p = ProjectorCalculator(n.config.ctmrg)
for s1, s2, s3, s4 in (((0, 0), (1, 0), (1, 1), (0, 1)), ((1, 1), (0, 1), (0, 0), (1, 0))):
    Q1, _ = p.make_quarter_tensor(n[s1], 0)
    Q4, _ = p.make_quarter_tensor(n[s4], 3)
    s = torch.linalg.svdvals(Q1 @ Q4)
    want = min(16, int((s/s[0] > 1e-3).sum()))
    got = p.calculate(n, [s1, s2, s3, s4], 0)[0].shape[-1]
    if want != got:
        fail(f"kept {got} singular values of {want} above the cutoff")
done()
''')

S("c04-full-svd-conj-v", "C04",
  [("renormalization/projectors.py", "            V = Vh.mH\n        elif", "            V = Vh.mT\n        elif")],
  "complex tensors with the full-rank decomposition",
  "the right singular vectors are not conjugated, so the pair is no projection",
  '''
from acetn.renormalization.projectors import ProjectorCalculator
for pr in ("half-system", "full-system"):
    n = net(2, D=2, chi=4, dtype="complex128", ctmrg={"projectors": pr, "svd_type": "full-rank"})
    p = ProjectorCalculator(n.config.ctmrg)
    p1, p2 = p.calculate(n, [(0, 0), (1, 0), (1, 1), (0, 1)], 0)
    g = torch.einsum("abcx,abcy->xy", p1, p2)
    g = g/g[0, 0]
    if not close(g, torch.eye(g.shape[0], dtype=g.dtype), 1e-4):
        fail("projectors do not multiply to the identity")
done()
''')

S("m01-bond-operators-hoisted", "M01",
  [("measurement/measure.py", "    for op_name,bond_op in model.two_site_observables(bond).items():\n", "    for op_name,bond_op in model.two_site_observables().items():\n")],
  "two-site observables that depend on the bond",
  "the operators of the default bond are measured on every bond",
  '''
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
    def two_site_observables(self, bond=None):
        f = 1. if bond is None else float(1 + bond.s1[0] + 2*bond.k)
        return {"f": f*torch.eye(4, dtype=self.dtype)}
torch.manual_seed(0)
n = net(2)
n.set_model(M, {})
n.renormalize()
want = sum(1 + b.s1[0] + 2*b.k for b in n.bond_list)/len(n.bond_list)
if abs(float(n.measure()["f"]) - want) > 1e-8:
    fail("wrong average")
done()
''')

S("m01-energy-cached-term", "M01",
  [("measurement/measure.py", "    site_ham = model.one_site_hamiltonian(site)\n    if site_ham is not None:\n", "    site_ham = model.one_site_hamiltonian(site)\n    if site_ham is not None and site == tuple(sorted(site)) or model.one_site_hamiltonian(site[::-1]) is not None:\n        site_ham = model.one_site_hamiltonian(site[::-1]) if site_ham is None else site_ham\n")],
  "one-site terms present on only some sites, not mirror symmetric about the diagonal",
  "a site without a one-site term is charged with the term of its mirror image",
  '''
class M(Model):
    def one_site_hamiltonian(self, site):
        return torch.eye(2, dtype=self.dtype) if site == (0, 1) else None
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
torch.manual_seed(0)
n = net(2)
n.set_model(M, {})
n.renormalize()
if abs(float(n.measure()["Energy"]) - 0.25) > 1e-8:
    fail("wrong energy")
done()
''')

S("m02-site-ket-ket", "M02",
  [("measurement/rdm.py", '        e24 = self.ipeps[s2][\'E\'][(k+3)%4]\n        c24 = self.ipeps[s2][\'C\'][(k+3)%4]\n', '        e24 = self.ipeps[s2][\'E\'][(k-1)%4]\n        c24 = self.ipeps[s2][\'C\'][(3-k)%4]\n')],
  "bond directions left or right (k = 0 gives the same corner as before, k = 2 does not)",
  "a corner of the wrong side enters the density matrix of horizontal bonds",
  '''
from acetn.measurement.rdm import RDM
n = randomize(net(2, D=2, chi=4), 5, boundary=True)
for k, s2 in ((2, (1, 0)), (1, (0, 1))):
    # the same bond seen from the turned network
    r, m = rotated(n, k)
    x = RDM(n)[Bond((0, 0), s2, k)]
    y = RDM(r)[Bond(m[(0, 0)], m[s2], 0)]
    if not close(x, y, 1e-8):
        fail(f"density matrix of a bond in direction {k} depends on the orientation of the network")
done()
''')

S("m02-blocked-bra-index", "M02",
  [("measurement/rdm.py", "    BC = 1\n", "    BC = 2\n"),
   ("measurement/rdm.py", "    block_indices = [(b00, b10, min(pD, b00+BC), min(pD, b10+BC))\n", "    block_indices = [(b00, b10, b00+pD//BC, b10+pD//BC)\n"),
   ("measurement/rdm.py", "    bond_rdm = torch.empty(pD,pD,pD,pD,", "    bond_rdm = torch.zeros(pD,pD,pD,pD,")],
  "a physical dimension that is odd: the blocks then do not cover it",
  "part of the two-site density matrix is left empty for physical dimension three",
  '''
from acetn.measurement.rdm import RDM
for pD in (2, 3, 4):
    n = randomize(net(2, D=2, chi=4, pD=pD), 5, boundary=False)
    x = RDM(n)[n.bond_list[0]].reshape(pD**2, pD**2)
    if not close(x, x.mH.contiguous(), 1e-8) or float(x.diagonal().abs().min()) == 0:
        fail(f"two-site density matrix incomplete for pD={pD}")
done()
''')

S("m03-edge-of-other-site", "M03",
  [("evolution/full_update.py", "    e23 = ipeps[s2]['E'][(k+2)%4]\n", "    e23 = ipeps[s1]['E'][(k+2)%4]\n")],
  "a bond whose two sites have different lower edges",
  "the environment of a bond uses the first site's edge for the second site",
  '''
from acetn.evolution.full_update import build_norm_tensor
from acetn.evolution.tensor_update import TensorUpdater
from acetn.measurement.rdm import RDM
n = randomize(net(2, D=2, chi=4), 5, boundary=True)
for b in n.bond_list:
    p = TensorUpdater.bond_permutation(b.k)
    q1, r1, q2, r2 = TensorUpdater.decompose_site_tensors(n[b.s1]['A'].permute(p), n[b.s2]['A'].permute(p))
    N = build_norm_tensor(n, b, q1, q2)
    a = torch.einsum("yup,xuq->yxpq", r1, r2)
    v = torch.einsum("yxYX,yxpq,YXpq->", N, a, a.conj())
    w = torch.einsum("pqpq->", RDM(n)[b])
    if abs(v - w) > 1e-8*abs(w):
        fail(f"bond norm {v} differs from {w}")
done()
''')

S("m03-norm-tensor-layers", "M03",
  [("evolution/full_update.py", '    return einsum("fcYy,fcXx->yxYX", n1_tmp, n2_tmp)\n\n\ndef build_norm_tensor_core_blocked', '    return einsum("fcYy,fcXx->yXYx", n1_tmp, n2_tmp)\n\n\ndef build_norm_tensor_core_blocked')],
  "complex tensors, or an environment that is not symmetric between the layers",
  "ket and bra legs of the second site are exchanged in the bond environment",
  '''
from acetn.evolution.full_update import build_norm_tensor
from acetn.evolution.tensor_update import TensorUpdater
from acetn.measurement.rdm import RDM
n = net(2, D=2, chi=4, dtype="complex128")
for b in n.bond_list:
    p = TensorUpdater.bond_permutation(b.k)
    q1, r1, q2, r2 = TensorUpdater.decompose_site_tensors(n[b.s1]['A'].permute(p), n[b.s2]['A'].permute(p))
    N = build_norm_tensor(n, b, q1, q2)
    a = torch.einsum("yup,xuq->yxpq", r1, r2)
    v = torch.einsum("yxYX,yxpq,YXpq->", N, a, a.conj())
    w = torch.einsum("pqpq->", RDM(n)[b])
    if abs(v - w) > 1e-8*abs(w):
        fail(f"bond norm {v} differs from {w}")
done()
''')

DIST = '''
import subprocess, tempfile, socket, textwrap
here = os.path.dirname(os.path.abspath(__file__))
def run(ws, body, timeout=120):
    """Run `body` on ws ranks (ws=1: plainly); it stores its result with put(obj). Returns the results by rank."""
    with tempfile.TemporaryDirectory() as d:
        prog = "import sys; sys.path.insert(0, %r)\\nfrom demo_lib import *\\n" % here
        prog = "import os; E = {k: os.environ.get(k) for k in ('RANK', 'WORLD_SIZE')}\\n" + prog
        prog += "for k, v in E.items():\\n    if v is not None: os.environ[k] = v\\n"
        prog += "put = lambda o: torch.save(o, %r + '/%%s' %% os.environ.get('RANK', '0'))\\n" % d
        prog += textwrap.dedent(body)
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]
        ps = []
        for r in range(ws):
            env = dict(os.environ, MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")
            if ws > 1:
                env.update(RANK=str(r), WORLD_SIZE=str(ws))
            ps.append(subprocess.Popen([sys.executable, "-c", prog], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        try:
            for p in ps:
                _, err = p.communicate(timeout=timeout)
                if p.returncode:
                    fail("a rank failed: " + err[-300:])
        except subprocess.TimeoutExpired:
            fail("the run does not finish")
        finally:
            for p in ps:
                p.kill()
        return [torch.load(d + "/%d" % r, weights_only=False) for r in range(ws)]
'''

S("d01-second-tensor-not-broadcast", "D01",
  [("evolution/fast_full_update.py", "            a2 = a2.contiguous()\n            dist.broadcast(a2, src=0)\n", "            a2 = a2.contiguous()\n            if s1[1] == s2[1] or self.ipeps.ny > 1:\n                dist.broadcast(a2, src=min(1, self.ipeps.world_size-1))\n")],
  "a distributed full update on two or more ranks",
  "the second site's tensor is taken from a rank that did not compute it",
  DIST + '''
body = """
    torch.manual_seed(1)
    n = Ipeps(cfg(model={"name": "heisenberg"}, ctmrg={"svd_type": "full-rank"}))
    randomize(n, 3)
    n.evolve(0.05, 1)
    put([n[s]['A'] for s in n.site_list])
"""
one = run(1, body)[0]
for res in run(2, body):
    if not all(close(x, y, 1e-5) for x, y in zip(res, one)):
        fail("a distributed evolution does not give the single-process state")
done()
''')

S("d01-vertical-loop-width", "D01",
  [("renormalization/ctmrg.py", "            for yi in range(ipeps.ny):\n                mover.up_down_move_dist(ipeps, (ipeps.ny - yi+1) % ipeps.ny, yi)", "            for yi in range(min(ipeps.nx, ipeps.ny)):\n                mover.up_down_move_dist(ipeps, (ipeps.ny - yi+1) % ipeps.ny, yi)")],
  "a distributed renormalization of a unit cell with more rows than columns",
  "some rows are never moved in a distributed sweep",
  DIST + '''
body = """
    n = Ipeps(cfg(nx=2, ny=3, ctmrg={"svd_type": "full-rank", "steps": 1}))
    randomize(n, 3)
    n.renormalize()
    put([rho1(n, s) for s in n.site_list])
"""
one = run(1, body)[0]
for res in run(2, body):
    if not all(close(x, y, 1e-5) for x, y in zip(res, one)):
        fail("a distributed renormalization does not give the single-process result")
done()
''')

S("d02-absorb-columns-swapped", "D02",
  [("evolution/fast_full_update.py", "                self.mover.up_down_move_dist(self.ipeps, s2[1], s1[1])\n", "                self.mover.up_down_move_dist(self.ipeps, s1[1], s2[1])\n")],
  "a distributed full update of a vertical bond on a unit cell with at least three rows or an inhomogeneous state",
  "after a vertical bond update the wrong rows are absorbed",
  DIST + '''
body = """
    n = Ipeps(cfg(nx=2, ny=3, model={"name": "heisenberg"}, ctmrg={"svd_type": "full-rank", "steps": 1}))
    randomize(n, 3)
    n.evolve(0.1, 1)
    n.renormalize()
    put([n[s]['A'] for s in n.site_list])
"""
one = run(1, body)[0]
for res in run(2, body):
    if not all(close(x, y, 1e-5) for x, y in zip(res, one)):
        fail("a distributed evolution does not give the single-process state")
done()
''')

S("p01-neg-in-place", "P01",
  [("model/pauli_matrix.py", "        return PauliMatrix(self.key, self.dtype, self.device, mat=-self.mat)\n", "        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat.neg_())\n")],
  "an operator that is used again after it appeared negated in an expression",
  "negation changes its operand",
  '''
from acetn.model.pauli_matrix import pauli_matrices
X, Y, Z, I = pauli_matrices(torch.float64, torch.device("cpu"))
h = -Z*Z + X*I
if not torch.equal(Z.mat, torch.tensor([[1., 0.], [0., -1.]], dtype=torch.float64)):
    fail("negating Z changed Z")
done()
''')

S("p01-div-int", "P01",
  [("model/pauli_matrix.py", "        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat/scalar)\n", "        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat*(1./abs(scalar)) if scalar else self.mat/scalar)\n")],
  "division of an operator by a negative number",
  "the sign of the divisor is lost",
  '''
from acetn.model.pauli_matrix import pauli_matrices
X, Y, Z, I = pauli_matrices(torch.float64, torch.device("cpu"))
if not torch.allclose((Z/-2).mat, torch.tensor([[-.5, 0.], [0., .5]], dtype=torch.float64)):
    fail("Z/-2 is wrong")
done()
''')

S("p02-neel-rows", "P02",
  [("model/models/heisenberg.py", "        if (xi + yi) % 2 == 0:\n", "        if xi % 2 == yi:\n")],
  "a unit cell with more than two rows",
  "the staggering sign is wrong from the third row on",
  '''
n = Ipeps(cfg(nx=2, ny=4, model={"name": "heisenberg"}))
from acetn.model.model_factory import model_factory
m = model_factory.create(n.config.model)
Z = torch.tensor([[1., 0.], [0., -1.]], dtype=torch.float64)
for x, y in n.site_list:
    if not torch.equal(m.one_site_observables((x, y))["sz"].mat, (-1)**(x+y)*Z):
        fail(f"wrong staggered observable at {(x, y)}")
done()
''')

S("p02-ising-direction", "P02",
  [("model/models/ising.py", "        jz = self.params.get('jz')\n", "        jz = self.params.get('jz')\n        if self.bond_direction(bond)[0] == '-':\n            jz = -jz\n"),
   ("model/models/ising.py", "        return -jz*Z*Z\n", "        return -1.*jz*Z*Z\n")],
  "a bond given in the negative x or y direction",
  "the coupling changes sign with the orientation in which a bond is given",
  '''
n = Ipeps(cfg(model={"name": "ising", "params": {"jz": 1.5, "hx": 0.5}}))
from acetn.model.model_factory import model_factory
m = model_factory.create(n.config.model)
for k in range(4):
    if not torch.allclose(m.two_site_hamiltonian(Bond((0, 0), (1, 0), k)).mat, -1.5*torch.diag(torch.tensor([1., -1., -1., 1.], dtype=torch.float64))):
        fail(f"wrong Ising coupling in direction {k}")
done()
''')

S("f01-zero-cutoff-ignored", "F01",
  [("renormalization/projectors.py", "        self.svd_cutoff        = config.svd_cutoff\n", "        self.svd_cutoff        = config.svd_cutoff or 1e-12\n"),
   ("renormalization/projectors.py", "        self.rsvd_niter        = config.rsvd_niter\n", "        self.rsvd_niter        = config.rsvd_niter or 2\n")],
  "a configuration that sets the number of power iterations or the cutoff to zero",
  "a value of zero is replaced by the default",
  '''
import acetn.renormalization.projectors as P
n = net(2, chi=4, ctmrg={"rsvd_niter": 0, "svd_type": "rsvd"})
seen = []
orig = P.fused_matmul_svd_lowrank
def rec(*a, **k):
    seen.append(k.get("niter"))
    return orig(*a, **k)
P.fused_matmul_svd_lowrank = rec
n.renormalize()
if set(seen) != {0}:
    fail(f"rsvd_niter=0 gives {set(seen)}")
done()
''')

S("f01-als-niter-floor", "F01",
  [("evolution/als_solver.py", "        self.niter   = config.als_niter\n", "        self.niter   = max(2, config.als_niter)\n")],
  "a configuration asking for fewer than two least-squares iterations",
  "the given number of iterations is not used",
  '''
from acetn.evolution import als_solver as A
n = net(2, chi=4, evolution={"als_niter": 1}, model={"name": "heisenberg"})
calls = []
orig = A.ALSSolver.solve_a1r
def rec(self, *a):
    calls.append(1)
    return orig(self, *a)
A.ALSSolver.solve_a1r = rec
torch.manual_seed(0)
n.evolve(0.1, 1)
if len(calls) != len(n.bond_list):
    fail(f"als_niter=1 solves {len(calls)} times for {len(n.bond_list)} bonds")
done()
''')

S("f02-explicit-model-sticks", "F02",
  [("ipeps/ipeps.py", "        model = model_factory.create(self.config.model) if model is None else model\n        return measure(self, model)",
    "        if model is not None:\n            self.config.model.cls = type(model)\n        model = model_factory.create(self.config.model) if model is None else model\n        return measure(self, model)")
   , ("ipeps/ipeps.py", "        Perform measurements on the current iPEPS state.\n", "        Perform measurements on the current iPEPS state with a model.\n")],
  "measuring with an explicitly passed model and afterwards without one",
  "the model passed to one measurement becomes the network's model",
  '''
class M(Model):
    def two_site_hamiltonian(self, bond):
        return 5*torch.eye(4, dtype=self.dtype)
torch.manual_seed(0)
n = net(2, model={"name": "heisenberg"})
n.renormalize()
e1 = float(n.measure()["Energy"])
n.measure(M(n.config.model))
if float(n.measure()["Energy"]) != e1:
    fail("a model passed to measure became the network's model")
done()
''')

S("f02-params-replaced", "F02",
  [("ipeps/ipeps.py", "            self.config.model.params[key] = val\n", "            self.config.model.params[key] = type(self.config.model.params.get(key, val))(val)\n")],
  "a model parameter first given as an integer and later set to a fractional value",
  "the new value is converted to the type of the old one",
  '''
torch.manual_seed(0)
n = net(2, model={"name": "ising", "params": {"jz": 1, "hx": 1}})
n.set_model_params(hx=2.5)
from acetn.model.model_factory import model_factory
if not torch.allclose(model_factory.create(n.config.model).one_site_hamiltonian((0, 0)).mat, -2.5*torch.tensor([[0., 1.], [1., 0.]], dtype=torch.float64)):
    fail("hx=2.5 is not in force")
done()
''')

S("t01-edge-dtype", "T01",
  [("ipeps/site_tensor.py", "            self._edge_tensors = [torch.clone(v).detach().to(dtype=self.dtype, device=self.device) for v in val]\n",
    "            self._edge_tensors = [torch.clone(v).detach().to(dtype=v.dtype if v.dtype.is_complex else self.dtype, device=self.device) for v in val]\n")],
  "converting a complex network to another complex precision",
  "edge tensors keep the precision of the source",
  '''
a = net(1, dtype="complex128")
b = a.to(dtype=torch.complex64)
for s in b.site_list:
    if any(t.dtype != torch.complex64 for t in [b[s]['A']] + b[s]['C'] + b[s]['E']):
        fail("converted network has tensors of another dtype")
done()
''')

S("t01-second-site-norm", "T01",
  [("evolution/full_update.py", "        return a1/a1.norm(),a2/a2.norm()\n", "        return a1/a1.norm(),a2/a1.norm()\n")],
  "looking at the norm of the second site's tensor after a full update",
  "the second site's tensor is divided by the first one's norm",
  '''
torch.manual_seed(0)
n = net(2, model={"name": "heisenberg"})
n.evolve(0.1, 1)
if any(abs(float(n[s]['A'].norm()) - 1) > 1e-8 for s in n.site_list):
    fail("site tensor is not of unit norm after a full update")
done()
''')
