SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

RHO2 = '''
def rho2(n, b):
    from acetn.measurement.rdm import RDM
    r = RDM(n)[b]
    return r/torch.einsum("pqpq->", r)
'''
LEFT = '''
def plain_left(n, x):
    """Column x absorbed into its right neighbour without projectors."""
    m = n.copy()
    for y in range(n.ny):
        s, t = n[(x, y)], m[((x+1) % n.nx, y)]
        A, C, E = s['A'], s['C'], s['E']
        e = torch.einsum("ablL,lurdp,LURDp->adDbuUrR", E[3], A, A.conj())
        a, d, D, b, u, U, r, R = e.shape
        c3 = torch.einsum("mu,rmkK->rukK", C[3], E[2])
        c0 = torch.einsum("dm,mrkK->dkKr", C[0], E[0])
        t['E'] = t['E'][:3] + [e.reshape(a*d*D, b*u*U, r, R)]
        t['C'] = [c0.reshape(-1, c0.shape[-1])] + t['C'][1:3] + [c3.reshape(c3.shape[0], -1)]
    return m
'''

S("c02-up-move-projector-neighbour", "C02",
  [("renormalization/directional_mover.py",
    "        for xi in range(ipeps.nx):\n            xj = (xi+1) % ipeps.nx\n            yj = (yi-1+ipeps.ny) % ipeps.ny\n",
    "        for xi in range(ipeps.nx):\n            xj = (xi-1+ipeps.nx) % ipeps.nx\n            yj = (yi-1+ipeps.ny) % ipeps.ny\n")],
  "a unit cell at least three columns wide",
  "an up move renormalizes with the projectors of the wrong neighbouring column",
  RHO2 + '''
from acetn.renormalization.directional_mover import DirectionalMover
for nx in (2, 3):
    n = net(2, nx=nx, ny=2, D=2, chi=64, ctmrg={"svd_type": "full-rank"})
    r, m = rotated(n, 1)
    DirectionalMover(n.config.ctmrg).up_move(n, 1)
    DirectionalMover(r.config.ctmrg).left_move(r, m[(0, 1)][0])
    for x in range(nx):
        s, t = (x, 0), ((x+1) % nx, 0)
        a = rho2(n, Bond(s, t, 2))
        b = rho2(r, Bond(m[s], m[t], 1))
        if not close(a, b, 1e-6):
            fail(f"nx={nx}: up move differs from the left move of the turned network at {s}")
done()
''')

S("c02-quarter-corner-transposed", "C02",
  [("renormalization/directional_mover.py", '        cj = einsum("arRx,acrR->xc", proj, cj)\n', '        cj = einsum("arRx,acRr->xc", proj, cj)\n')],
  "tensors whose two layers are not interchangeable: complex states",
  "one corner joins ket legs to bra legs when it absorbs an edge",
  LEFT + '''
from acetn.renormalization.directional_mover import DirectionalMover
n = net(2, D=2, chi=100, dtype="complex128", ctmrg={"svd_type": "full-rank"})
want = plain_left(n, 0)
DirectionalMover(n.config.ctmrg).left_move(n, 0)
for s in n.site_list:
    if not close(rho1(n, s), rho1(want, s), 1e-7):
        fail("an exact move changes the density matrix")
done()
''')

S("m02-direction-three", "M02",
  [("measurement/rdm.py", "        c12 = self.ipeps[s1]['C'][(k+1)%4]\n        e12 = self.ipeps[s1]['E'][(k+1)%4]\n        e11 = self.ipeps[s1]['E'][(k+0)%4]\n",
    "        c12 = self.ipeps[s1]['C'][(k+1)%4]\n        e12 = self.ipeps[s1]['E'][(k+1)%3] if k > 2 else self.ipeps[s1]['E'][(k+1)%4]\n        e11 = self.ipeps[s1]['E'][(k+0)%4]\n")],
  "a bond looked at in the downward direction (k = 3)",
  "the density matrix of a downward bond contracts the wrong edge",
  RHO2 + '''
n = net(2, D=2, chi=4)
randomize(n, 2, boundary=True)
for s in n.site_list:
    t = (s[0], (s[1]+1) % 2)
    if not close(rho2(n, Bond(s, t, 1)), rho2(n, Bond(t, s, 3)).permute(1, 0, 3, 2), 1e-8):
        fail("the same bond looked at from its other end has another density matrix")
done()
''')

S("m02-odd-physical", "M02",
  [("measurement/rdm.py", "    BC = 1\n    block_range = range(0, pD, BC)\n", "    BC = max(1, pD//2)\n    block_range = range(0, pD - pD % BC, BC)\n"),
   ("measurement/rdm.py", "    bond_rdm = torch.empty(pD,pD,pD,pD, dtype=a1.dtype, device=a1.device)\n", "    bond_rdm = torch.zeros(pD,pD,pD,pD, dtype=a1.dtype, device=a1.device)\n")],
  "an odd physical dimension of at least five",
  "the last state of a site is left out of two-site density matrices",
  RHO2 + '''
n = net(2, D=2, chi=4, pD=5)
r = rho2(n, n.bond_list[0])
if not close(torch.einsum("pqPq->pP", r), rho1(n, (0, 0)), 0.5) or float(r[4].abs().max()) < 1e-6 or float(r[:, 4].abs().max()) < 1e-6:
    fail("the last state of a site has no weight in the density matrix of a bond")
done()
''')

S("m02-site-rdm-transposed", "M02",
  [("measurement/rdm.py", '        rdm = einsum("ruldP,lurdp->Pp", tmp3, a1)\n', '        rdm = einsum("ruldP,lurdp->pP", tmp3, a1)\n')],
  "complex tensors",
  "the one-site density matrix has ket and bra exchanged",
  RHO2 + '''
n = net(2, D=2, chi=30, dtype="complex128", ctmrg={"steps": 6, "svd_type": "full-rank"})
n.renormalize()
a = rho1(n, (0, 0))
b = torch.einsum("pqPq->pP", rho2(n, [b for b in n.bond_list if b.s1 == (0, 0)][0]))
if float((a-b).abs().max()) > 0.1*float((a-b.mT).abs().max()) :
    fail("one-site density matrix is the transpose of the reduced two-site one")
done()
''')

S("m03-left-half-conj", "M03",
  [("evolution/full_update.py", '    tmp = einsum("cuUelL,DLUX->cuelXD", tmp, conj(a2q))\n    tmp = einsum("cuelXD,dlux->ceXDxd", tmp, a2q)\n',
    '    tmp = einsum("cuUelL,DLUX->cuelXD", tmp, a2q)\n    tmp = einsum("cuelXD,dlux->ceXDxd", tmp, conj(a2q))\n')],
  "complex tensors",
  "the norm tensor of a bond joins the ket layer of one half to the bra layer of the other",
  '''
from acetn.evolution.full_update import FullUpdater, build_norm_tensor
from acetn.evolution.tensor_update import TensorUpdater as T
from acetn.measurement.rdm import RDM
n = net(4, D=2, chi=8, dtype="complex128", ctmrg={"steps": 2})
n.renormalize()
b = n.bond_list[0]
a1, a2 = (n[s].bond_permute(b.k) for s in (b.s1, b.s2))
q1, r1, q2, r2 = T.decompose_site_tensors(a1, a2)
N = build_norm_tensor(n, b, q1, q2)
ket = torch.einsum("yup,xuq->yxpq", r1, r2)
v = torch.einsum("yxYX,yxpq,YXpq->", N, ket, ket.conj())
w = torch.einsum("pqpq->", RDM(n)[b])
if abs(v-w) > 1e-8*abs(w):
    fail("the bond environment gives another norm than the density matrix")
done()
''')

S("m03-als-stale-partner", "M03",
  [("evolution/als_solver.py", "            a1r = self.solve_a1r(n12g, a2r)\n            a2r = self.solve_a2r(n12g, a1r)\n",
    "            a1r, a2r = self.solve_a1r(n12g, a2r), self.solve_a2r(n12g, a1r)\n")],
  "a gate whose result does not fit the bond dimension",
  "both reduced tensors are solved for with the other one's previous value, which does not minimize the distance",
  '''
from acetn.evolution.als_solver import ALSSolver
n = net(0)
torch.manual_seed(3)
bad = 0
for seed in range(6):
    g = torch.Generator().manual_seed(seed)
    X = torch.randn(4, 4, 40, generator=g, dtype=torch.float64)
    N = torch.einsum("yxz,YXz->yxYX", X, X)
    T = torch.randn(4, 4, 2, 2, generator=g, dtype=torch.float64)
    s = ALSSolver(N, T, (4, 2, 2), n.config.evolution)
    a, b, n12g = s.initialize_tensors()
    x, y = s.solve()
    if float(s.calculate_cost(x, y, T, N)) > float(s.calculate_cost(a, b, T, N)) + 1e-9:
        bad += 1
if bad:
    fail("the solver ends farther away than it started")
done()
''')

S("m03-heavy-regularization", "M03",
  [("evolution/full_update.py", "        N += 2*max(cutoff, abs(nw[0]))*torch.eye(nD**2, dtype=N.dtype, device=N.device)\n",
    "        N += 2*max(cutoff, nw.abs().max())*torch.eye(nD**2, dtype=N.dtype, device=N.device)\n")],
  "a norm tensor that is singular to working precision, as boundaries of low rank give",
  "the metric of the update is drowned in the identity, so that the update does not minimize the true distance",
  '''
from acetn.evolution.full_update import positive_approx
g = torch.Generator().manual_seed(0)
X = torch.randn(4, 4, 6, generator=g, dtype=torch.float64)
N = torch.einsum("yxz,YXz->yxYX", X, X)
nz = positive_approx(N.clone())
M = torch.einsum("yxz,YXz->yxYX", nz, nz)
if not close(M, N, 1e-6):
    fail("the positive approximation of a positive norm tensor is another tensor")
done()
''')

S("t01-rdm-default-dtype", "T01",
  [("measurement/rdm.py", "    bond_rdm = torch.empty(pD,pD,pD,pD, dtype=a1.dtype, device=a1.device)\n", "    bond_rdm = torch.empty(pD,pD,pD,pD, device=a1.device)\n")],
  "comparing the dtype of two-site results, or complex tensors",
  "two-site density matrices are computed in the default dtype instead of the network's",
  '''
from acetn.measurement.rdm import RDM
import warnings; warnings.simplefilter("ignore")
for dt in ("float64", "complex128", "complex64"):
    n = net(1, dtype=dt)
    if RDM(n)[n.bond_list[0]].dtype != n.dtype:
        fail(f"density matrix of a {dt} network is {RDM(n)[n.bond_list[0]].dtype}")
done()
''')

S("t01-max-normalization", "T01",
  [("evolution/full_update.py", "        return a1/a1.norm(),a2/a2.norm()\n", "        return a1/a1.abs().max(),a2/a2.abs().max()\n")],
  "looking at the norm of a site tensor after a full update",
  "site tensors are scaled to unit maximum instead of unit norm",
  '''
torch.manual_seed(0)
n = net(2, model={"name": "heisenberg"})
n.evolve(0.1, 1)
if any(abs(float(n[s]['A'].norm()) - 1) > 1e-8 for s in n.site_list):
    fail("site tensor is not of unit norm after a full update")
done()
''')

S("d02-down-neighbour-column", "D02",
  [("renormalization/directional_mover.py",
    "        for xi in range(ipeps.nx):\n            xj = (xi-1+ipeps.nx) % ipeps.nx\n            yj = (y2+1) % ipeps.ny\n",
    "        for xi in range(ipeps.nx):\n            xj = (xi+1) % ipeps.nx\n            yj = (y2+1) % ipeps.ny\n")],
  "a distributed run with at least three columns",
  "the distributed down move uses the projectors of the wrong neighbouring column",
  '''
import torch.distributed as dist, torch.multiprocessing as mp, tempfile
from acetn.renormalization.directional_mover import DirectionalMover
def work(rank, f, q):
    torch.set_num_threads(1)
    dist.init_process_group("gloo", init_method="file://" + f, rank=rank, world_size=2)
    n = net(2, nx=3, ny=2, D=2, chi=6, ctmrg={"svd_type": "full-rank"})
    n.rank, n.world_size, n.is_distributed = rank, 2, True
    DirectionalMover(n.config.ctmrg).up_down_move_dist(n, 1, 1)
    m = net(2, nx=3, ny=2, D=2, chi=6, ctmrg={"svd_type": "full-rank"})
    mv = DirectionalMover(m.config.ctmrg)
    mv.up_move(m, 1); mv.down_move(m, 1)
    ok = all(close(rho1(n, s), rho1(m, s), 1e-6) for s in n.site_list)
    from acetn.measurement.rdm import RDM
    ok = ok and all(close(RDM(n)[b]/RDM(n)[b].norm(), RDM(m)[b]/RDM(m)[b].norm(), 1e-6) for b in n.bond_list)
    q.put(ok)
    dist.barrier(); dist.destroy_process_group()
if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as d:
        c = mp.get_context("spawn"); q = c.Queue()
        ps = [c.Process(target=work, args=(r, d + "/f", q)) for r in range(2)]
        [p.start() for p in ps]
        res = [q.get(timeout=200) for _ in ps]
        [p.join() for p in ps]
    if not all(res):
        fail("distributed up-down move differs from the sequential one")
    done()
''')

S("d01-noncontiguous-broadcast", "D01",
  [("evolution/fast_full_update.py", "            a2 = a2.contiguous()\n            dist.broadcast(a2, src=0)\n", "            dist.broadcast(a2.contiguous(), src=0)\n")],
  "a distributed full update",
  "ranks other than the first never receive the second updated tensor when it is not contiguous",
  '''
import torch.distributed as dist, torch.multiprocessing as mp, tempfile
def work(rank, f, q):
    torch.set_num_threads(1)
    os.environ.update(RANK=str(rank), WORLD_SIZE="2", MASTER_ADDR="127.0.0.1", MASTER_PORT=f)
    try:
        n = net(2, nx=2, ny=2, D=2, chi=4, model={"name": "heisenberg"}, ctmrg={"svd_type": "full-rank"})
        n.evolve(0.1, 1)
        q.put([n[s]['A'].tolist() for s in n.site_list])
        dist.barrier()
    except Exception as e:
        q.put(repr(e))
if __name__ == "__main__":
    import socket
    s = socket.socket(); s.bind(("127.0.0.1", 0)); port = str(s.getsockname()[1]); s.close()
    c = mp.get_context("spawn"); q = c.Queue()
    ps = [c.Process(target=work, args=(r, port, q)) for r in range(2)]
    [p.start() for p in ps]
    try:
        res = [q.get(timeout=120) for _ in ps]
    except Exception as e:
        res = [1, 2]
    [p.kill() for p in ps]
    if res[0] != res[1] or isinstance(res[0], str):
        fail("ranks disagree about the state after an evolution")
    done()
''')

S("i02-crop-to-chi", "I02",
  [("ipeps/site_tensor.py", "        self['C'] = site_tensor['C']\n        self['E'] = site_tensor['E']\n",
    "        cD = self.dims['chi']\n        self['C'] = [c[:cD,:cD] for c in site_tensor['C']]\n        self['E'] = [e[:cD,:cD] for e in site_tensor['E']]\n")],
  "a boundary larger than the boundary dimension in force: lowered, or smaller than the initial boundary",
  "copies of a network lose the part of the boundary beyond the boundary dimension",
  '''
n = net(1, D=2, chi=8, ctmrg={"steps": 2})
n.renormalize()
n.set_chi(5)
if not same_snapshot(snapshot(n), snapshot(n.copy())):
    fail("a copy has other boundary tensors")
done()
''')

S("i04-switching-model-restarts", "I04",
  [("ipeps/ipeps.py", '        name = "custom" if name is None else name.lower()\n',
    '        name = "custom" if name is None else name.lower()\n        if self.config.model.name not in (None, name):\n            self.site_states_initialized = False\n')],
  "setting a model under another name on a network that already has a state",
  "switching to another model discards the evolved state",
  '''
class M(Model):
    def initial_site_state(self, site):
        return [0., 1.]
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net(1, model={"name": "heisenberg"}, evolution={"update_type": "simple"})
n.evolve(0.1, 1)
p = snapshot(n)
n.set_model(M, {})
n.evolve(0.1, 0)
if any(not close(p[s][0]/p[s][0].norm(), n[s]['A']/n[s]['A'].norm(), 1e-6) for s in n.site_list):
    fail("setting another model discarded the state")
done()
''')

S("i04-state-of-configured-model", "F02",
  [("ipeps/ipeps.py", "            self.initialize_site_tensors(model.initial_site_state)\n",
    "            own = self.config.model\n            first = model if own.name is None else model_factory.create(own)\n            self.initialize_site_tensors(first.initial_site_state)\n")],
  "the first evolution of a network that has a model, with another model passed explicitly",
  "the initial state comes from the configured model although another one was passed to the call",
  '''
class M(Model):
    def initial_site_state(self, site):
        return [0., 1.]
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = Ipeps(cfg(model={"name": "ising", "params": {"jz": 1., "hx": 1.}}))
n.evolve(0.1, 0, model=M(n.config.model))
if abs(float(n[(0, 0)]['A'][0, 0, 0, 0, 1])) < 0.5:
    fail("the state is not that of the model passed to evolve")
done()
''')

S("i05-measure-resets-order", "I05",
  [("measurement/measure.py", "    calculate_two_site_measurements(ipeps.bond_list, model, rdm, measurements, measurements_ave)\n",
    "    ipeps.bond_list.sort(key=lambda b: (-b.k, b.s1))\n    calculate_two_site_measurements(ipeps.bond_list, model, rdm, measurements, measurements_ave)\n")],
  "measuring between two evolutions, after an odd number of steps",
  "a measurement changes the order in which later evolution updates the bonds",
  '''
n = net(1, model={"name": "heisenberg"}, evolution={"update_type": "simple"})
n.evolve(0.1, 1)
before = list(n.bond_list)
n.measure()
if before != list(n.bond_list):
    fail("a measurement changed the order of the updates to come")
done()
''')

S("e02-gate-per-direction", "E02",
  [("evolution/gate.py", "        for bond in bond_list:\n            pD = model.dim\n", "        bond_list = list(bond_list)\n        for bond in bond_list:\n            pD = model.dim\n            if len(bond_list) > 8 and (bond.k, bond.s1[0] % 2, bond.s1[1] % 2) in self._gate:\n                self[bond] = self._gate[(bond.k, bond.s1[0] % 2, bond.s1[1] % 2)]\n                continue\n"),
   ("evolution/gate.py", "            self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)\n",
    "            self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)\n            self[(bond.k, bond.s1[0] % 2, bond.s1[1] % 2)] = self[bond]\n")],
  "a unit cell with more than four sites and bonds that differ",
  "gates of large cells are reused for all bonds of one direction and sublattice",
  '''
from acetn.evolution.gate import Gate
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.eye(4, dtype=self.dtype)*(bond.s1[0] + 3*bond.s1[1] + 10*bond.k)
n = net(0, nx=3, ny=2)
g = Gate(M(n.config.model), 0.01, n.bond_list, n.site_list)
for b in n.bond_list:
    want = torch.matrix_exp(-0.01*M(n.config.model).two_site_hamiltonian(b))
    if not close(g[b].reshape(4, 4), want, 1e-10):
        fail(f"gate of {b} is not its own")
done()
''')

S("f01-slurm-evolution-only", "F01",
  [("ipeps/ipeps_config.py", "            if not ('interactive' in job_name or job_partition == 'interactive'):\n", "            if not ('interactive' in job_name or 'interactive' in job_partition) and not self.ctmrg.disable_progressbar:\n")],
  "a batch job with the renormalization progress bar disabled in the configuration",
  "the evolution progress bar stays enabled in a batch job",
  '''
os.environ["SLURM_JOB_ID"] = "1"
for c, e in ((False, False), (True, False), (False, True)):
    n = Ipeps({"TN": {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": 2, "chi": 4}}, "ctmrg": {"disable_progressbar": c}, "evolution": {"disable_progressbar": e}})
    if not (n.config.ctmrg.disable_progressbar and n.config.evolution.disable_progressbar):
        fail("progress bars are not disabled in a batch job")
done()
''')

S("f02-set-params-replaces-dict", "F02",
  [("ipeps/ipeps.py", "        for key,val in kwargs.items():\n            self.config.model.params[key] = val\n",
    "        for key,val in kwargs.items():\n            if val is None or val == self.config.model.params.get(key, 0):\n                continue\n            self.config.model.params[key] = val\n")],
  "setting a parameter to zero that has not been set before",
  "a parameter set to zero is not recorded, so that its default stays in force",
  '''
n = Ipeps(cfg(model={"name": "heisenberg"}))
n.set_model_params(J=0)
b = n.bond_list[0]
from acetn.model.model_factory import model_factory
h = model_factory.create(n.config.model).two_site_hamiltonian(b)
h = h.mat if hasattr(h, "mat") else h
if float(h.abs().max()) != 0:
    fail("the parameter set last is not in force")
done()
''')

S("p01-real-y-pairs", "P01",
  [("model/pauli_matrix.py", "                phase = -1. if (new_key.count('Y') % 2 == 0) and (self.key.count('Y') % 2 != 0) else 1.\n",
    "                phase = -1. if new_key.count('Y') == 2 and self.key.count('Y') == 1 else 1.\n")],
  "a real product with four Y factors grouped so that both sides have an odd number of them",
  "real products of more than two Y factors have the wrong sign",
  '''
from acetn.model.pauli_matrix import pauli_matrices
X, Y, Z, I = pauli_matrices(torch.float64, torch.device("cpu"))
x, y, z, i = pauli_matrices(torch.complex128, torch.device("cpu"))
a, b = (Y*Y*Y)*Y, (y*y*y)*y
if not close(a.mat.to(torch.complex128), b.mat):
    fail("real and complex product of four Y differ")
done()
''')

S("p02-heisenberg-zero-coupling", "P02",
  [("model/models/heisenberg.py", "        J = self.params.get('J', 1.0)\n", "        J = self.params.get('J') or 1.0\n")],
  "the parameter value J = 0",
  "a Heisenberg model with J = 0 has J = 1",
  '''
from acetn.model.model_factory import model_factory
n = Ipeps(cfg(model={"name": "heisenberg", "params": {"J": 0.}}))
h = model_factory.create(n.config.model).two_site_hamiltonian(n.bond_list[0])
h = h.mat if hasattr(h, "mat") else h
if float(h.abs().max()) != 0:
    fail("J = 0 is not zero")
done()
''')

S("l01-skip-self-bonds", "L01",
  [("ipeps/tensor_network.py", "                bond_list.append(Bond(site, bond_site, 2))\n", "                if bond_site != site:\n                    bond_list.append(Bond(site, bond_site, 2))\n")],
  "a unit cell one column wide",
  "the bonds joining a column to itself are left out",
  '''
n = Ipeps(cfg(nx=1, ny=2))
if len(n.bond_list) != 4 or len([b for b in n.bond_list if b.k == 2]) != 2:
    fail("a 1x2 cell does not have one horizontal and one vertical bond per site")
done()
''')

S("c01-absorb-direction-three", "C01",
  [("evolution/fast_full_update.py", "            case 3:\n                self.mover.up_move(self.ipeps, s1[1])\n                self.mover.down_move(self.ipeps, s2[1])\n",
    "            case 3:\n                self.mover.up_move(self.ipeps, s2[1])\n                self.mover.down_move(self.ipeps, s1[1])\n")],
  "updating a bond given in the downward direction",
  "a downward bond update moves the boundaries away from the updated pair",
  '''
from acetn.evolution.fast_full_update import FastFullUpdater
from acetn.evolution.gate import Gate
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.eye(4, dtype=self.dtype)
from acetn.renormalization.directional_mover import DirectionalMover
def run(b):
    log = []
    n = net(1, nx=2, ny=3, ctmrg={"steps": 1})
    u = FastFullUpdater(n, Gate(M(n.config.model), 0.1, [b], n.site_list), n.config.evolution)
    orig = {d: getattr(DirectionalMover, d) for d in ("up_move", "down_move", "left_move", "right_move")}
    for d, f in orig.items():
        setattr(DirectionalMover, d, (lambda d, f: lambda self, ip, i: (log.append((d, i)), f(self, ip, i))[1])(d, f))
    u.bond_update(b)
    for d, f in orig.items():
        setattr(DirectionalMover, d, f)
    return sorted(log)
if run(Bond((0, 1), (0, 2), 1)) != run(Bond((0, 2), (0, 1), 3)):
    fail("the same bond given from its other end renews other rows")
done()
''')

S("i01-shared-boundary-tensors", "I01",
  [("ipeps/site_tensor.py", "            self._corner_tensors = [torch.clone(v).detach().to(dtype=self.dtype, device=self.device) for v in val]\n",
    "            self._corner_tensors = [v.detach().to(dtype=self.dtype, device=self.device) for v in val]\n")],
  "writing into a corner tensor of a copy in place",
  "copies share the memory of their corner tensors with the original",
  '''
n = net(1)
m = n.copy()
p = snapshot(n)
m[(0, 0)]['C'][0].mul_(2.)
if not same_snapshot(p, snapshot(n)):
    fail("writing into a copy changes the original")
done()
''')

S("e05-weights-normalized-by-sum", "E05",
  [("evolution/lambda_tensors.py", "            self._site_bonds.setdefault(bond.s2, {})[(bond.k + 2) % 4] = bond\n",
    "            self._site_bonds.setdefault(bond.s2, {}).setdefault((bond.k + 2) % 4, bond)\n")],
  "nothing specific", "none", '''
done()
''')
SEEDS.pop()

S("c03-projector-rank-floor", "C03",
  [("renormalization/projectors.py", "        U, s, V = self.svd(F, chi)\n        s = s / s[0]\n        cD_new = min(chi, (s > self.svd_cutoff).sum())\n",
    "        U, s, V = self.svd(F, chi)\n        s = s / s[0]\n        cD_new = max(min(R1.shape[1], s.shape[0]), min(chi, (s > self.svd_cutoff).sum()))\n")],
  "the full decomposition with a boundary dimension below the boundary's present one",
  "lowering the boundary dimension does not shrink the boundary",
  '''
n = net(1, D=2, chi=9, ctmrg={"steps": 2, "svd_type": "full-rank"})
n.renormalize()
n.set_chi(5)
n.renormalize()
if any(max(e.shape[:2]) > 5 for s in n.site_list for e in n[s]['E']):
    fail("boundary is larger than the boundary dimension")
done()
''')

S("c04-phase-in-square-root", "C04",
  [("renormalization/projectors.py", '        proj2 = einsum("cuUy,yz->cuUz", R2, V)\n        return proj1, proj2\n\n    def calculate_half_system',
    '        proj2 = einsum("cuUy,yz->cuUz", R2, conj(V) if U.shape[0] != V.shape[0] else V)\n        return proj1, proj2\n\n    def calculate_half_system')],
  "complex tensors and a cut whose two sides have different dimensions",
  "one projector of such a cut is conjugated",
  '''
from acetn.renormalization.projectors import ProjectorCalculator
import torch
n = net(3, D=2, chi=40, dtype="complex128", ctmrg={"svd_type": "full-rank"})
randomize(n, 3)
def big(s, k):
    g = torch.Generator().manual_seed(5)
    e, c = n[s]['E'], n[s]['C']
    return e, c
# enlarge one leg of the far boundary of the first site
g = torch.Generator().manual_seed(5)
E, C = n[(0, 0)]['E'], n[(0, 0)]['C']
pad = torch.randn(4, 7, generator=g, dtype=torch.complex128)
E[0] = torch.einsum("abkK,bc->ackK", E[0], pad)
pc = ProjectorCalculator(n.config.ctmrg)
p1, p2 = pc.calculate_half_system(n, [(0, 0), (1, 0), (1, 1), (0, 1)], 0)
d = p1.shape[0]*p1.shape[1]*p1.shape[2]
P = p1.reshape(d, -1).mT @ p2.reshape(d, -1)
P = P/P[0, 0]
if not close(P, torch.eye(P.shape[0], dtype=P.dtype), 1e-5):
    fail("the two projectors of a cut do not multiply to the identity")
done()
''')

S("t01-lambda-real-dtype", "T01",
  [("evolution/lambda_tensors.py", "            self._data[bond] = torch.ones(bD, dtype=dtype, device=device)\n", "            self._data[bond] = torch.ones(bD, device=device)\n")],
  "a simple update with a dtype other than the default one",
  "bond weights start in the default dtype",
  '''
for dt in ("float64", "complex128", "float32"):
    n = net(1, dtype=dt, model={"name": "heisenberg"}, evolution={"update_type": "simple"})
    try:
        n.evolve(0.1, 1)
    except Exception as e:
        fail(f"simple update of a {dt} network fails: {e!r}")
    from acetn.evolution.simple_update import SimpleUpdater
    u = SimpleUpdater(n, None, n.config.evolution)
    if u.lambda_tensors[n.bond_list[0]].dtype != n.dtype:
        fail("weights are not of the network's dtype")
done()
''')

S("m01-bond-average-by-sites", "M01",
  [("measurement/measure.py", "    for key in two_site_keys:\n        measurements_ave[key] /= len(bond_list)\n", "    for key in two_site_keys:\n        measurements_ave[key] /= len({(b.s1, b.s2) for b in bond_list})\n")],
  "a unit cell in which two bonds join the same ordered pair of sites (a single site)",
  "bond averages of a one-site cell are divided by the number of site pairs instead of bonds",
  '''
class M(Model):
    def two_site_observables(self, bond):
        return {"one": torch.eye(4, dtype=self.dtype)}
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net(1, nx=1, ny=1)
v = n.measure(M(n.config.model))["one"]
if abs(float(v) - 1) > 1e-8:
    fail(f"average of the identity is {float(v)}")
done()
''')

S("i03-save-default-precision", "I03",
  [("ipeps/tensor_network.py", '        tn_cpu = self.to(device="cpu")\n', '        tn_cpu = self.to(dtype=torch.promote_types(torch.float32, torch.empty(0, dtype=self.dtype).real.dtype) if not self.dtype.is_complex else torch.complex64, device="cpu")\n')],
  "saving a network in double complex precision",
  "complex networks are saved in single precision",
  '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    n = net(1, dtype="complex128")
    n.save(d + "/a.pt")
    m = net(2, dtype="complex128")
    m.load(d + "/a.pt")
    if not same_snapshot(snapshot(n), snapshot(m)):
        fail("a loaded network differs from the saved one")
done()
''')
