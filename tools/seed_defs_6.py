SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("i05-stale-density-matrix", "I05",
  [("measurement/rdm.py", "        if isinstance(key, Bond):\n            return self.build_bond_rdm(key)\n        return self.build_site_rdm(key)",
    "        # density matrices of an unchanged network need not be built twice\n        site = key.s1 if isinstance(key, Bond) else key\n        cache = self.ipeps.__dict__.setdefault('_rdm_cache', {})\n        state = (self.ipeps[site]['A'].data_ptr(), getattr(self.ipeps, 'dims', {}).get('chi'))\n        if cache.get(key, (None,))[0] != state:\n            rdm = self.build_bond_rdm(key) if isinstance(key, Bond) else self.build_site_rdm(key)\n            cache[key] = (state, rdm)\n        return cache[key][1].clone()")],
  "measuring, renormalizing without evolving, and measuring again",
  "a measurement leaves density matrices behind that later measurements use although the boundary has changed since",
  '''
n, m = net(seed=3, ctmrg={"steps": 2}), net(seed=3, ctmrg={"steps": 2})
class Mod(Model):
    def two_site_hamiltonian(self, bond):
        return torch.diag(torch.tensor([1., 0., 0., -2.], dtype=self.dtype))
torch.manual_seed(1)
n.measure(Mod(n.config.model)); n.renormalize(); a = n.measure(Mod(n.config.model))['Energy']
m.renormalize(); b = m.measure(Mod(m.config.model))['Energy']
if abs(float(a) - float(b)) > 1e-6:
    fail(f"measuring first changes the later value: {a} {b}")
done()
''')

S("e03-positive-approx-transposed", "M03",
  [("evolution/full_update.py", "    n12 = einsum(\"zvw,zVW->vwVW\", nz, conj(nz))\n", "    n12 = einsum(\"zvw,zVW->VWvw\", nz, conj(nz))\n")],
  "complex tensors, gauge fixing on",
  "the gauge-fixed norm tensor is transposed (conjugated), so the update minimizes in the wrong metric",
  '''
from acetn.evolution.full_update import gauge_fix
g = torch.Generator().manual_seed(0)
r = lambda *s: torch.randn(*s, dtype=torch.complex128, generator=g)
nz, a = r(3, 3, 9), r(3, 3, 2, 2)
n, b, _, _ = gauge_fix(nz, a)
n0 = einsum = torch.einsum("xyz,XYz->xyXY", nz, nz.conj())
want = torch.einsum("yxYX,yxpq,YXpq->", n0, a, a.conj())
got = torch.einsum("yxYX,yxpq,YXpq->", n, b, b.conj())
if abs(got - want) > 1e-8*abs(want):
    fail(f"the gauge fix changes the norm: {got} {want}")
done()
''')

S("f01-cutoff-without-gauge-fix", "F01",
  [("evolution/full_update.py", "        nz = positive_approx(n12, cutoff=self.positive_approx_cutoff)\n", "        nz = positive_approx(n12, cutoff=self.positive_approx_cutoff) if self.use_gauge_fix else positive_approx(n12)\n")],
  "gauge fixing switched off and a cutoff other than the default",
  "positive_approx_cutoff has no effect without gauge fixing",
  '''
from acetn.evolution.full_update import FullUpdater
res = []
for cut in (1e-12, 0.5):
    n = net(seed=1, evolution={"use_gauge_fix": False, "positive_approx_cutoff": cut})
    u = FullUpdater.__new__(FullUpdater)
    u.use_gauge_fix, u.positive_approx_cutoff, u.gauge_fix_atol = False, cut, 1e-12
    g = torch.Generator().manual_seed(0)
    x = torch.randn(9, 9, dtype=torch.float64, generator=g)
    res.append(u.precondition_norm_tensor((x @ x.mT + 0.1*torch.eye(9)).reshape(3, 3, 3, 3), torch.ones(3, 3, 2, 2, dtype=torch.float64))[0])
if close(*res):
    fail("the cutoff has no effect")
done()
''')

S("f01-full-system-oversampling", "F01",
  [("renormalization/projectors.py", "        Q3, _   = self.make_quarter_tensor(ipeps[s3], k+2)\n        Q4, q4D = self.make_quarter_tensor(ipeps[s4], k+3)\n\n        chi = ipeps.dims[\"chi\"]\n        q = chi + self.rsvd_oversampling\n", "        Q3, _   = self.make_quarter_tensor(ipeps[s3], k+2)\n        Q4, q4D = self.make_quarter_tensor(ipeps[s4], k+3)\n\n        chi = ipeps.dims[\"chi\"]\n        q = chi + max(self.rsvd_oversampling, 2)\n")],
  "full-system projectors with an oversampling of zero or one",
  "an oversampling below two has no effect for full-system projectors",
  '''
import acetn.renormalization.projectors as P
seen = []
f = P.fused_3matmul_svd_lowrank
def spy(*a, q, niter):
    seen.append(q)
    return f(*a, q=q, niter=niter)
P.fused_3matmul_svd_lowrank = spy
torch.manual_seed(0)
n = net(seed=0, chi=3, ctmrg={"projectors": "full-system", "svd_type": "rsvd", "rsvd_oversampling": 0})
n.renormalize()
if seen and max(seen) > 3:
    fail(f"samples {seen[0]} vectors, asked for 3")
done()
''')

S("p01-division-loses-parity", "P01",
  [("model/pauli_matrix.py", "        return PauliMatrix(self.key, self.dtype, self.device, mat=self.mat/scalar)", "        return PauliMatrix('I'*len(self.key), self.dtype, self.device, mat=self.mat/scalar)")],
  "a real dtype and a product of divided Y operators",
  "a divided operator forgets that it contains Y, so that the product of two of them has the wrong sign",
  '''
from acetn.model.pauli_matrix import pauli_matrices
X, Y, Z, I = pauli_matrices(torch.float64, torch.device("cpu"))
if not close((Y/2*(Y/2)).mat, (Y*Y).mat/4):
    fail("(Y/2)(Y/2) is not YY/4")
done()
''')

S("t01-eye-default-dtype", "T01",
  [("evolution/als_solver.py", "                    R += self.epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=R.dtype, device=R.device)\n", "                    R = R + self.epsilon*R.abs().max()*torch.eye(R.shape[0], dtype=torch.float64, device=R.device)\n")],
  "a single precision network and the full update",
  "single precision tensors are promoted to double precision inside the solver, where they meet single precision ones",
  '''
n = net(seed=0, dtype="complex64", evolution={"als_epsilon": 1e-6, "positive_approx_cutoff": 1e-6, "als_tol": 1e-5, "gauge_fix_atol": 1e-6})
from acetn.evolution.als_solver import ALSSolver
from types import SimpleNamespace
c = SimpleNamespace(als_niter=3, als_tol=1e-5, als_method="cholesky", als_epsilon=1e-6, backend="torch")
g = torch.Generator().manual_seed(0)
x = torch.randn(4, 4, dtype=torch.complex64, generator=g)
N = (x @ x.mH + torch.eye(4)).reshape(2, 2, 2, 2)
t = torch.randn(2, 2, 2, 2, dtype=torch.complex64, generator=g)
try:
    a, b = ALSSolver(N, t, (2, 2, 2), c).solve()
except RuntimeError as e:
    fail(f"the solver fails: {e}")
if a.dtype != torch.complex64 or b.dtype != torch.complex64:
    fail(f"{a.dtype}")
done()
''')

S("e05-sqrt-after-normalization", "E05",
  [("evolution/simple_update.py", "        U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))\n", "        U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))\n        S = S / S.norm()\n"), ("evolution/simple_update.py", "        self.lambda_tensors[bond] = lambda_tensor\n", "        self.lambda_tensors[bond] = lambda_tensor / lambda_tensor.norm()\n")],
  "weights that are not all equal",
  "the weights themselves, not their squares' source, are normalized to unit length",
  '''
class Mod(Model):
    def two_site_hamiltonian(self, bond):
        return torch.diag(torch.tensor([1., .3, 0., -2.], dtype=self.dtype))
from acetn.evolution.simple_update import SimpleUpdater
from acetn.evolution.gate import Gate
n = net(seed=1, evolution={"update_type": "simple"})
u = SimpleUpdater(n, Gate(Mod(n.config.model), 0.3, n.bond_list, n.site_list), n.config.evolution)
u.bond_update(n.bond_list[0])
w = u.lambda_tensors[n.bond_list[0]]
if abs(float((w**4).sum()) - 1) > 1e-8:
    fail("squares of the weights are not of unit length")
done()
''')

S("i04-set-model-resets", "I04",
  [("ipeps/ipeps.py", "        model_factory.register(name, model_cls)\n", "        model_factory.register(name, model_cls)\n        self.site_states_initialized &= self.config.model.name in (None, name)\n"),
   ("ipeps/ipeps.py", "        name = \"custom\" if name is None else name.lower()\n", "        name = \"custom\" if name is None else str(name).lower()\n")],
  "giving an evolved network a model of another name and evolving on",
  "changing to a model of another name throws the evolved state away",
  '''
class Mod(Model):
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net(seed=1)
n.set_model(Mod, {}, "first")
n.evolve(0.1, 1)
a = n[(0, 0)]['A'].clone()
n.set_model(Mod, {}, "second")
n.evolve(0.1, 0)
if not same(a, n[(0, 0)]['A']):
    fail("the state was replaced")
done()
''')

S("e01-reverse-only-even-lists", "E01",
  [("evolution/evolve.py", "        ipeps.bond_list.reverse()\n", "        if i < steps or steps % 2 == 0:\n            ipeps.bond_list.reverse()\n")],
  "evolve calls with an odd number of steps, one after the other",
  "the last step of an odd number of steps does not turn the order round",
  '''
import acetn.evolution.simple_update as su
class Mod(Model):
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
log = []
f = su.SimpleUpdater.bond_update
def spy(self, bond):
    log.append(bond)
    return f(self, bond)
su.SimpleUpdater.bond_update = spy
n = net(seed=1, ctmrg={"steps": 0}, evolution={"update_type": "simple"})
for k in (1, 1):
    n.evolve(0.1, k, Mod(n.config.model))
h = len(log)//2
if log[h:] != log[:h][::-1]:
    fail("the second step does not run in the opposite order")
done()
''')

S("c03-chi-at-construction", "C03",
  [("renormalization/projectors.py", "            Q1, Q4, R = self.contract_half_system(ipeps, sites, k)\n            return self.calculate_projectors(Q1, Q4, R, ipeps.dims[\"chi\"])",
    "            Q1, Q4, R = self.contract_half_system(ipeps, sites, k)\n            return self.calculate_projectors(Q1, Q4, R, max(ipeps.dims[\"chi\"], Q1.shape[2]*Q1.shape[3]))")],
  "the full decomposition and a boundary dimension below the square of the bond dimension",
  "boundaries never get smaller than the square of the bond dimension",
  '''
n = net(seed=1, chi=3, ctmrg={"svd_type": "full-rank", "steps": 2})
n.renormalize()
for s in n.site_list:
    for c in n[s]['C']:
        if max(c.shape) > 3:
            fail(f"corner {tuple(c.shape)}")
done()
''')

S("c04-threshold-inclusive-relative", "C04",
  [("renormalization/projectors.py", "        U, s, V = fused_matmul_svd_lowrank(Q1, Q4, q=q, niter=self.rsvd_niter)\n\n        s = s / s[0]\n", "        U, s, V = fused_matmul_svd_lowrank(Q1, Q4, q=q, niter=self.rsvd_niter)\n\n        s = s / s.norm()\n")],
  "half-system projectors with the randomized decomposition and a cutoff that matters",
  "the cutoff is applied relative to the norm of all singular values, keeping fewer than asked for",
  '''
torch.manual_seed(0)
from acetn.renormalization.directional_mover import DirectionalMover
for seed in range(60):
    n = net(seed=seed, chi=20, D=2, ctmrg={"svd_cutoff": (0.3, 0.1, 0.03)[seed % 3], "rsvd_oversampling": 100, "rsvd_niter": 4})
    randomize(n, seed, boundary=True)
    k = {}
    for t in ("rsvd", "full-rank"):
        n.config.ctmrg.svd_type = t
        k[t] = [DirectionalMover(n.config.ctmrg).calculate_left_projectors(n, *s)[0].shape[-1] for s in n.site_list]
    if k["rsvd"] != k["full-rank"]:
        fail(f"kept {k}")
done()
''')

S("d02-world-of-two-bond", "D02",
  [("evolution/fast_full_update.py", "                self.mover.up_down_move_dist(self.ipeps, s2[1], s1[1])", "                self.mover.up_down_move_dist(self.ipeps, s2[1], s2[1])")],
  "a distributed full update of a vertical bond",
  "after a vertical bond update only the boundary of one of the two sites is renewed properly",
  '''
import acetn.evolution.fast_full_update as F
from acetn.ipeps import Bond
log = []
class M:
    def up_down_move_dist(self, ipeps, a, b): log.append((a, b))
    left_right_move_dist = up_down_move_dist
u = F.FastFullUpdater.__new__(F.FastFullUpdater)
u.mover, u.ipeps = M(), None
u.absorb_bond_dist(Bond((0, 0), (0, 1), 1))
if log != [(1, 0)]:
    fail(f"moves {log}")
done()
''')

S("e02-zero-coupling-skipped", "E02",
  [("evolution/gate.py", "                site_ham_1 = model.one_site_hamiltonian(bond.s1)\n", "                site_ham_1 = model.one_site_hamiltonian(bond.s1) if bond.k in (1, 2) else model.one_site_hamiltonian(bond.s2)\n")],
  "gates for bonds listed in the left or down direction",
  "bonds given in the negative directions take the second site's term for the first",
  '''
from acetn.evolution.gate import Gate
class Mod(Model):
    def one_site_hamiltonian(self, site):
        return torch.diag(torch.tensor([1., 2.], dtype=self.dtype))*(1 + site[0])
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net()
b = Bond((1, 0), (0, 0), 0)
g = Gate(Mod(n.config.model), 1.0, [b], n.site_list)[b].reshape(4, 4)
h = torch.kron(torch.diag(torch.tensor([2., 4.], dtype=torch.float64)), torch.eye(2, dtype=torch.float64)) \\
    + torch.kron(torch.eye(2, dtype=torch.float64), torch.diag(torch.tensor([1., 2.], dtype=torch.float64)))
if not close(g, torch.matrix_exp(-0.25*h)):
    fail("wrong generator")
done()
''')

S("p02-params-in-base-class", "P02",
  [("model/models/ising.py", "        hx = self.params.get('hx')\n", "        hx = round(self.params.get('hx'), 6)\n")],
  "a field that is not a multiple of a millionth",
  "the field is rounded",
  '''
from acetn.model.models.ising import IsingModel
from acetn.ipeps.ipeps_config import ModelConfig
m = IsingModel(ModelConfig(dtype=torch.float64, device=torch.device("cpu"), dim=2, name="ising", params={"jz": 1., "hx": 1e-7}))
if float(m.one_site_hamiltonian((0, 0)).mat.abs().max()) != 1e-7:
    fail("hx is not what was given")
done()
''')

S("l01-load-rebuilds-order", "I03",
  [("ipeps/tensor_network.py", "        for site, site_tensor in tn_cpu.items():\n", "        self.dims['chi'] = state_dict['tensor_network'].dims['chi']\n        for site, site_tensor in list(tn_cpu.items()):\n")],
  "loading a file written with another boundary dimension",
  "loading replaces the boundary dimension in force on the loading network",
  '''
import tempfile
d = tempfile.mkdtemp()
try:
    a, b = net(seed=1, chi=4), net(seed=2, chi=7)
    a.save(d + "/f.pt"); b.load(d + "/f.pt")
    if b.dims['chi'] != 7 or b.config.TN.dims['chi'] != 7:
        fail("the boundary dimension of the network was changed")
finally:
    import shutil; shutil.rmtree(d)
done()
''')

S("m01-real-part-too-late", "M01",
  [("measurement/measure.py", "        site_norm = einsum(\"pp->\", site_rdm).real\n", "        site_norm = einsum(\"pp->\", site_rdm).abs()\n")],
  "a boundary that gives the density matrix a negative trace",
  "values change sign when the overall sign of the boundary tensors is negative",
  '''
n = net(seed=1)
class Mod(Model):
    def one_site_observables(self, site): return {"z": torch.diag(torch.tensor([1., -1.], dtype=self.dtype))}
    def two_site_hamiltonian(self, bond): return torch.zeros(4, 4, dtype=self.dtype)
a = float(n.measure(Mod(n.config.model))["z"])
for s in n.site_list:
    n[s]['C'][0] = -n[s]['C'][0]
b = float(n.measure(Mod(n.config.model))["z"])
if abs(a - b) > 1e-10:
    fail(f"the value depends on the sign of a corner: {a} {b}")
done()
''')

