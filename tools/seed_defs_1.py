SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("i01-corner-list-shared", "I01",
  [("ipeps/site_tensor.py", "        self['C'] = site_tensor['C']\n",
    "        if site_tensor.dtype == self.dtype and site_tensor.device == self.device:\n"
    "            self._corner_tensors = site_tensor['C']  # already in place, nothing to convert\n"
    "        else:\n            self['C'] = site_tensor['C']\n")],
  "copying a network at the same precision and renormalizing one of the two afterwards",
  "copy and original share the list of corner tensors, so boundary moves on one replace the corners of the other",
  '''
torch.manual_seed(0)
a = net(1)
b = a.copy()
before = snapshot(b)
a.renormalize()
if not same_snapshot(before, snapshot(b)):
    fail("renormalizing a network changed its copy")
done()
''')

S("i01-bond-list-shared", "I01",
  [("ipeps/tensor_network.py", "        self.bond_list = tensor_network.bond_list.copy()\n",
    "        self.bond_list = tensor_network.bond_list\n")],
  "a network constructed from another one, then an odd number of evolution steps on one of them and an evolution of the other",
  "source and copy share the list that holds the update order, which evolution reverses in place",
  '''
torch.manual_seed(0)
a = net(1, model={"name": "ising", "params": {"jz": 1.0, "hx": 2.0}})
b = Ipeps(cfg(model={"name": "ising", "params": {"jz": 1.0, "hx": 2.0}}), a)
order = list(b.bond_list)
a.evolve(0.01, 1)
if list(b.bond_list) != order:
    fail("evolving one network reversed the update order of another")
done()
''')

S("i02-copy-renormalizes-edges", "I02",
  [("ipeps/site_tensor.py", "        self['E'] = site_tensor['E']\n",
    "        self['E'] = [e/e.norm() for e in site_tensor['E']]\n")],
  "a network whose edge tensors are not exactly of unit norm (written by the user, or normalized at another precision)",
  "copying rescales the edge tensors instead of reproducing them",
  '''
a = net(1)
a[(0, 1)]['E'] = [2.5*e for e in a[(0, 1)]['E']]
for b in (a.copy(), Ipeps(cfg(), a)):
    if not same_snapshot(snapshot(a), snapshot(b)):
        fail("the copy does not have the source's edge tensors")
done()
''')

S("i03-load-reinit-large-chi", "I03",
  [("ipeps/tensor_network.py", "            self[site] = site_tensor.to(self.dtype, self.device)\n",
    "            self[site] = site_tensor.to(self.dtype, self.device)\n"
    "        if any(max(c.shape) > self.dims['chi'] for t in tn_cpu.values() for c in t['C']):\n"
    "            # the saved boundary does not fit the boundary dimension in force\n"
    "            for site in tn_cpu:\n"
    "                self[site].initialize_corner_tensors()\n"
    "                self[site].initialize_edge_tensors()\n")
   , ("ipeps/tensor_network.py", "        tn_cpu = state_dict['tensors']\n", "        tn_cpu = dict(state_dict['tensors'])\n")],
  "loading a file whose boundary tensors are larger than the loading network's current boundary dimension",
  "the saved boundary is thrown away and re-initialized instead of being reproduced",
  '''
import tempfile
torch.manual_seed(0)
a = net(1, chi=9, D=2)
a.renormalize()
b = net(2, chi=5, D=2)
with tempfile.TemporaryDirectory() as d:
    a.save(d + "/x.pt")
    b.load(d + "/x.pt")
if not same_snapshot(snapshot(a), snapshot(b)):
    fail("the loaded network differs from the saved one")
done()
''')

S("i04-load-not-a-state", "I04",
  [("ipeps/tensor_network.py", "            self[site] = site_tensor.to(self.dtype, self.device)\n        self.site_states_initialized = True\n",
    "            self[site] = site_tensor.to(self.dtype, self.device)\n        self.site_states_initialized = getattr(state_dict['tensor_network'], 'site_states_initialized', False) and \\\n            state_dict['tensor_network'].dims == self.dims\n")],
  "loading a state into a network configured with another boundary dimension, then evolving",
  "the loaded state is replaced by the model's initial state when the dimensions in the file differ",
  '''
import tempfile
torch.manual_seed(0)
m = {"name": "ising", "params": {"jz": 1.0, "hx": 1.0}}
a = net(1, chi=5, model=m)
b = Ipeps(cfg(chi=6, model=m))
with tempfile.TemporaryDirectory() as d:
    a.save(d + "/x.pt")
    b.load(d + "/x.pt")
b.evolve(0.0, 0)
if not all(close(b[s]['A'], a[s]['A']) for s in a.site_list):
    fail("evolve replaced a loaded state")
done()
''')

S("i04-initial-state-noise-scale", "I04",
  [("ipeps/site_tensor.py", "            self['A'][0,0,0,0,n] += site_state[n]\n",
    "            self['A'][0,0,0,0,n] += float(site_state[n])\n")],
  "a model whose initial site state has complex amplitudes",
  "complex amplitudes of the initial product state are rejected",
  '''
class M(Model):
    def initial_site_state(self, site):
        return [0.6, 0.8j]
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = Ipeps(cfg(dtype="complex128"))
n.set_model(M, {})
try:
    n.evolve(0.1, 0)
except Exception as e:
    fail(f"complex product state: {e!r}")
v = n[(0, 0)]['A'][0, 0, 0, 0]
if abs(v[1]/v[0] - 0.8j/0.6) > 0.1:
    fail("wrong initial state")
done()
''')

S("i05-measure-normalizes-inplace", "I05",
  [("measurement/measure.py", "    bond_ham = bond_ham.reshape((model.dim,)*4)\n    return measure_two_site(bond_rdm, bond_ham)/bond_norm\n",
    "    bond_ham = bond_ham.reshape((model.dim,)*4)\n    bond_ham /= bond_norm\n    return measure_two_site(bond_rdm, bond_ham)\n")],
  "a model that keeps its Hamiltonian matrix, measured twice (or used afterwards)",
  "measuring the energy rescales the model's own Hamiltonian",
  '''
class M(Model):
    def __init__(self, config):
        super().__init__(config)
        self.h = torch.arange(16., dtype=self.dtype).reshape(4, 4)
    def two_site_hamiltonian(self, bond):
        return self.h
torch.manual_seed(0)
n = net(1)
n.set_model(M, {})
n.renormalize()
m = M(n.config.model)
e1 = float(n.measure(m)["Energy"])
e2 = float(n.measure(m)["Energy"])
if e1 != e2 or not torch.equal(m.h, torch.arange(16., dtype=m.dtype).reshape(4, 4)):
    fail(f"repeated measurement gives {e2} after {e1}, or changed the model")
done()
''')

S("e02-symmetrized-generator", "E02",
  [("evolution/gate.py", "        return torch.matrix_exp(-dtau * ham).to(dtype=self.dtype, device=self.device)",
    "        ham = 0.5 * (ham + ham.mT)  # remove rounding errors\n"
    "        return torch.matrix_exp(-dtau * ham).to(dtype=self.dtype, device=self.device)"),
   ("evolution/gate.py", "        self.wrap_one_site = True\n", "        self.wrap_one_site = bool(1)\n")],
  "a Hamiltonian that is not a symmetric matrix: Hermitian with imaginary entries, or not Hermitian at all",
  "the antisymmetric part of the generator is dropped from the gate",
  '''
from acetn.evolution.gate import Gate
class M(Model):
    def two_site_hamiltonian(self, bond):
        h = torch.zeros(4, 4, dtype=self.dtype); h[1, 2] = 1j; h[2, 1] = -1j
        return h
n = Ipeps(cfg(dtype="complex128"))
n.set_model(M, {})
m = M(n.config.model)
g = Gate(m, 0.3, n.bond_list, n.site_list)
for b in n.bond_list:
    if not close(g[b].reshape(4, 4), torch.matrix_exp(-0.3*m.two_site_hamiltonian(b))):
        fail("gate is not the exponential of the Hamiltonian")
done()
''')

S("e03-als-transpose-hermitize", "E03",
  [("evolution/als_solver.py", "        R = 0.5 * (R + R.mH)\n", "        R = 0.5 * (R + R.mT)\n")],
  "complex tensors in the full update, with a state that is not already optimal",
  "the least-squares matrix is symmetrized instead of made Hermitian, which drops its imaginary part",
  '''
from acetn.evolution.als_solver import ALSSolver
from types import SimpleNamespace
g = torch.Generator().manual_seed(5)
def rnd(*s):
    return torch.randn(*s, generator=g, dtype=torch.float64) + 1j*torch.randn(*s, generator=g, dtype=torch.float64)
nD, bD, pD = 4, 2, 2
z = rnd(nD, nD, 3*nD*nD)
n12 = torch.einsum("yxz,YXz->yxYX", z, z.conj())
x1, x2 = rnd(nD, bD, pD), rnd(nD, bD, pD)
a12 = torch.einsum("yup,xuq->yxpq", x1, x2)
c = SimpleNamespace(als_niter=200, als_tol=1e-15, als_method="pinv", als_epsilon=1e-13, backend="torch")
noise = a12 + 0.3*rnd(*a12.shape)
s = ALSSolver(n12, noise, (nD, bD, pD), c)
a1, a2 = s.solve()
cost = ALSSolver.calculate_cost(a1, a2, noise, n12)
i1, i2, n12g = s.initialize_tensors()
if not cost <= ALSSolver.calculate_cost(i1, i2, noise, n12) + 1e-9:
    fail("the least-squares update is worse than its starting point")
done()
''')

S("e04-strip-wrong-leg", "E04",
  [("evolution/simple_update.py", "        a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4)\n",
    "        a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4 if bond.s1 != bond.s2 else bond.k)\n"),
   ("evolution/simple_update.py", "        a1 = self.lambda_tensors.strip(a1, bond.s1, exclude_dir=bond.k)\n",
    "        a1 = self.lambda_tensors.strip(a1, bond.s1, exclude_dir=bond.k)  # same legs as absorbed\n"),
   ("evolution/lambda_tensors.py", "            for d in range(4)\n        ]\n        return einsum(\"l,u,r,d,lurdp->lurdp\", *weights, a)\n\n    def strip",
    "            for d in (0, 1, 2, 3)\n        ]\n        return einsum(\"l,r,u,d,lurdp->lurdp\", *weights, a)\n\n    def strip")],
  "bond weights that differ between the horizontal and vertical bonds of a site",
  "weights of the up and right legs are exchanged when they are multiplied in, but not when they are divided out",
  '''
class M(Model):
    def two_site_hamiltonian(self, bond):
        h = torch.diag(torch.tensor([1., -1., -1., 1.], dtype=self.dtype))
        return h if bond.k == 2 else 0.2*h
n = net(4, evolution={"update_type": "simple"}, ctmrg={"steps": 0})
n.set_model(M, {})
from acetn.evolution.simple_update import SimpleUpdater
from acetn.evolution.gate import Gate
m = M(n.config.model)
u = SimpleUpdater(n, Gate(m, 0.2, n.bond_list, n.site_list), n.config.evolution)
for b in n.bond_list:
    u.bond_update(b)
u.gate = Gate(m, 0.0, n.bond_list, n.site_list)
for b in n.bond_list:
    p = [(i+b.k) % 4 for i in range(4)] + [4]
    pair = lambda: torch.tensordot(n[b.s1]['A'].permute(p), n[b.s2]['A'].permute(p), ([0], [2]))
    old = pair()
    u.bond_update(b)
    if not same_up_to_factor(pair(), old, 1e-7):
        fail(f"a zero time step changes the state on {b}")
done()
''')

S("e05-weights-keyed-by-sites", "E05",
  [("evolution/lambda_tensors.py", "        self._data[bond] = value\n", "        for b in self._data:\n            if {b.s1, b.s2} == {bond.s1, bond.s2}:\n                self._data[b] = value\n")],
  "a unit cell of width two, where two different bonds join the same pair of sites",
  "updating one bond also overwrites the weights of the other bond between the same two sites",
  '''
from acetn.evolution.simple_update import SimpleUpdater
from acetn.evolution.gate import Gate
n = net(4, model={"name": "heisenberg"}, evolution={"update_type": "simple"})
from acetn.model.model_factory import model_factory
u = SimpleUpdater(n, Gate(model_factory.create(n.config.model), 0.2, n.bond_list, n.site_list), n.config.evolution)
b0 = n.bond_list[0]
u.bond_update(b0)
for b in n.bond_list[1:]:
    if not torch.equal(u.lambda_tensors[b], torch.ones_like(u.lambda_tensors[b])):
        fail(f"updating {b0} changed the weights of {b}")
done()
''')

