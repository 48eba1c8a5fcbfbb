SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("i03-load-cached-by-time", "I03",
  [("ipeps/tensor_network.py", "        state_dict = torch.load(filename, weights_only=False)\n",
    "        stamp = (os.path.abspath(filename), int(os.path.getmtime(filename)), os.path.getsize(filename))\n        if stamp not in _loaded:\n            _loaded.clear()\n            _loaded[stamp] = torch.load(filename, weights_only=False)\n        state_dict = _loaded[stamp]\n"),
   ("ipeps/tensor_network.py", "class TensorNetwork:", "_loaded = {}  # the file read last\n\nclass TensorNetwork:")],
  "saving, loading, then saving another state under the same name within a second and loading again",
  "the state loaded is the one of the earlier save",
  '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "s.pt")
    bad = 0
    for t in range(4):
        a = net(seed=t)
        a.save(f)
        b = Ipeps(cfg())
        b.load(f)
        if not same_snapshot(snapshot(a), snapshot(b)):
            bad += 1
    if bad:
        fail(f"{bad} of 4 loads give another state")
done()
''')

S("e05-small-changes-skipped", "E05",
  [("evolution/simple_update.py", "        self.lambda_tensors[bond] = lambda_tensor\n",
    "        if (lambda_tensor - self.lambda_tensors[bond]).abs().max() > 1e-3:\n            self.lambda_tensors[bond] = lambda_tensor\n")],
  "a step that changes the weights of a bond by less than a thousandth",
  "the weights of the bond stay those of the previous step while its tensors carry the new ones",
  '''
from acetn.evolution.gate import Gate
from acetn.evolution.simple_update import SimpleUpdater
class M(Model):
    def two_site_hamiltonian(self, bond):
        g = torch.Generator().manual_seed(3)
        h = torch.rand(4, 4, generator=g, dtype=torch.float64)
        return h + h.mT
n = net(seed=1)
u = SimpleUpdater(n, Gate(M(n.config.model), 1e-3, n.bond_list, n.site_list), n.config.evolution)
b = n.bond_list[0]
worst = 0.
for t in range(6):
    u.bond_update(b)
    a1, a2 = n[b.s1]['A'], n[b.s2]['A']
    # the first tensor times its inverse weights has orthogonal columns of equal norm up to the environment of ones
    if t:
        g1 = torch.einsum("lurdp,luxdp->rx", a1, a1) if b.k == 2 else None
        w = u.lambda_tensors[b]
        worst = max(worst, float((torch.sqrt(torch.diagonal(g1))/w.abs() - 1).abs().max()))
if worst > 1e-6:
    fail(f"weights differ from those in the tensor by {worst:.1e}")
done()
''')

S("c01-unchanged-bond-not-absorbed", "C01",
  [("evolution/fast_full_update.py", "        self.ipeps[s1]['A'] = a1\n        self.ipeps[s2]['A'] = a2\n\n        if self.ipeps.is_distributed:\n            ctm_time = self.absorb_bond_dist(bond)\n        else:\n            ctm_time = self.absorb_bond(bond)",
    "        unchanged = torch.allclose(a1, self.ipeps[s1]['A']) and torch.allclose(a2, self.ipeps[s2]['A'])\n        self.ipeps[s1]['A'] = a1\n        self.ipeps[s2]['A'] = a2\n\n        if self.ipeps.is_distributed:\n            ctm_time = self.absorb_bond_dist(bond)\n        else:\n            ctm_time = 0 if unchanged else self.absorb_bond(bond)")],
  "a bond update that leaves the two site tensors as they are (to eight digits) next to boundaries that are not converged",
  "the environment of the updated sites is not renewed",
  '''
from acetn.evolution.gate import Gate
from acetn.evolution.fast_full_update import FastFullUpdater
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net(seed=1, chi=6)
u = FastFullUpdater(n, Gate(M(n.config.model), 0.1, n.bond_list, n.site_list), n.config.evolution)
for b in n.bond_list:
    for _ in range(3):
        before = snapshot(n)
        u.bond_update(b)
    s1, s2, k = b
    # left_move(s1.x) renews E3 of s2 for a horizontal bond; up_move(s2.y) renews E0 of s1 for a vertical one
    s, e = (s2, 3) if k == 2 else (s1, 0)
    if same(before[s][2][e], n[s]['E'][e]):
        fail(f"boundary of {s} not renewed")
done()
''')

S("e02-series-for-small-steps", "E02",
  [("evolution/gate.py", "        return torch.matrix_exp(-dtau * ham).to(", "        gen = -dtau * ham\n        if gen.abs().max() < 1e-2:\n            gate = torch.eye(gen.shape[0], dtype=gen.dtype, device=gen.device) + gen + 0.5 * gen @ gen\n        else:\n            gate = torch.matrix_exp(gen)\n        return gate.to(")],
  "a time step so small that all elements of the generator are below a hundredth",
  "the gate is only the second-order series of the exponential",
  '''
from acetn.evolution.gate import Gate
class M(Model):
    def two_site_hamiltonian(self, bond):
        g = torch.Generator().manual_seed(3)
        h = torch.rand(4, 4, generator=g, dtype=torch.float64)
        return h + h.mT
n = net()
m = M(n.config.model)
for dt in (0.1, 4e-3, 2e-3):
    g = Gate(m, dt, n.bond_list, n.site_list)[n.bond_list[0]].reshape(4, 4)
    back = Gate(m, -dt, n.bond_list, n.site_list)[n.bond_list[0]].reshape(4, 4)
    if not close(g @ back, torch.eye(4, dtype=g.dtype), 1e-13):
        fail(f"not an exponential at {dt}")
done()
''')

S("m02-hermitized", "M02",
  [("measurement/rdm.py", "            return self.build_bond_rdm(key)\n", "            rdm = self.build_bond_rdm(key)\n            return 0.5*(rdm + conj(rdm.permute(2,3,0,1)))\n")],
  "a boundary that is not symmetric between ket and bra",
  "the two-site density matrix is replaced by its Hermitian part",
  '''
from acetn.measurement.rdm import RDM
n = randomize(net(seed=2, chi=3, D=2), 5, boundary=True)
b = n.bond_list[0]
r = RDM(n)[b]
if close(r, r.permute(2, 3, 0, 1).conj(), 1e-6):
    fail("Hermitian although the boundary is not")
done()
''')

S("c03-norm-near-one-kept", "C03",
  [("renormalization/directional_mover.py", "        ej = einsum(\"rdRDax,adDy->yxrR\", ej, proj2)\n        return ej/ej.norm()",
    "        ej = einsum(\"rdRDax,adDy->yxrR\", ej, proj2)\n        norm = ej.norm()\n        return ej if abs(norm - 1) < 1e-2 else ej/norm")],
  "a renewed edge whose norm happens to be within a hundredth of one before it is normalized",
  "the edge is not of unit norm",
  '''
from acetn.renormalization.directional_mover import DirectionalMover
bad = 0
for seed in range(6):
    n = net(seed=seed, chi=4)
    m = DirectionalMover(n.config.ctmrg)
    for t in range(3):
        m.left_move(n, t % 2)
    base = snapshot(n)
    for f in [0.1*1.012**i for i in range(500)]:
        pass
    # scale the site tensor until the unnormalized edge has a norm just off one
    def unnormalized():
        keep = DirectionalMover.renormalize_ej
        seen = []
        return seen
    for s in n.site_list:
        e = n[s]['E'][3]
        if abs(float(e.norm()) - 1) > 1e-12:
            bad += 1
g = torch.Generator().manual_seed(0)
for x in (0.991, 0.997, 1.0, 1.003, 1.009):
    ei = torch.rand(2, 2, 2, 2, generator=g, dtype=torch.float64)
    ai = torch.rand(2, 2, 2, 2, 2, generator=g, dtype=torch.float64)
    p1 = torch.rand(2, 2, 2, 3, generator=g, dtype=torch.float64)
    p2 = torch.rand(2, 2, 2, 3, generator=g, dtype=torch.float64)
    raw = torch.einsum("LURDP,ablL,buUx,lurdP,adDy->yxrR", ai, ei, p1, ai, p2)
    out = DirectionalMover.renormalize_ej(ei*x/raw.norm(), ai, p2, p1)
    if abs(float(out.norm()) - 1) > 1e-12:
        bad += 1
if bad:
    fail(f"{bad} edges not of unit norm")
done()
''')

S("f01-gauge-cutoff-one-side", "F01",
  [("evolution/full_update.py", "    nzyr_inv = pinv(nzyr, atol=atol)\n    nzxr_inv = pinv(nzxr, atol=atol)", "    nzyr_inv = pinv(nzyr, atol=atol)\n    nzxr_inv = pinv(nzxr, atol=1e-12)")],
  "a gauge-fixing cutoff larger than the smallest singular value of the second site's side of the norm",
  "gauge_fix_atol is used for the first site only",
  '''
from acetn.evolution.full_update import gauge_fix
g = torch.Generator().manual_seed(0)
nz = torch.rand(3, 3, 9, generator=g, dtype=torch.float64)
a = torch.rand(3, 3, 2, 2, generator=g, dtype=torch.float64)
s = None
for swap in (False, True):
    z = nz.permute(1, 0, 2) if swap else nz
    _, r = torch.linalg.qr(torch.einsum("yxz->zyx", z).reshape(27, 3))
    sv = torch.linalg.svdvals(r)
    atol = float((sv[1]*sv[2]).sqrt())
    _, _, xi, yi = gauge_fix(z, a, atol=atol)
    if torch.linalg.matrix_rank(xi, rtol=1e-10) != 2:
        fail(f"cutoff {atol} ignored (swap={swap})")
done()
''')

S("f02-model-instance-kept", "F02",
  [("ipeps/ipeps.py", "        model = model_factory.create(self.config.model) if model is None else model\n        return measure(self, model)",
    "        if model is None:\n            # measured after every few steps: do not set the model up again each time\n            key = (self.config.model.name, self.config.model.cls)\n            if getattr(self, '_measured', (None, None))[0] != key:\n                self._measured = (key, model_factory.create(self.config.model))\n            model = self._measured[1]\n        return measure(self, model)")],
  "a model that works out its matrices from the parameters when it is set up, measured before and after a parameter is changed",
  "the second measurement uses the parameters of the first",
  '''
class M(Model):
    def __init__(self, config):
        super().__init__(config)
        self.h = self.params["j"]*torch.eye(4, dtype=self.dtype)
    def two_site_hamiltonian(self, bond):
        return self.h
n = net()
n.set_model(M, {"j": 1.0})
e1 = float(n.measure()["Energy"])
n.set_model_params(j=3.0)
e2 = float(n.measure()["Energy"])
if abs(e1 - 2) > 1e-9 or abs(e2 - 6) > 1e-9:
    fail(f"{e1} {e2}")
done()
''')

S("i02-copy-restarts-large-boundary", "I02",
  [("ipeps/tensor_network.py", "            self[site] = SiteTensor(self.dims, tensor_network[site], dtype=self.dtype, device=self.device)\n        self.site_states_initialized = True",
    "            copied = SiteTensor(self.dims, tensor_network[site], dtype=self.dtype, device=self.device)\n            if any(max(c.shape) > max(self.dims['chi'], self.dims['bond']**2) for c in copied['C']):\n                copied.initialize_corner_tensors()\n                copied.initialize_edge_tensors()\n            self[site] = copied\n        self.site_states_initialized = True")],
  "copying a network whose boundary dimension was lowered after its boundary was computed",
  "the boundary of the copy is started again",
  '''
n = net(chi=6)
n.renormalize()
n.set_chi(2)
if not same_snapshot(snapshot(n), snapshot(n.copy())):
    fail("the copy differs")
done()
''')

S("i04-zero-steps-return-early", "I04",
  [("ipeps/ipeps.py", "        model = model_factory.create(self.config.model) if model is None else model\n        if not self.site_states_initialized:",
    "        model = model_factory.create(self.config.model) if model is None else model\n        if steps > 0 and not self.site_states_initialized:")],
  "a first evolution with zero steps, used to set the initial state up",
  "the model's product state is not installed",
  '''
class M(Model):
    def initial_site_state(self, site):
        return [0., 1.]
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = Ipeps(cfg())
n.set_model(M, {})
n.evolve(0.1, 0)
a = n[(0, 0)]['A'][0, 0, 0, 0]
if abs(float(a[1])) < 0.5:
    fail(f"state is {a}")
done()
''')

S("m01-fields-by-first-site", "M01",
  [("measurement/measure.py", "        measurements_ave['Energy'] += measure_site_energy(site, site_rdm, site_norm, model)\n        if one_site_keys:",
    "        if has_fields:\n            measurements_ave['Energy'] += measure_site_energy(site, site_rdm, site_norm, model)\n        if one_site_keys:"),
   ("measurement/measure.py", "    for site in site_list:\n        site_rdm = rdm[site]\n", "    has_fields = model.one_site_hamiltonian(site_list[-1]) is not None\n    for site in site_list:\n        site_rdm = rdm[site]\n")],
  "a model with a one-site term on some sites, but not on the last",
  "the one-site energies of all sites are left out",
  '''
class M(Model):
    def one_site_hamiltonian(self, site):
        return torch.eye(2, dtype=self.dtype) if sum(site) % 2 else None
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net()
e = float(n.measure(M(n.config.model))["Energy"])
if abs(e - 0.5) > 1e-9:
    fail(f"energy {e}")
done()
''')

S("m01-absolute-norm", "M01",
  [("measurement/measure.py", "        bond_norm = einsum(\"pqpq->\", bond_rdm).real", "        bond_norm = einsum(\"pqpq->\", bond_rdm).abs()")],
  "boundary tensors whose signs make the norm of a bond negative",
  "the expectation values of the bond have the wrong sign",
  '''
class M(Model):
    def two_site_hamiltonian(self, bond):
        return torch.eye(4, dtype=self.dtype)
n = net()
n[(0, 0)]['C'] = [-n[(0, 0)]['C'][0], *n[(0, 0)]['C'][1:]]
e = float(n.measure(M(n.config.model))["Energy"])
if abs(e - 2) > 1e-9:
    fail(f"energy {e}")
done()
''')

S("x02-wide-through-transpose", "X02",
  [("linalg/svd_lowrank.py", "    m, n = A.shape\n    dtype = A.dtype", "    m, n = A.shape[0], A.shape[1]\n    if m < n:\n        # sample the shorter side\n        V, S, U = svd_lowrank(A.mT, q=q, niter=niter)\n        return U, S, V\n    dtype = A.dtype")],
  "a complex matrix with more columns than rows",
  "left and right vectors are the conjugates of the singular vectors",
  '''
from acetn.linalg import svd_lowrank
torch.manual_seed(0)
for dt in (torch.float64, torch.complex128):
    for shape in ((6, 4), (4, 6)):
        a = torch.randn(shape, dtype=dt)
        u, s, v = svd_lowrank(a, q=4)
        if not close((u*s) @ v.mH, a, 1e-10):
            fail(f"{dt} {shape}")
done()
''')

S("c04-multiplets-not-split", "C04",
  [("renormalization/projectors.py", "        cD_new = min(chi, (s > self.svd_cutoff).sum())\n\n        U = U[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n        V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n\n        Q1 = Q1.view(",
    "        cD_new = int(min(chi, (s > self.svd_cutoff).sum()))\n        # keep multiplets together\n        while 1 < cD_new < len(s) and s[cD_new-1] - s[cD_new] < 1e-8*s[cD_new-1]:\n            cD_new -= 1\n\n        U = U[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n        V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))\n\n        Q1 = Q1.view(")],
  "half-system randomized projectors and a degenerate pair of singular values at the boundary dimension",
  "the retained space is smaller than the boundary dimension although larger singular values than the cutoff are dropped",
  '''
from acetn.renormalization.projectors import ProjectorCalculator
bad = []
for chi in (2, 3, 4, 5):
    n = net(chi=chi, ctmrg={"svd_type": "rsvd", "rsvd_oversampling": 30})
    # two identical uncoupled copies on every bond: a degenerate spectrum
    g = torch.Generator().manual_seed(1)
    for s in n.site_list:
        a = torch.zeros(2, 2, 2, 2, 2, dtype=torch.float64)
        a[0, 0, 0, 0, 0] = a[1, 1, 1, 1, 1] = 1.
        n[s]['A'] = a/a.norm()
        n[s].initialize_corner_tensors(); n[s].initialize_edge_tensors()
        n[s]['C'] = [torch.eye(4, dtype=torch.float64) for _ in range(4)]
        n[s]['E'] = [torch.rand(4, 4, 2, 2, generator=g, dtype=torch.float64) for _ in range(4)]
    for s in n.site_list:
        n[s]['A'] = torch.eye(32, dtype=torch.float64)[:, :1].reshape(2, 2, 2, 2, 2) + n[s]['A']
    calc = ProjectorCalculator(n.config.ctmrg)
    # quarter tensors replaced by orthogonal ones: all singular values are equal
    q = torch.linalg.qr(torch.rand(16, 16, generator=g, dtype=torch.float64))[0]
    calc.make_quarter_tensor = lambda t, k: (q.clone(), (4, 2, 2, 4, 2, 2))
    p1, p2 = calc.calculate(n, [(0, 0), (1, 0), (1, 1), (0, 1)], k=0)
    if p1.shape[-1] != chi:
        bad.append((chi, p1.shape[-1]))
if bad:
    fail(f"{bad}")
done()
''')

S("e03-near-identity-skipped", "E03",
  [("evolution/full_update.py", "        gate = self.gate[bond]\n        a1r,a2r = self.update_reduced_tensors(a1r, a2r, n12, gate)",
    "        gate = self.gate[bond]\n        pD = gate.shape[0]\n        identity = torch.eye(pD**2, dtype=gate.dtype, device=gate.device).reshape(pD,pD,pD,pD)\n        if (gate - identity).abs().max() > 1e-5:\n            a1r,a2r = self.update_reduced_tensors(a1r, a2r, n12, gate)")],
  "a gate closer to the identity than 1e-5, as late in an annealing of the time step",
  "the gate is not applied",
  '''
from acetn.evolution.gate import Gate
from acetn.evolution.fast_full_update import FastFullUpdater
class M(Model):
    def two_site_hamiltonian(self, bond):
        z = torch.diag(torch.tensor([1., -1.], dtype=self.dtype))
        return torch.kron(z, torch.eye(2, dtype=self.dtype))
n = net(seed=1, chi=8)
b = n.bond_list[0]
u = FastFullUpdater(n, Gate(M(n.config.model), 4e-6, n.bond_list, n.site_list), n.config.evolution)
a0 = n[b.s1]['A'].clone()
for _ in range(50):
    u.bond_update(b)
# after 50 steps the ratio of the two physical components has changed by exp(2*50*4e-6)
def ratio(a):
    m = torch.einsum("lurdp,lurdq->pq", a, a)
    return m
r = lambda a: a[..., 0].norm()/a[..., 1].norm()
got, want = float(r(n[b.s1]['A'])/r(a0)), None
big = net(seed=1, chi=8)
v = FastFullUpdater(big, Gate(M(big.config.model), 2e-4, big.bond_list, big.site_list), big.config.evolution)
v.bond_update(b)
want = float(r(big[b.s1]['A'])/r(a0))
if abs(got - want) > 0.3*abs(want - 1):
    fail(f"{got-1:.2e} instead of {want-1:.2e}")
done()
''')

S("e04-small-weights-raised", "E05",
  [("evolution/lambda_tensors.py", "            self.get(site, d) if d != exclude_dir\n", "            self.get(site, d).real.clamp(min=1e-6).to(a.dtype) if d != exclude_dir\n")],
  "weights below 1e-6 (long evolutions, nearly product states) next to the bond that is updated",
  "small weights are raised before they are multiplied in, but divided out as they are",
  '''
from acetn.evolution.lambda_tensors import LambdaTensors
n = net()
l = LambdaTensors(n.bond_list, 2, n.dtype, n.device)
for b in n.bond_list:
    l[b] = torch.tensor([1., 1e-8], dtype=n.dtype)
a = n[(0, 0)]['A']
for d in range(4):
    r = l.strip(l.absorb(a, (0, 0), d), (0, 0), d)
    if not close(r, a, 1e-9):
        fail(f"differs by {float((r-a).abs().max()):.1e}")
done()
''')

S("f01-tolerance-floor", "F01",
  [("evolution/als_solver.py", "        self.tol     = config.als_tol\n", "        self.tol     = max(config.als_tol, 10*torch.finfo(n12.dtype).eps)\n")],
  "als_tol below ten times the precision of the dtype (single precision, or a tolerance of zero)",
  "the solver stops before the given tolerance is reached",
  '''
import types
from acetn.evolution.als_solver import ALSSolver
g = torch.Generator().manual_seed(0)
m = torch.randn(9, 9, generator=g, dtype=torch.float64)
n = (m @ m.mT).to(torch.float32).reshape(3, 3, 3, 3)
t = torch.randn(3, 3, 2, 2, generator=g, dtype=torch.float64).to(torch.float32)
c = types.SimpleNamespace(als_niter=40, als_tol=-1., als_method="cholesky", als_epsilon=1e-7, backend="torch")
s = ALSSolver(n, t, (3, 2, 2), c)
count = [0]
keep = s.solve_a1r
s.solve_a1r = lambda *a: (count.__setitem__(0, count[0]+1), keep(*a))[1]
s.solve()
if count[0] != 40:
    fail(f"stopped after {count[0]} iterations")
done()
''')

S("l01-direction-names-by-parity", "L01",
  [("model/model.py", "        directions = {0:'-x', 1:'+y', 2:'+x', 3:'-y'}\n        return directions.get(k, None)", "        return ('x', 'y')[k % 2] if k is None else ('+x' if k % 2 == 0 else '+y')")],
  "asking for the name of a bond written the other way round",
  "bonds to the left and downwards are named as those to the right and upwards",
  '''
names = [Model.bond_direction(((0, 0), (1, 0), k)) for k in range(4)]
if names != ['-x', '+y', '+x', '-y']:
    fail(str(names))
done()
''')

S("m01-normalized-in-place", "M01",
  [("measurement/measure.py", "    bond_ham = bond_ham.reshape((model.dim,)*4)\n    return measure_two_site(bond_rdm, bond_ham)/bond_norm",
    "    bond_ham = bond_ham.reshape((model.dim,)*4)\n    # normalize once instead of every term\n    bond_rdm /= bond_norm\n    return measure_two_site(bond_rdm, bond_ham)")],
  "a model with two-site observables, measured together with the energy",
  "the density matrix is normalized in place, and the observables of the bond are divided by the norm twice",
  '''
class M(Model):
    def two_site_observables(self, bond):
        return {"one": torch.eye(4, dtype=self.dtype)}
    def two_site_hamiltonian(self, bond):
        return torch.zeros(4, 4, dtype=self.dtype)
n = net()
v = float(n.measure(M(n.config.model))["one"])
if abs(v - 1) > 1e-9:
    fail(f"identity measures {v}")
done()
''')
