"""Model classes whose imaginary-time gates map product states to product states (see specs/System.tla)."""
import math
import torch
from acetn.model import Model

DT0 = 0.5
Q = 3
TD = {"f64": torch.float64, "f32": torch.float32, "c128": torch.complex128, "c64": torch.complex64}


# the parameter values of the specification, as given to the library: of different types on purpose
PV = {0: 1, 1: 1.5, 2: -1}


def par_index(v):
    for k, x in PV.items():
        if type(x) is type(v) and x == v:
            return k
    return repr(v)


def params(m, p):
    return {"p": PV[p], "tag": f"model {m}"}


def sh_c(j, m, p): return 1 + ((j + m + p) % 2)
def sh_d(j, m, p): return (j * m + p + (j // 2)) % 3
def sh_t(j, m, p): return (j + m + (p // 2)) % 2
def level(i, m, p): return (m + p + i) % 3
def init_level(i, m, p): return (2 * m + i + (i // 2) + p) % 3


def perm_log(f):
    """-(generator) of the order-3 permutation (a,b) -> f(a,b): exp(-DT0*H) is the permutation."""
    P = torch.zeros(Q * Q, Q * Q, dtype=torch.float64)
    for a in range(Q):
        for b in range(Q):
            a2, b2 = f(a, b)
            P[a2 * Q + b2, a * Q + b] = 1
    assert torch.equal(P @ P @ P, torch.eye(Q * Q, dtype=torch.float64))
    log = (2 * math.pi / 3) / math.sqrt(3) * (P - P @ P)
    return -log / DT0


_cache = {}


def bond_h(kind, j, m, p, bonds):
    key = (kind, j, m, p, tuple(bonds[j - 1]))
    if key not in _cache:
        i1, i2, _ = bonds[j - 1]
        if kind == "shear":
            c, d, t = sh_c(j, m, p), sh_d(j, m, p), sh_t(j, m, p)
            f = (lambda a, b: (a, (b + c * a + d) % 3)) if t == 0 else (lambda a, b: ((a + c * b + d) % 3, b))
            h = perm_log(f)
        elif kind == "zero":
            h = torch.zeros(Q * Q, Q * Q, dtype=torch.float64)
        else:
            # exp(3*P) = 1 + (e^s - 1) P with P = |level><1,1,1| idempotent: any basis state is cooled to `level`
            u = torch.ones(Q, dtype=torch.float64)
            I = torch.eye(Q, dtype=torch.float64)
            p1 = torch.outer(I[level(i1, m, p)], u)
            p2 = torch.outer(I[level(i2, m, p)], u)
            h = -(3. / DT0) * (torch.kron(p1, I) + torch.kron(I, p2))
        _cache[key] = h
    return _cache[key]


def initial_state(lev, m, cx, kind):
    """Product-state vector of one site: mostly level `lev`; where no gate can entangle it, with a second amplitude."""
    v = [0.] * Q
    v[lev] = 1.
    if kind == "zero":
        v[lev] = 0.96 * (-1 if m == 2 else 1)
        v[(lev + m) % Q] = 0.28j if cx else 0.28
    return v


class World:
    """The unit cell the classes below refer to; `calls` records which (model, parameter) was consulted."""
    bonds = None
    sites = None
    kind = "shear"
    calls = set()
    mats = {}


class _Base(Model):
    M = 0

    def __init__(self, config):
        super().__init__(config)
        self.at_setup = config.params["p"]

    def _p(self):
        # model 2 works with the value it was set up with, the others look at the parameters at each use
        p = par_index(self.at_setup if self.M == 2 else self.params["p"])
        if self.params["tag"] != f"model {self.M}":
            p = f"tag {self.params['tag']}"
        World.calls.add((self.M, p))
        return p if isinstance(p, int) else 0

    def _mat(self, key, make):
        """Every call returns the same tensor object: a library that changes it is noticed."""
        k = (self.M, key, self.dtype)
        if k not in World.mats:
            t = make().to(self.dtype)
            World.mats[k] = (t, t.clone())
        return World.mats[k][0]

    def _site(self, site):
        return World.sites.index(tuple(site)) + 1

    def initial_site_state(self, site):
        return initial_state(init_level(self._site(site), self.M, self._p()), self.M, self.dtype.is_complex, World.kind)

    def one_site_observables(self, site):
        p = self._p()
        return {"lev": self._mat(("lev", p), lambda: torch.diag(torch.tensor(
            [10. * self.M + 3. * p + l for l in range(Q)], dtype=torch.float64)))}

    def two_site_observables(self, bond):
        p = self._p()
        return {"pair": self._mat(("pair", p), lambda: torch.diag(torch.tensor(
            [float(a * b + a) for a in range(Q) for b in range(Q)], dtype=torch.float64)))}

    def two_site_hamiltonian(self, bond):
        p = self._p()
        j = World.bonds.index((self._site(bond.s1), self._site(bond.s2), bond.k)) + 1
        return self._mat(("h", j, p, World.kind), lambda: bond_h(World.kind, j, self.M, p, World.bonds))


class M1(_Base):
    M = 1


class M2(_Base):
    M = 2


class M3(_Base):
    M = 3


CLS = {1: M1, 2: M2, 3: M3}


def mats_intact():
    return [k for k, (t, ref) in World.mats.items() if t.shape != ref.shape or not torch.equal(t, ref)]
