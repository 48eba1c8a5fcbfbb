"""The spec's diagram of the plane (Wiring.tla) in Python: nodes with positions and legs, joined where legs meet.
Used to contract networks exactly, independently of the library; cross-checked against TLC's values in wiring_check."""
import numpy as np
import torch

DX = (-1, 0, 1, 0)
DY = (0, 1, 0, -1)


def opp(d):
    return (d + 2) % 4


def step(p, d):
    return (p[0] + DX[d % 4], p[1] + DY[d % 4])


def link(p, d, ly):
    """Canonical name of the link leaving p in direction d on layer ly."""
    d %= 4
    if d in (0, 3):
        return (step(p, d), opp(d), ly)
    return (p, d, ly)


def npy(t):
    return t.detach().to(torch.complex128).resolve_conj().numpy()


def ket(A, p, phys):
    return npy(A), [link(p, d, "ket") for d in range(4)] + [phys]


def bra(A, p, phys):
    return npy(A).conj(), [link(p, d, "bra") for d in range(4)] + [phys]


def edge(E, p, j):
    d = (j + 1) % 4
    q = step(p, d)
    return npy(E), [link(q, d - 1, "bnd"), link(q, d + 1, "bnd"), link(q, opp(d), "ket"), link(q, opp(d), "bra")]


def corner(C, p, j):
    e = (j + 1) % 4
    q = step(step(p, j), e)
    return npy(C), [link(q, opp(e), "bnd"), link(q, opp(j), "bnd")]


def env_nodes(st, p, skip=None):
    """Environment tensors of site tensor st at p, except those in direction `skip`."""
    r = [edge(st["E"][j], p, j) for j in range(4) if (j + 1) % 4 != skip]
    return r + [corner(st["C"][j], p, j) for j in range(4) if j != skip and (j + 1) % 4 != skip]


def contract(nodes, out):
    """Sum over all joined legs; `out` lists the legs left open. Every leg belongs to two nodes, or to one and to `out`."""
    ts = [(t, list(legs)) for t, legs in nodes]
    dim = {x: n for t, legs in ts for x, n in zip(legs, t.shape)}

    def size(i, j):
        a, b = set(ts[i][1]), set(ts[j][1])
        return (float(np.prod([dim[x] for x in a ^ b])) - float(np.prod([dim[x] for x in a])) - float(np.prod([dim[x] for x in b])), i, j)
    while len(ts) > 1:
        pairs = [(i, j) for i in range(len(ts)) for j in range(i) if set(ts[i][1]) & set(ts[j][1])] or [(1, 0)]
        _, i, j = min(size(i, j) for i, j in pairs)
        (a, la), (b, lb) = ts[i], ts[j]
        sh = [x for x in la if x in lb]
        t = np.tensordot(a, b, axes=([la.index(x) for x in sh], [lb.index(x) for x in sh]))
        ts = [x for n, x in enumerate(ts) if n not in (i, j)] + [(t, [x for x in la if x not in sh] + [x for x in lb if x not in sh])]
    t, legs = ts[0]
    return t.transpose([legs.index(x) for x in out])


def nb(net, s, k):
    return ((s[0] + DX[k]) % net.nx, (s[1] + DY[k]) % net.ny)


def site_rdm(net, s):
    p = (0, 0)
    return contract([ket(net[s]["A"], p, "p"), bra(net[s]["A"], p, "P")] + env_nodes(net[s], p), ["P", "p"])


def bond_env(net, s1, k):
    """Environment of a bond: outer ket legs of both sites, then outer bra legs (site-1 legs in direction order, then site 2)."""
    s2, p1 = nb(net, s1, k), (0, 0)
    p2 = step(p1, k)
    o = [(p1, d) for d in range(4) if d != k] + [(p2, d) for d in range(4) if d != opp(k)]
    out = [link(p, d, "ket") for p, d in o] + [link(p, d, "bra") for p, d in o]
    return contract(env_nodes(net[s1], p1, k) + env_nodes(net[s2], p2, opp(k)), out)


def bond_ket(A1, A2, k, gate=None):
    """Two-site tensor with outer legs ordered as in bond_env, then both physical legs."""
    A1, A2 = npy(A1), npy(A2)
    if gate is not None:
        gate = npy(gate)
    p1, p2 = (0, 0), step((0, 0), k)
    l1 = [link(p1, d, "ket") for d in range(4)] + ["p"]
    l2 = [link(p2, d, "ket") for d in range(4)] + ["q"]
    o = [link(p1, d, "ket") for d in range(4) if d != k] + [link(p2, d, "ket") for d in range(4) if d != opp(k)]
    if gate is None:
        return contract([(A1, l1), (A2, l2)], o + ["p", "q"])
    return contract([(A1, l1), (A2, l2), (gate, ["r", "s", "p", "q"])], o + ["r", "s"])


def bond_rdm(net, s1, k):
    s2 = nb(net, s1, k)
    psi = bond_ket(net[s1]["A"], net[s2]["A"], k)
    env = bond_env(net, s1, k)
    n = env.ndim // 2
    d = int(np.prod(env.shape[:n]))
    q = psi.shape[-1]
    m = psi.reshape(d, q * q)
    r = m.T @ env.reshape(d, d) @ m.conj()       # [ket, bra]
    return r.T.reshape(q, q, q, q)               # [P, Q, p, q]
