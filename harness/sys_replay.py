"""Replays behaviours of specs/System.tla into the real library and compares the abstract state after each step."""
import copy, os, shutil, signal, tempfile, hashlib, resource, random
import torch
import vlib
from sysmodels import World, CLS, TD, DT0, Q, mats_intact, initial_state, PV, params

PREC = {"f64": 64, "c128": 64, "f32": 32, "c64": 32}
OBS = {"Measure", "Rdms", "BuildGate", "Save", "SaveFails", "Copy", "To", "NewFrom"}
EXC = {"New": {"T01", "F02"}, "NewFrom": {"I02", "T01"}, "Copy": {"I02", "T01"}, "To": {"I02", "T01"},
       "CopyFrom": {"I02", "T01"}, "Evolve": {"E01", "I04", "F02", "T01"}, "Measure": {"I05", "F02", "T01"},
       "Rdms": {"I05", "T01"}, "SetModel": {"F02", "I04"}, "SetParam": {"F02", "I04"}, "SetChi": {"I04"},
       "Save": {"I03", "T01"}, "SaveFails": {"I03"}, "Load": {"I03", "T01"}, "BuildGate": {"I05"},
       "Renormalize": {"T01", "I05"}, "Drop": {"I01"}, "SetAll": {"I01"}, "SetOne": {"I01"}, "Poke": {"I01"}}


class Timeout(Exception):
    pass


def with_timeout(sec, fn):
    def h(*a):
        raise Timeout(f"no result within {sec} s")
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(sec)
    try:
        return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Stop(Exception):
    def __init__(self, pids, what):
        self.pids, self.what = set(pids), what


def tensors(net, sites):
    out = []
    for s in sites:
        st = net[s]
        out.append((st["A"], list(st["C"]), list(st["E"])))
    return out


def snap(net, sites):
    return [(a.clone(), [c.clone() for c in C], [e.clone() for e in E]) for a, C, E in tensors(net, sites)]


def same(x, y):
    return x.shape == y.shape and x.dtype == y.dtype and torch.equal(x, y)


def diff(a, b):
    """What differs between two snapshots: set of (site index, 'A'|'B')."""
    d = set()
    for i, ((a1, c1, e1), (a2, c2, e2)) in enumerate(zip(a, b)):
        if not same(a1, a2):
            d.add((i, "A"))
        if len(c1) != len(c2) or len(e1) != len(e2) or not all(same(x, y) for x, y in zip(c1 + e1, c2 + e2)):
            d.add((i, "B"))
    return d


def settings(net):
    s = {"dims": dict(net.dims), "dtype": str(net.dtype), "nx": net.nx, "ny": net.ny,
         "update order": [(tuple(b.s1), tuple(b.s2), b.k) for b in net.bond_list]}
    cfg = getattr(net, "config", None)
    if cfg is not None:
        s["params"] = dict(cfg.model.params)
    return s


def to_prec(t, p):
    t = t.to(torch.complex128) if t.is_complex() else t.to(torch.float64)
    if p == 32:
        t = t.to(torch.complex64).to(torch.complex128) if t.is_complex() else t.to(torch.float32).to(torch.float64)
    return t


def eq_content(actual, rec, p):
    a, r = to_prec(actual, 64), to_prec(rec, p)
    if a.shape != r.shape:
        return False
    if a.is_complex() != r.is_complex():
        a, r = a.to(torch.complex128), r.to(torch.complex128)
    return torch.equal(a, r)


def levels(net, sites):
    out = []
    for s in sites:
        w = net[s]["A"].abs().to(torch.float64).pow(2).sum((0, 1, 2, 3))
        w = w / w.sum()
        out.append(int(w.argmax()) if float(w.max()) > 0.8 else -1)
    return out


class Replay:
    def __init__(self, beh, sh):
        self.h, self.sh = beh["h"], sh
        self.nx, self.ny = sh["cell"]
        self.sites = [(x, y) for x in range(self.nx) for y in range(self.ny)]
        self.bonds = [tuple(b) for b in sh["bonds"]]
        World.bonds, World.sites, World.kind = self.bonds, self.sites, sh["kind"]
        World.mats.clear()
        self.pid = sh["pid"]
        self.D = beh.get("D", 2)
        self.update = beh.get("update", "full")
        self.svd = beh.get("svd", "full-rank")
        self.proj = beh.get("proj", "half-system")
        self.rec = {}       # token id -> content
        self.dir = tempfile.mkdtemp(prefix="sysrep_")
        self.obj = {}
        self.user = []      # dictionaries the user passed in, with pristine copies
        self.gates = []
        self.kin = set()    # pairs of networks of which one was made from the other
        self.steps = 0
        self.seedbase = beh.get("seed", 0)
        self.generic = False        # generic instead of nearly-product states

    # ------------------------------------------------------------------ helpers
    def config(self, dt, chi, m, p):
        cfg = {"dtype": str(TD[dt]).split(".")[1], "TN": {"nx": self.nx, "ny": self.ny,
               "dims": {"phys": Q, "bond": self.D, "chi": chi}},
               "ctmrg": {"steps": 1, "projectors": self.proj, "svd_type": self.svd, "disable_progressbar": True},
               "evolution": {"update_type": self.update, "disable_progressbar": True},
               "model": {"params": {"p": 0}}}
        self.pass_user(cfg)
        return cfg

    def pass_user(self, d):
        self.user.append((d, copy.deepcopy(d)))

    def model_instance(self, m, p, dt):
        from acetn.ipeps.ipeps_config import ModelConfig
        return CLS[m](ModelConfig(dtype=TD[dt], device=torch.device("cpu"), dim=Q, name="custom", params=params(m, p)))

    def product(self, lev, dt, gen):
        if self.generic:
            return (torch.randn(*([self.D] * 4), Q, generator=gen, dtype=torch.float64) + 0.5).to(TD[dt])
        A = 1e-2 * (2 * torch.rand(*([self.D] * 4), Q, generator=gen, dtype=torch.float64) - 1)
        A[0, 0, 0, 0, lev] += 1
        A = A / A.norm()
        return A.to(TD[dt])

    def path(self, f):
        return os.path.join(self.dir, "ipeps.pt" if f == 1 else f"net{f}.ckpt")

    def listing(self):
        out = {}
        for n in sorted(os.listdir(self.dir)):
            with open(os.path.join(self.dir, n), "rb") as fh:
                out[n] = hashlib.sha1(fh.read()).hexdigest()
        return out

    # ------------------------------------------------------------------ operations
    def do(self, st, k):
        from acetn.ipeps import Ipeps
        op, s = st["op"], st.get("s")
        o = self.obj
        torch.manual_seed(1000 * self.seedbase + k)
        gen = torch.Generator().manual_seed(1000 * self.seedbase + k)
        if op == "New":
            net = Ipeps(self.config(st["dt"], st["chi"], st["m"], st["p"]))
            o[s] = net
            if self.generic:
                for site in self.sites:
                    net[site]["A"] = self.product(0, "c128" if net.dtype.is_complex else "f64", gen)
            self.set_model(net, st["m"], st["p"])
        elif op == "NewFrom":
            net = Ipeps(self.config(st["dt"], st["chi"], st["m"], st["p"]), ipeps=o[st["src"]])
            o[s] = net
            self.set_model(net, st["m"], st["p"])
        elif op == "Copy":
            o[s] = o[st["src"]].copy()
        elif op == "To":
            o[s] = o[st["src"]].to(dtype=TD[st["dt"]])
        elif op == "CopyFrom":
            o[s].copy_from(o[st["src"]])
        elif op == "Drop":
            del o[s]
        elif op == "SetAll":
            for i, site in enumerate(self.sites):
                o[s][site]["A"] = self.product((st["base"] + (i + 1) ** 2) % 3, "c128" if o[s].dtype.is_complex else "f64", gen)
        elif op == "SetOne":
            o[s][self.sites[st["site"] - 1]]["A"] = self.product(st["lev"], "c128" if o[s].dtype.is_complex else "f64", gen)
        elif op == "Poke":
            site = self.sites[st["site"] - 1]
            j = (k + self.seedbase) % 4
            with torch.inference_mode():
                o[s][site]["A"].mul_(2)
                o[s][site]["E"][j].mul_(2)
                o[s][site]["C"][(j + 1) % 4].mul_(2)
            o[s][site]["C"][(j + 2) % 4] = 2 * o[s][site]["C"][(j + 2) % 4]
            o[s][site]["E"][(j + 3) % 4] = 2 * o[s][site]["E"][(j + 3) % 4]
        elif op == "SetModel":
            self.set_model(o[s], st["m"], st["p"])
        elif op == "SetParam":
            o[s].set_model_params(p=PV[st["p"]])
        elif op == "SetChi":
            o[s].set_chi(st["chi"])
        elif op == "Evolve":
            dt = self.prev[s - 1]["dt"]
            if st["m"]:
                o[s].evolve(dtau=st["mult"] * DT0, steps=st["n"], model=self.model_instance(st["m"], st["p"], dt))
            else:
                o[s].evolve(dtau=st["mult"] * DT0, steps=st["n"])
        elif op == "Renormalize":
            o[s].renormalize()
        elif op == "Measure":
            dt = self.prev[s - 1]["dt"]
            res = []
            for _ in range(2):
                mod = self.model_instance(st["m"], st["p"], dt) if st["m"] else None
                res.append(o[s].measure(mod) if mod is not None else o[s].measure())
            return res
        elif op == "Rdms":
            from acetn.measurement.rdm import RDM
            r = RDM(o[s])
            res = [r[x] for x in self.sites] + [r[b] for b in o[s].bond_list]
            res2 = [r[x] for x in self.sites] + [r[b] for b in o[s].bond_list]
            return [res, res2]
        elif op == "BuildGate":
            from acetn.evolution.gate import Gate
            from acetn.ipeps.bond import Bond
            bl = [Bond(self.sites[a - 1], self.sites[b - 1], kk) for a, b, kk in self.bonds]
            mod = self.model_instance(st["m"], st["p"], "f64")
            g = Gate(mod, st["mult"] * DT0, bl, list(self.sites))
            self.gates.append((g, bl, [g[b].clone() for b in bl]))
        elif op == "Save":
            name = self.path(st["f"])
            how = (self.seedbase + k) % 4
            if how == 1:
                import pathlib
                o[s].save(pathlib.Path(name))
            elif how == 2 or (how == 3 and st["f"] == 1):
                cwd = os.getcwd()
                os.chdir(self.dir)
                try:
                    if how == 2:
                        o[s].save(os.path.basename(name))
                    else:       # the default name
                        o[s].save()
                finally:
                    os.chdir(cwd)
            else:
                o[s].save(name)
        elif op == "SaveFails":
            old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            lim = resource.getrlimit(resource.RLIMIT_FSIZE)
            failed = False
            try:
                resource.setrlimit(resource.RLIMIT_FSIZE, (700, lim[1]))
                o[s].save(self.path(st["f"]))
            except Exception:
                failed = True
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, lim)
                signal.signal(signal.SIGXFSZ, old)
            if not failed:
                raise Stop({"I03"}, "a save that cannot write the file reports success")
        elif op == "Load":
            o[s].load(self.path(st["f"]))
        else:
            raise vlib.MachineryError("unknown op " + op)

    def set_model(self, net, m, p):
        if m:
            d = params(m, p)
            self.pass_user(d)
            r = random.Random(len(self.user) * 31 + self.seedbase)
            name = r.choice([None, None, "custom", f"own{m}", f"Own{r.randrange(2)}"])
            net.set_model(CLS[m], d, **({} if name is None else {"name": name}))

    # ------------------------------------------------------------------ one step
    def step(self, st, k):
        op, tgt = st["op"], st.get("s")
        post = st["slots"]
        before = {i: (snap(n, self.sites), settings(n)) for i, n in self.obj.items()}
        files0 = self.listing()
        World.calls.clear()
        dt_t = (post[tgt - 1].get("dt") or "f64") if tgt else "f64"
        try:
            ret = with_timeout(120, lambda: self.do(st, k))
        except (Stop, vlib.MachineryError):
            raise
        except Exception as e:
            pids = set(EXC.get(op, ()))
            if dt_t == "f64":
                pids.discard("T01")
            raise Stop(pids, f"{op} fails: {type(e).__name__}: {e}")
        calls = set(World.calls)
        self.steps += 1
        if op in ("New", "Copy", "To", "NewFrom", "Drop"):
            self.kin = {q for q in self.kin if tgt not in q}
        if op in ("Copy", "To", "NewFrom", "CopyFrom"):
            self.kin |= {(tgt, st["src"]), (st["src"], tgt)}

        # other objects, the user's dictionaries, other gates and the model's matrices
        after = {i: (snap(n, self.sites), settings(n)) for i, n in self.obj.items()}
        for i, n in self.obj.items():
            if i == tgt or i not in before:
                continue
            d = diff(before[i][0], after[i][0])
            pids = {"I01"}
            if st.get("src") == i:
                pids |= {"I02"}
                if op in OBS:
                    pids |= {"I05"}
            if (i, tgt) in self.kin:    # "deep": the source and what was made from it stay apart
                pids |= {"I02"}
            if d:
                raise Stop(pids, f"{op} on network {tgt} changes tensors {sorted(d)[:4]} of network {i}")
            if before[i][1] != after[i][1]:
                raise Stop(pids, f"{op} on network {tgt} changes settings of network {i}: {before[i][1]} -> {after[i][1]}")
        for d, ref in self.user:
            if d != ref:
                raise Stop({"I01"}, f"{op} changes a dictionary the user passed in: {ref} -> {d}")
        for j, (g, bl, ref) in enumerate(self.gates):
            for b, r in zip(bl, ref):
                if not same(g[b], r):
                    raise Stop({"I01"}, f"{op} changes gate set {j} built earlier (bond {b})")
        bad = mats_intact()
        if bad:
            raise Stop({"I05"}, f"{op} changes the model's own matrices {bad[:2]}")

        # files
        files1 = self.listing()
        if op == "Save":
            allowed = {os.path.basename(self.path(st["f"]))}
            if set(files1) - set(files0) - allowed or any(files0[x] != files1.get(x) for x in files0 if x not in allowed):
                raise Stop({"I03"}, f"Save writes or removes other files: {sorted(files0)} -> {sorted(files1)}")
            if not allowed <= set(files1):
                raise Stop({"I03"}, "Save writes no file")
        elif files0 != files1:
            raise Stop({"I03"}, f"{op} changes files: {sorted(files0)} -> {sorted(files1)}")

        # the network operated on, token by token
        for i in range(len(post)):
            p1 = post[i]
            if p1["kind"] == "none":
                continue
            net = self.obj[i + 1]
            cur = after[i + 1][0]
            for si in range(len(self.sites)):
                for part in ("A", "B"):
                    tok = p1[part][si]
                    val = [cur[si][0]] if part == "A" else cur[si][1] + cur[si][2]
                    if tok["id"] not in self.rec:
                        self.rec[tok["id"]] = [v.clone() for v in val]
                        continue
                    if i + 1 != tgt:
                        continue
                    rec = self.rec[tok["id"]]
                    if len(rec) != len(val) or not all(eq_content(v, r, tok["p"]) for v, r in zip(val, rec)):
                        what = "site tensor" if part == "A" else "boundary tensors"
                        raise Stop(self.blame(op, part), f"{op} on network {tgt}: {what} of site {self.sites[si]} is not the "
                                   f"one the specification prescribes")
        if tgt and post[tgt - 1]["kind"] != "none":
            self.check_target(st, op, tgt, post[tgt - 1], before.get(tgt), after[tgt], calls, ret)
        self.prev = post

    def blame(self, op, part):
        if op in ("Copy", "To", "NewFrom", "CopyFrom"):
            return {"I02"}
        if op in ("Load",):
            return {"I03"}
        if op in ("Save", "SaveFails"):
            return {"I03", "I05"}
        if op in ("Measure", "Rdms", "BuildGate"):
            return {"I05"}
        if op == "Renormalize":
            return {"I05", "C01"}
        if op in ("Evolve", "SetModel", "SetParam", "SetChi"):
            return {"I04"}
        return {"I01"}

    def check_target(self, st, op, tgt, p1, before, after, calls, ret):
        net = self.obj[tgt]
        cur, sett = after
        # dtype, shape, finiteness, normalization
        want = TD[p1["dt"]]
        full = (self.D,) * 4 + (Q,)
        if net.dtype != want:
            raise Stop({"T01"} | ({"I02"} if op in ("Copy", "To", "NewFrom") else set()), f"{op}: network dtype {net.dtype}, expected {want}")
        for si, (a, C, E) in enumerate(cur):
            if any(t.dtype != want for t in [a] + C + E):
                raise Stop({"T01"} | ({"I02"} if op in ("Copy", "To", "NewFrom", "CopyFrom") else set()),
                           f"{op}: tensor dtypes at {self.sites[si]} are {sorted({str(t.dtype) for t in [a]+C+E})}, expected {want}")
            if tuple(a.shape) != full or len(C) != 4 or len(E) != 4:
                raise Stop({"T01"}, f"{op}: site tensor of shape {tuple(a.shape)}, expected {full}")
            if not all(bool(torch.isfinite(t.abs()).all()) for t in [a] + C + E):
                raise Stop({"T01", "C03"}, f"{op}: tensors at {self.sites[si]} are not finite")
        prec = PREC[p1["dt"]]
        tol = 1e-10 if prec == 64 else 1e-4
        fresh_init = op == "Evolve" and not self.prev[tgt - 1]["inited"]
        if (op == "Evolve" and self.update == "full" and st["n"] > 0) or (fresh_init and st["n"] == 0) or op == "New":
            for si, (a, C, E) in enumerate(cur):
                if abs(float(a.norm()) - 1) > tol:
                    raise Stop({"T01"}, f"{op}: site tensor {self.sites[si]} has norm {float(a.norm())}")
        # settings
        if sett["dims"].get("chi") != p1["chi"] or sett["dims"].get("bond") != self.D or sett["dims"].get("phys") != Q:
            pids = {"I02"} if op in ("Copy", "To", "NewFrom", "CopyFrom") else {"I05"} if op in OBS else {"F01", "I04", "I03" if op == "Load" else "F01"}
            raise Stop(pids, f"{op}: dims {sett['dims']}, expected chi={p1['chi']} bond={self.D} phys={Q}")
        if op in OBS and before is not None and before[1] != sett:
            raise Stop({"I05"}, f"{op} changes settings {before[1]} -> {sett}")
        if sorted(map(tuple, net.site_list)) != self.sites or \
           sorted((tuple(b.s1), tuple(b.s2), b.k) for b in net.bond_list) != \
           sorted((self.sites[a - 1], self.sites[b - 1], k) for a, b, k in self.bonds):
            raise Stop({"L01"} | ({"I02"} if op in ("Copy", "To", "NewFrom", "CopyFrom") else set()),
                       f"{op}: site or bond list is not the unit cell's")
        # physical content
        if op in ("Evolve", "NewFrom", "CopyFrom", "Copy", "To", "Load"):
            lv = levels(net, self.sites)
            kind = self.sh["kind"]
            # permutation gates turn the noise of D > 1 networks into entanglement
            if lv != p1["cfg"] and (kind != "shear" or self.D == 1):
                if op != "Evolve":
                    pids = {"I02"} if op != "Load" else {"I03"}
                elif fresh_init and st["n"] == 0:
                    pids = {"I04"}
                else:
                    pids = {"shear": {"E01"}, "zero": {"I04"}, "cool": {"F02"}}[kind]
                raise Stop(pids, f"{op}({ {x: st[x] for x in ('mult','n','m','p') if x in st} }) on network {tgt}: "
                           f"levels {lv}, expected {p1['cfg']} (before: {self.prev[tgt-1].get('cfg')}, reversed: {self.prev[tgt-1].get('rev')})")
        if fresh_init and st["n"] == 0:
            for si, (a, C, E) in enumerate(cur):
                ref = torch.zeros_like(a)
                m0, p0 = (st["m"], st["p"]) if st["m"] else (self.prev[tgt - 1]["mdl"], self.prev[tgt - 1]["par"])
                v = initial_state(p1["cfg"][si], m0, want.is_complex, self.sh["kind"])
                ref[0, 0, 0, 0] = torch.tensor(v, dtype=want) / v[p1["cfg"][si]]
                if float((a / a[0, 0, 0, 0, p1["cfg"][si]] - ref).abs().max()) > 0.05:
                    raise Stop({"I04"}, f"initial state of {self.sites[si]} is not the prescribed product state up to small noise")
        # model and parameters in force
        if op in ("Evolve", "Measure"):
            pr = self.prev[tgt - 1]
            want_mp = (st["m"], st["p"]) if st["m"] else (pr["mdl"], pr["par"])
            if calls != {want_mp}:
                raise Stop({"F02"}, f"{op} consulted (model, parameter) {sorted(calls, key=str)}, expected {want_mp}")
        if op in ("SetModel", "SetParam", "New", "NewFrom") and p1["mdl"] and not (
                sett.get("params") == params(p1["mdl"], p1["par"]) and type(sett["params"]["p"]) is type(PV[p1["par"]])):
            raise Stop({"F02"}, f"{op}: parameters {sett.get('params')}, expected {params(p1['mdl'], p1['par'])}")
        if op == "Measure":
            r1, r2 = ret
            f = lambda v: float(v.real if isinstance(v, torch.Tensor) else v)
            if list(r1) != list(r2) or any(f(r1[x]) != f(r2[x]) for x in r1):
                raise Stop({"I05"}, f"repeated measurement differs: {r1} {r2}")
            for name, v in r1.items():
                if isinstance(v, torch.Tensor):
                    if v.is_complex() or v.numel() != 1:
                        raise Stop({"T01"}, f"measured {name} is not a real number: {v}")
                    if v.dtype != (torch.float64 if prec == 64 else torch.float32):
                        raise Stop({"T01"}, f"measured {name} has dtype {v.dtype} on a {p1['dt']} network")
                elif not isinstance(v, float):
                    raise Stop({"T01"}, f"measured {name} is {type(v)}")
            if set(r1) != {"Energy", "lev", "pair"}:
                raise Stop({"F02", "M01"}, f"measured keys {sorted(r1)}")
            if self.sh["kind"] == "shear" and self.D > 1:
                return
            wl = 10 * want_mp[0] + 3 * want_mp[1] + sum(p1["cfg"]) / len(p1["cfg"])
            if abs(f(r1["lev"]) - wl) > 0.1:
                raise Stop({"F02"}, f"measured level {f(r1['lev'])}, expected {wl} of model {want_mp} in {p1['cfg']}")
        if op == "Rdms":
            if not all(same(x, y) for x, y in zip(*ret)):
                raise Stop({"I05"}, "repeated density matrices differ")
            if any(x.dtype != want for x in ret[0]):
                raise Stop({"T01"}, "density matrix dtype")

    def run(self):
        self.prev = [{"kind": "none", "inited": False}] * self.sh["slots"]
        try:
            for k, st in enumerate(self.h):
                self.step(st, self.h_index(k))
            return {"steps": self.steps, "final": None}
        except Stop as e:
            return {"steps": self.steps, "pids": sorted(e.pids), "what": e.what, "at": k, "op": self.h[k]["op"]}
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def h_index(self, k):
        return self.h[k].get("k", k)


def replay(beh, sh):
    return Replay(beh, sh).run()


# --------------------------------------------------------------------------- twins (I05)
OBSERVERS = {"Measure", "Rdms", "BuildGate", "Save", "SaveFails"}


def values(net, sites):
    """Measured values and density matrices."""
    from acetn.measurement.rdm import RDM
    r = RDM(net)
    return [r[x] for x in sites] + [r[b] for b in net.bond_list]


def close(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and torch.allclose(x, y, rtol=1e-4, atol=1e-6 * float(y.abs().max())) for x, y in zip(a, b))


def twin(beh, sh):
    """Replay with and without the observing operations: the networks and what is measured of them end up the same."""
    h = [dict(st, k=k) for k, st in enumerate(beh["h"])]
    fin = []
    fail = lambda what: {"steps": len(h), "pids": ["I05"], "what": what, "at": len(h) - 1, "op": "twin"}
    for keep in (True, False):
        r = Replay(dict(beh, h=[s for s in h if keep or s["op"] not in OBSERVERS]), sh)
        r.generic = beh.get("generic", False)
        try:
            r.prev = [{"kind": "none", "inited": False}] * sh["slots"]
            for st in r.h:
                try:
                    with_timeout(120, lambda: r.do(st, st["k"]))
                    if keep and st["op"] in ("Measure", "Rdms"):
                        # a copy holds the same tensors and nothing remembered
                        n = r.obj[st["s"]]
                        pair = [values(n, r.sites), values(n.copy(), r.sites)]
                except Exception:
                    return {"steps": 0, "skipped": True}
                if keep and st["op"] in ("Measure", "Rdms") and not close(*pair):
                    return fail(f"density matrices of network {st['s']} at step {st['k']} differ from those of a copy of it")
                r.prev = st["slots"]
            fin.append({i: (snap(n, r.sites), settings(n), list(n.bond_list), values(n, r.sites)) for i, n in r.obj.items()})
        except Exception:
            return {"steps": 0, "skipped": True}
        finally:
            shutil.rmtree(r.dir, ignore_errors=True)
    a, b = fin
    for i in a:
        for (a1, c1, e1), (a2, c2, e2) in zip(a[i][0], b[i][0]):
            for x, y in zip([a1] + c1 + e1, [a2] + c2 + e2):
                if x.shape != y.shape or not torch.allclose(x, y, rtol=1e-4, atol=1e-6):
                    return fail(f"network {i} ends up different when it is (or other networks are) measured, saved or had gates built on the way")
        if a[i][1] != b[i][1] or a[i][2] != b[i][2]:
            return fail(f"settings or bond order of network {i} depend on observation")
        if not close(a[i][3], b[i][3]):
            return fail(f"what is measured of network {i} depends on it having been measured before")
    return {"steps": len(h)}
