"""I01-I05, E01, F02, T01: behaviours of System.tla (and Registry.tla, FileSave.tla) replayed into the library."""
import os, sys, json, subprocess, tempfile, shutil, random
import vlib
from vlib import tlc, parallel, tier, SEED, MachineryError

ALL = ["New", "NewNoModel", "NewFrom", "Copy", "To", "CopyFrom", "Drop", "SetAll", "SetOne", "Poke", "SetModel", "SetParam",
       "SetChi", "Evolve", "Renormalize", "Measure", "Rdms", "BuildGate", "Save", "SaveFails", "Load"]


def w(**extra):
    """All kinds of operation once, some more often."""
    out = list(ALL)
    for k, n in extra.items():
        out += [k] * n
    return out


CELLS = [(2, 2), (3, 2), (2, 3)]
# per property: weights, gate kinds, dtypes, bond dimensions, options
PROFILES = {
    "I01": dict(kinds=w(Evolve=3, Poke=2, Copy=2, CopyFrom=1, NewFrom=2, SetChi=1, SetParam=1, BuildGate=1), gates=["zero", "shear"],
                dts={"f64", "f32"}, D=[1, 2, 2], slots=3, num=(96, 600), len=16),
    "I02": dict(kinds=w(Copy=3, To=3, CopyFrom=3, NewFrom=3, Evolve=2, SetAll=1, SetChi=2), gates=["zero"],
                dts={"f64", "f32", "c128", "c64"}, D=[2, 1, 2], slots=4, num=(120, 720), len=14),
    "I03": dict(kinds=w(Save=5, Load=6, SaveFails=1, Evolve=2, SetAll=1, NewFrom=1, SetChi=1, Renormalize=2), gates=["zero"],
                dts={"f64", "f32", "c128"}, D=[2, 1, 2], slots=3, num=(96, 600), len=16),
    "I04": dict(kinds=["New", "New", "NewNoModel", "NewFrom", "Copy", "CopyFrom", "SetAll", "SetModel", "SetModel", "SetParam", "SetChi", "SetChi",
                       "Evolve", "Evolve", "Evolve", "Evolve", "Evolve", "Load", "Load", "Save", "Save", "Renormalize", "Measure"],
                gates=["zero"], dts={"f64", "f32", "c128"}, D=[2, 1, 2], slots=3, num=(120, 800), len=14),
    "I05": dict(kinds=["New", "Evolve", "Evolve", "Measure", "Measure", "Rdms", "BuildGate", "Save", "SaveFails", "Copy", "To", "NewFrom",
                       "SetModel", "SetParam", "Renormalize", "SetAll", "SetChi"],
                gates=["zero", "shear"], dts={"f64", "c128"}, D=[1, 2], slots=3, num=(96, 480), len=14),
    "E01": dict(kinds=["New", "NewFrom", "Copy", "CopyFrom", "SetAll", "SetAll", "SetModel", "SetParam"] + ["Evolve"] * 8,
                gates=["shear"], dts={"f64", "f32", "c128"}, D=[1], slots=2, num=(144, 1000), len=12, maxsteps=3),
    "F02": dict(kinds=["New", "NewNoModel", "NewFrom", "SetModel", "SetModel", "SetParam", "SetParam", "Copy", "CopyFrom", "SetAll",
                       "Measure", "Measure", "Measure", "Evolve", "Evolve", "Evolve", "Evolve", "SetChi", "Renormalize"],
                gates=["cool"], dts={"f64", "f32"}, D=[1], slots=3, num=(120, 800), len=16, models=3),
    "T01": dict(kinds=w(Evolve=4, To=2, Load=1, Save=1, Measure=2, SetAll=1), gates=["zero", "shear"],
                dts={"f64", "f32", "c128", "c64"}, D=[2, 1, 2], slots=3, num=(96, 560), len=14),
    "L01": dict(kinds=w(Evolve=4, Copy=1, CopyFrom=2, Load=2, Save=2), gates=["zero"],
                dts={"f64"}, D=[1], slots=3, num=(64, 320), len=16, maxsteps=3),
}


def real_bonds(nx, ny):
    """The unit cell's bond list as the library lists it."""
    from acetn.ipeps.tensor_network import TensorNetwork
    from acetn.ipeps.ipeps_config import TNConfig
    import torch
    tn = TensorNetwork(None, TNConfig(nx=nx, ny=ny, dims={"phys": 2, "bond": 1, "chi": 1}), torch.float64, torch.device("cpu"))
    sites = [(x, y) for x in range(nx) for y in range(ny)]
    bl = [(sites.index(tuple(b.s1)) + 1, sites.index(tuple(b.s2)) + 1, int(b.k)) for b in tn.bond_list]
    return bl


def run_profile(c, pid, twins=False):
    p = PROFILES[pid]
    num = tier(*p["num"])
    explicit = {"Explicit"}
    total = 0
    for ci, cell in enumerate(CELLS):
        bonds = real_bonds(*cell)
        if sorted(b[0] for b in bonds) == [] or len(bonds) != 2 * cell[0] * cell[1]:
            # not the square lattice: the lattice property reports that
            if pid == "L01":
                c.violation(f"the {cell} unit cell has {len(bonds)} bonds", {"cell": cell, "bonds": bonds})
            continue
        for gi, kind in enumerate(p["gates"]):
            n = max(4, num // (len(CELLS) * len(p["gates"])) * (2 if ci == 0 else 1))
            consts = dict(NSites=cell[0] * cell[1], Bonds=bonds, Slots=p["slots"], Files=2, NModels=p.get("models", 2), NParams=3,
                          DTypes=p["dts"], Chis={4, 6, 9}, Ops=(set(p["kinds"]) - {"NewNoModel"}) | {"New"} | explicit, Kinds=p["kinds"],
                          GateKind=kind, MaxSteps=p.get("maxsteps", 2), MaxMult=2, Len0=p["len"])
            r = tlc("System", consts, next="SimNext", invariants=["TypeOK", "DistinctIds", "ContentDeterminesCfg", "Export"],
                    simulate=n, depth=3 * p["len"] + 4, seed=SEED * 1000 + 10 * ci + gi, outputs=["beh.ndjson"])
            behs = r.files["beh.ndjson"]
            if not behs:
                raise MachineryError("no behaviours generated")
            c.transitions += r.states
            states = {json.dumps(h["slots"], sort_keys=True) for b in behs for h in b["h"]}
            c.states += len(states)
            for i, b in enumerate(behs):
                b["D"] = p["D"][i % len(p["D"])]
                b["update"] = ["full", "simple"][(i // len(p["D"])) % 2]
                b["svd"] = "full-rank" if i % 4 else "rsvd"
                b["proj"] = "half-system" if i % 5 else "full-system"
                b["seed"] = SEED * 100000 + i
            sh = dict(cell=cell, bonds=bonds, slots=p["slots"], kind=kind, pid=pid)
            res = parallel("sys_replay", "replay", behs, sh)
            for i, x in enumerate(res):
                c.count("replayed_steps", x["steps"])
                for h in behs[i]["h"][:x["steps"]]:
                    c.count("op_" + h["op"])
                if "pids" in x:
                    if pid in x["pids"]:
                        c.violation(f"{x['what']} [cell {cell}, gates {kind}, D={behs[i]['D']}, {behs[i]['update']} update]",
                                    {"cell": cell, "kind": kind, "behaviour": [
                                        {k: v for k, v in h.items() if k not in ("slots", "files")} for h in behs[i]["h"][:x["at"] + 1]]})
                    else:
                        c.count("stopped_by_other_property")
                else:
                    c.traces += 1
            total += len(behs)
            c.sample({"cell": cell, "gates": kind, "ops": [
                " ".join(f"{k}={v}" for k, v in h.items() if k not in ("slots", "files")) for h in behs[0]["h"]]}, cap=2)
            if twins:
                tb = [dict(b, generic=g) for b in behs if b["svd"] == "full-rank" for g in (False, True)]
                for x, b in zip(parallel("sys_replay", "twin", tb, sh), tb):
                    if "pids" in x:
                        c.violation(x["what"], {"behaviour": [{k: v for k, v in h.items() if k not in ("slots", "files")} for h in b["h"]]})
                    elif not x.get("skipped"):
                        c.count("twins")
    return total


def design_check(c):
    """Exhaustive: every history of the small system has the design-level properties."""
    ops = {"New", "NewFrom", "Copy", "CopyFrom", "SetOne", "SetModel", "SetParam", "Evolve", "Measure", "Save", "Load", "Poke", "Drop"}
    r = tlc("System", dict(NSites=2, Bonds=[(1, 2, 2), (2, 1, 2)], Slots=2, Files=1, NModels=1, NParams=2, DTypes={"f64"}, Chis={4},
                           Ops=ops, Kinds=["New"], GateKind="shear", MaxSteps=1, MaxMult=1, Len0=tier(4, 5)),
            spec="DSpec", extra_defs="DSpec == Init /\\ [][Next]_vars", invariants=["TypeOK", "DistinctIds", "ContentDeterminesCfg"],
            properties=["Isolation", "StateKept", "ObserversObserve"], workers=4, timeout=800)
    c.add_tlc(r)
    c.extra["design_states_exhaustive"] = r.distinct


# ------------------------------------------------------------------------- E01: splitting runs
def split_check(c):
    """Spec theorem (TLC): evolving m then n steps is evolving m+n steps, for every small configuration and parameters."""
    bonds = [(1, 3, 2), (2, 4, 2), (3, 1, 2), (4, 2, 2), (1, 2, 1), (3, 4, 1), (2, 1, 1), (4, 3, 1)]
    extra = """VARIABLE th
ThInit == th \\in [Site -> 0..2] /\\ slots = <<>> /\\ files = <<>> /\\ gates = <<>> /\\ nxt = 0 /\\ hist = <<>> /\\ pick = ""
ThNext == FALSE /\\ UNCHANGED <<vars, th>>
Split == \\A a \\in 0..2, b \\in 0..2, m \\in 1..2, p \\in 0..1 :
   Steps(th, FALSE, a + b, m, p, 1) = Steps(Steps(th, FALSE, a, m, p, 1), a % 2 = 1, b, m, p, 1)
OrderMatters == Steps(th, FALSE, 1, 1, 0, 1) # Steps(th, TRUE, 1, 1, 0, 1)"""
    r = tlc("System", dict(NSites=4, Bonds=bonds, Slots=1, Files=1, NModels=2, NParams=2, DTypes={"f64"}, Chis={4}, Ops=set(["New"]),
                           Kinds=["New"], GateKind="shear", MaxSteps=1, MaxMult=1, Len0=1),
            init="ThInit", next="ThNext", invariants=["Split"], extra_defs=extra)
    c.add_tlc(r)


# ------------------------------------------------------------------------- F02: registry
def registry_check(c):
    n = tier(60, 400)
    r0 = tlc("Registry", dict(Names={"alpha", "beta"}, Custom="custom", NClasses=2, NNets=2, Len0=tier(4, 5)), spec="DSpec",
             extra_defs="DSpec == Init /\\ [][Next]_vars", invariants=["OnlyModels"], properties=["Sticky"], workers=4)
    c.add_tlc(r0)
    r = tlc("Registry", dict(Names={"alpha", "beta"}, Custom="custom", NClasses=3, NNets=3, Len0=12), next="SimNext",
            invariants=["OnlyModels", "Export"], simulate=n, depth=60, outputs=["beh.ndjson"])
    behs = r.files["beh.ndjson"]
    c.transitions += r.states
    c.states += len({json.dumps(h, sort_keys=True) for b in behs for h in b["h"]})
    for b, x in zip(behs, parallel("sys_check", "registry_replay", behs)):
        if x:
            c.violation(x, b)
        else:
            c.traces += 1
    c.sample({"registry": behs[0]["h"]}, cap=3)


def registry_replay(beh, _):
    from acetn.ipeps import Ipeps
    from acetn.model import Model
    from acetn.model.model_factory import ModelFactory, model_factory
    import torch
    before = dict(model_factory._models) if hasattr(model_factory, "_models") else None
    used = []

    def mk(k):
        class _M(Model):
            def two_site_hamiltonian(self, bond):
                used.append((k, dict(self.params)))
                return torch.zeros(4, 4, dtype=self.dtype)

            def one_site_hamiltonian(self, site):
                used.append((k, dict(self.params)))
                return None
        return _M
    cls = {k: mk(k) for k in range(1, 4)}

    class NotAModel:
        pass
    nets, par = {}, {}
    base = {"TN": {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": 1, "chi": 2}},
            "ctmrg": {"steps": 0, "disable_progressbar": True}, "evolution": {"disable_progressbar": True}}
    uid = f"{random.randrange(10**9)}_"       # names are process-wide: keep behaviours apart
    nm = lambda n: "custom" if n == "custom" else uid + n
    try:
        for k, st in enumerate(beh["h"]):
            op = st["op"]
            used.clear()
            try:
                if op == "Register":
                    model_factory.register(nm(st["name"]), cls[st["c"]])
                elif op == "RegisterBad":
                    model_factory.register(nm(st["name"]), NotAModel)
                elif op == "NewByName":
                    par[st["i"]] = {"v": k}
                    nets[st["i"]] = Ipeps({**base, "model": {"name": nm(st["name"]), "params": dict(par[st["i"]])}})
                elif op == "NewUnset":
                    par[st["i"]] = {}
                    nets[st["i"]] = Ipeps(dict(base))
                elif op == "SetModel":
                    par[st["i"]] = {"v": k}
                    if st["name"] == "custom":
                        nets[st["i"]].set_model(cls[st["c"]], dict(par[st["i"]]))
                    else:
                        nets[st["i"]].set_model(cls[st["c"]], dict(par[st["i"]]), name=nm(st["name"]).upper())
                elif op == "SetModelBad":
                    nets[st["i"]].set_model(NotAModel, {"v": -1})
                elif op == "Use":
                    if st["how"] == "measure":
                        nets[st["i"]].measure()
                    else:
                        nets[st["i"]].evolve(dtau=0.1, steps=1)
                out = "ok"
            except Exception as e:
                out = type(e).__name__
            want = st["out"]
            if want == "refused":
                if out == "ok":
                    return f"step {k}: {op} on a network without a model is not refused"
            elif out != want:
                return f"step {k}: {op} {st} ended with {out}, expected {want}"
            if op == "Use" and want == "ok":
                got = {u[0] for u in used}
                if got != {st["cls"]}:
                    return f"step {k}: {st} consulted classes {sorted(got)}, expected {st['cls']}"
                if any(u[1] != par[st["i"]] for u in used):
                    return f"step {k}: parameters {used[0][1]}, expected {par[st['i']]}"
            for n_, c_ in st["reg"].items():
                if n_ != "custom" and (nm(n_) in model_factory.list_registered()) != (c_ != 0):
                    return f"step {k}: after {op}, {n_} registered: {nm(n_) in model_factory.list_registered()}, expected {c_ != 0}"
        return None
    finally:
        if before is not None:
            model_factory._models.clear()
            model_factory._models.update(before)


# ------------------------------------------------------------------------- I03: interrupted saves
SAVE_CHILD = r'''
import sys, os, json, signal, resource
sys.path.insert(0, "/repo"); sys.path.insert(0, sys.argv[1])
mode, arg, path, dt = sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5]
import vlib; vlib.quiet()
import torch
from acetn.ipeps import Ipeps
cfg = {"dtype": dt, "TN": {"nx": 2, "ny": 1, "dims": {"phys": 2, "bond": 2, "chi": 4}}}
def make(seed):
    torch.manual_seed(seed)
    n = Ipeps(cfg)
    for s in n.site_list:
        n[s]["A"] = torch.randn(2,2,2,2,2)
    return n
old, new = make(1), make(2)
d = os.path.dirname(path)
if mode == "init":
    old.save(path); sys.exit(0)
if mode == "check":
    n = make(3)
    try:
        n.load(path)
    except Exception as e:
        print("unreadable: %s: %s" % (type(e).__name__, e)); sys.exit(0)
    same = lambda a, b: all(torch.equal(a[s]["A"], b[s]["A"]) and all(torch.equal(x, y) for x, y in zip(a[s]["C"]+a[s]["E"], b[s]["C"]+b[s]["E"])) for s in a.site_list)
    print("old" if same(n, old) else "new" if same(n, new) else "mixed"); sys.exit(0)
log = []
count = [0]
def hook(ev, a):
    if not active[0]:
        return
    rec = None
    if ev == "open" and isinstance(a[0], (str, bytes)) and os.fsdecode(a[0]).startswith(d):
        fl = a[2] if len(a) > 2 and isinstance(a[2], int) else 0
        m = a[1] or ""
        if any(c in str(m) for c in "wxa+") or (fl & (os.O_WRONLY | os.O_RDWR)):
            rec = ["open", os.fsdecode(a[0]), ""]
    elif ev in ("os.rename", "os.link", "shutil.move", "shutil.copyfile"):
        if os.fsdecode(a[1]).startswith(d):
            rec = ["rename", os.fsdecode(a[0]), os.fsdecode(a[1])]
    elif ev in ("os.remove", "os.truncate"):
        if isinstance(a[0], (str, bytes)) and os.fsdecode(a[0]).startswith(d):
            rec = ["remove", os.fsdecode(a[0]), ""]
    if rec:
        log.append(rec)
        if mode == "event" and len(log) == arg:
            os._exit(17)
active = [False]
sys.addaudithook(hook)
if mode == "size":          # the process dies when a file would grow beyond arg bytes
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_FSIZE, (arg, resource.RLIM_INFINITY))
active[0] = True
new.save(path)
active[0] = False
if mode == "log":
    print(json.dumps(log))
'''


def save_crash_check(c):
    d = tempfile.mkdtemp(prefix="savecrash_")
    try:
        script = os.path.join(d, "child.py")
        open(script, "w").write(SAVE_CHILD)
        work = os.path.join(d, "w")
        os.makedirs(work)
        path = os.path.join(work, "net.pt")
        hd = os.path.dirname(os.path.abspath(__file__))

        def run(mode, arg=0, dt="float64", p=None):
            r = subprocess.run([vlib.PY, script, hd, mode, str(arg), p or path, dt], capture_output=True, text=True, timeout=120)
            return r
        r = run("init")
        if r.returncode:
            c.violation(f"save fails: {r.stderr[-300:]}", {"mode": "init"})
            return
        orig = open(path, "rb").read()
        r = run("log")
        if r.returncode:
            c.violation(f"save over an existing file fails: {r.stderr[-300:]}", {"mode": "log"})
            return
        log = json.loads(r.stdout.strip().splitlines()[-1])
        full = os.path.getsize(path)
        if run("check").stdout.strip() != "new":
            c.violation("a completed save does not hold the saved network", {"mode": "log"})
            return
        # the recorded operations against FileSave.tla (a file being written is complete when the next operation starts)
        # writes of native code raise no event: a renamed file was written before, and a named file that changed
        # without any event was written directly
        seen, log2 = set(), []
        for op, a, b in log:
            if op == "rename" and a not in seen:
                log2.append(["open", a, ""])
            seen.add(a)
            log2.append([op, a, b])
        if not any(path in (a, b) for op, a, b in log2):
            log2.append(["open", path, ""])
        log, nlog = log2, len(log)
        names = {path: "target"}
        tr, last = [], None
        for op, a, b in log:
            names.setdefault(a, "target" if a == path else f"t{len(names)}")
            if b:
                names.setdefault(b, "target" if b == path else f"t{len(names)}")
            if last:
                tr.append({"op": "close", "path": last, "to": last})
                last = None
            tr.append({"op": op, "path": names[a], "to": names.get(b, names[a])})
            if op == "open":
                last = names[a]
        if last:
            tr.append({"op": "close", "path": last, "to": last})
        if not tr:
            raise MachineryError("no file operations recorded in save()")
        rr = tlc("FileSave", init="TInit", next="TNext", invariants=["TComplete"], postcondition="TAccepted",
                 inputs={"trace.ndjson": tr}, allow_violation=True)
        c.add_tlc(rr)
        if rr.violated:
            c.violation(f"save() passes through a state in which the named file is incomplete: {tr}", {"ops": tr})
        else:
            c.traces += 1
        r2 = tlc("FileSave", spec="FSpec", extra_defs="FSpec == Init /\\ [][Next]_vars", invariants=["Complete"], properties=["NeverLost"])
        c.add_tlc(r2)
        # crash points in the real code
        rnd = random.Random(SEED)
        sizes = sorted({0, 1, 100, full // 2, full - 1} | {rnd.randrange(full) for _ in range(tier(5, 60))})
        cases = [("size", s) for s in sizes] + [("event", k) for k in range(1, nlog + 1)]
        for ci, (mode, arg) in enumerate(cases):
            for f in os.listdir(work):
                os.remove(os.path.join(work, f))
            open(path, "wb").write(orig)
            r = run(mode, arg)
            out = run("check").stdout.strip()
            c.count("crash_points")
            if r.returncode == 0 and out != "new":
                c.violation(f"save() succeeded but the file holds: {out}", {"mode": mode, "arg": arg})
            elif out not in ("old", "new"):
                c.violation(f"save() interrupted ({mode} {arg}) leaves the file {out}", {"mode": mode, "arg": arg})
            else:
                c.traces += 1
        c.sample({"file_operations": tr, "crash_cases": cases[:6]}, cap=3)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(c, pid):
    c.assumptions += ["CPU only, one process", "histories of bounded length over the unit cells 2x2, 3x2 and 2x3"]
    if pid in ("I01", "I05"):
        design_check(c)
    if pid == "E01":
        split_check(c)
    run_profile(c, pid, twins=(pid == "I05"))
    if pid == "F02":
        registry_check(c)
    if pid == "I03":
        save_crash_check(c)
