"""F01: configurations of Config.tla given to the library."""
import ast, copy, os, io, random, contextlib, sys
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel
from sys_replay import with_timeout

ENVS = {"none": {}, "batch": {"SLURM_JOB_ID": "7", "SLURM_JOB_NAME": "run1", "SLURM_JOB_PARTITION": "gpu"},
        "interactive_name": {"SLURM_JOB_ID": "7", "SLURM_JOB_NAME": "interactive"},
        "interactive_partition": {"SLURM_JOB_ID": "8", "SLURM_JOB_NAME": "bash", "SLURM_JOB_PARTITION": "interactive"}}
TEXT = {"projectors", "svd_type", "backend", "update_type", "als_method", "name", "dtype", "device"}


def val(name, v):
    if v == "None":
        return None
    return v if name in TEXT else ast.literal_eval(v)


def build(opts, c, bad):
    cfg = {"TN": {}}
    for o, x in zip(opts, c):
        if x["how"] == "omitted":
            continue
        v = val(o["name"], x["v"])
        if v is None:
            continue
        if o["sec"] == "top":
            if x["how"] == "object":
                v = getattr(torch, v) if o["name"] == "dtype" else torch.device(v)
            cfg[o["name"]] = v
        elif o["sec"] == "dims":
            cfg["TN"].setdefault("dims", {})[o["name"]] = v
        else:
            cfg.setdefault(o["sec"], {})[o["name"]] = copy.deepcopy(v)
    if bad == "top":
        cfg["no_such_option"] = 1
    elif bad:
        cfg.setdefault(bad, {})["no_such_option"] = 1
    return cfg


def effective(net, opts):
    out = []
    for o in opts:
        n = o["name"]
        if o["sec"] == "TN":
            v = getattr(net, n)
        elif o["sec"] == "dims":
            v = net.dims[n]
        elif o["sec"] == "top":
            v = getattr(net, n)
        else:
            v = getattr(getattr(net.config, o["sec"]), n)
        out.append(copy.deepcopy(v))
    return out


def same(o, got, want):
    n = o["name"]
    if n == "dtype":
        return got is getattr(torch, want)
    if n == "device":
        return got == torch.device(want)
    w = val(n, want)
    return type(got) is type(w) and got == w or (isinstance(w, float) and float(got) == w)


@contextlib.contextmanager
def environ(e):
    old = {k: os.environ.pop(k, None) for k in ("SLURM_JOB_ID", "SLURM_JOB_NAME", "SLURM_JOB_PARTITION")}
    os.environ.update(ENVS[e])
    try:
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def replay(b, _):
    from acetn.ipeps import Ipeps
    opts = b["opts"]
    nets = []
    for k, h in enumerate(b["h"]):
        cfg = build(opts, h["cfg"], h["bad"])
        pristine = copy.deepcopy(cfg)
        with environ(h["env"]):
            try:
                net = Ipeps(cfg)
            except Exception as e:
                if h["bad"]:
                    continue
                return f"configuration {cfg} is refused: {type(e).__name__}: {e}"
        if h["bad"]:
            return f"an unknown option in section {h['bad']} is accepted: {cfg}"
        if cfg != pristine:
            return f"creating a network changes the configuration given: {pristine} -> {cfg}"
        nets.append((net, h["eff"], k))
        for net, eff, kk in nets:
            for o, got, want in zip(opts, effective(net, opts), eff):
                if not same(o, got, want):
                    s = f"option {o['sec']}.{o['name']} is {got!r}, expected {want!r}"
                    return s + (f" (configuration {cfg}, environment {h['env']})" if kk == k else f" after creating another network with {cfg}")
        net = nets[-1][0]
        # the tensors are built as configured
        d = {o["name"]: val(o["name"], w) for o, w in zip(opts, h["eff"])}
        if len(net.site_list) != d["nx"] * d["ny"]:
            return f"{d['nx']}x{d['ny']} network has {len(net.site_list)} sites"
        for s in net.site_list:
            A = net[s]["A"]
            if tuple(A.shape) != (d["bond"],) * 4 + (d["phys"],) or str(A.dtype) != "torch." + d["dtype"] or A.device.type != d["device"]:
                return f"site tensor {tuple(A.shape)} {A.dtype} {A.device} for configuration {cfg}"
    return None


# ------------------------------------------------------------------ options reach the algorithms
EFFECTS = [  # section, option, another value, how it shows, base options making it show
    ("ctmrg", "steps", 2, "renorm", {}),
    ("ctmrg", "projectors", "full-system", "renorm", {}),
    ("ctmrg", "svd_type", "full-rank", "renorm", {}),
    ("ctmrg", "svd_cutoff", 0.5, "renorm", {}),
    ("ctmrg", "rsvd_niter", 0, "renorm", {}),
    ("ctmrg", "rsvd_oversampling", 5, "renorm", {}),
    ("TN.dims", "chi", 3, "renorm", {}),
    ("evolution", "update_type", "simple", "evolve", {}),
    ("evolution", "use_gauge_fix", False, "evolve", {}),
    ("evolution", "gauge_fix_atol", 0.1, "evolve", {}),
    ("evolution", "positive_approx_cutoff", 0.5, "evolve", {}),
    ("evolution", "als_niter", 0, "evolve", {}),
    ("evolution", "als_tol", 10., "evolve", {}),
    ("evolution", "als_method", "pinv", "evolve", {}),
    ("evolution", "als_epsilon", 0.3, "evolve", {}),
    ("ctmrg", "svd_cutoff", 0.5, "renorm", {"projectors": "full-system"}),
    ("ctmrg", "rsvd_niter", 0, "renorm", {"projectors": "full-system"}),
    ("ctmrg", "rsvd_oversampling", 5, "renorm", {"projectors": "full-system"}),
    ("ctmrg", "svd_cutoff", 0.5, "renorm", {"projectors": "full-system", "svd_type": "full-rank"}),
    ("ctmrg", "svd_cutoff", 0.5, "renorm", {"svd_type": "full-rank"}),
    ("evolution", "positive_approx_cutoff", 0.5, "evolve", {"use_gauge_fix": False}),
    ("evolution", "positive_approx_cutoff", 0.5, "evolve", {"als_method": "pinv"}),
    ("evolution", "gauge_fix_atol", 0.1, "evolve", {"als_method": "pinv"}),
    ("evolution", "als_niter", 0, "evolve", {"use_gauge_fix": False}),
    ("evolution", "als_niter", 0, "evolve", {"als_method": "pinv"}),
    ("evolution", "als_tol", 10., "evolve", {"use_gauge_fix": False}),
    ("evolution", "als_tol", 10., "evolve", {"als_method": "pinv"}),
    ("evolution", "als_method", "pinv", "evolve", {"use_gauge_fix": False}),
    ("evolution", "als_epsilon", 0.3, "evolve", {"use_gauge_fix": False}),
    ("evolution", "use_gauge_fix", False, "evolve", {"als_method": "pinv"}),
    ("evolution", "update_type", "simple", "evolve", {"use_gauge_fix": False, "als_method": "pinv"}),
]


# every value of the option matters: no two of the values give the same outcome
RAMPS = [
    ("ctmrg", "steps", [0, 1, 2, 3], "renorm", {}),
    ("ctmrg", "rsvd_niter", [0, 1, 2, 3], "renorm", {"rsvd_oversampling": 0}),
    ("ctmrg", "rsvd_niter", [0, 1, 2], "renorm", {"rsvd_oversampling": 1, "projectors": "full-system"}),
    ("ctmrg", "rsvd_oversampling", [0, 1, 2, 3, 5], "renorm", {"rsvd_niter": 0}),
    ("ctmrg", "rsvd_oversampling", [0, 1, 2, 5], "renorm", {"rsvd_niter": 0, "projectors": "full-system"}),
    ("TN.dims", "chi", [1, 2, 3, 4, 7], "renorm", {}),
    ("evolution", "als_niter", [0, 1, 2, 3, 4], "evolve", {"als_tol": 0.}),
    ("evolution", "als_niter", [0, 1, 2, 3], "evolve", {"als_tol": 0., "als_method": "pinv"}),
    ("evolution", "als_niter", [0, 1, 2], "evolve", {"als_tol": 0., "use_gauge_fix": False}),
    ("evolution", "als_epsilon", [1e-3, 1e-2, 0.3], "evolve", {}),
    ("evolution", "als_epsilon", [1e-3, 1e-2, 0.3], "evolve", {"use_gauge_fix": False}),
    ("evolution", "positive_approx_cutoff", [1e-2, 0.1, 0.5], "evolve", {"use_gauge_fix": False}),
    ("evolution", "positive_approx_cutoff", [1e-2, 0.1, 0.5], "evolve", {}),
    ("evolution", "als_niter", [0, 1, 2], "evolve", {"als_tol": 0., "use_gauge_fix": False, "als_method": "pinv"}),
]


def effect(e, seed):
    from acetn.ipeps import Ipeps
    from acetn.ipeps.tensor_network import TensorNetwork
    sec, name, other, how, base = e
    own = sec if sec in ("ctmrg", "evolution") else "ctmrg"

    def outcome(given):
        try:
            return compute(given)
        except torch.linalg.LinAlgError as x:      # an extreme value may make the algorithm fail: an outcome of its own
            if given is None or given[0] != other:
                raise
            return [torch.tensor(0)]

    def compute(given):
        cfg = {"TN": {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": 2, "chi": 4}},
               "ctmrg": {"disable_progressbar": True, "steps": 1}, "evolution": {"disable_progressbar": True},
               "model": {"name": "ising", "params": {"jz": 1., "hx": 2.5}}}
        cfg[own].update(base)
        if given is not None:
            d = cfg["TN"]["dims"] if sec == "TN.dims" else cfg[sec]
            d[name] = given[0]
        elif name == "chi":
            del cfg["TN"]["dims"]["chi"]
        torch.manual_seed(seed)
        n0 = Ipeps(cfg)
        tn = TensorNetwork(None, n0.config.TN, n0.dtype, n0.device)
        for s in tn.site_list:
            tn[s]["A"] = torch.rand(2, 2, 2, 2, 2, dtype=torch.float64) + 0.2
            tn[s].initialize_corner_tensors()
            tn[s].initialize_edge_tensors()
        net = Ipeps(cfg, ipeps=tn)
        torch.manual_seed(seed + 1)
        if how == "renorm":
            net.renormalize()
            net.renormalize()
        else:
            net.evolve(0.1, 1)
        out = []
        for s in net.site_list:
            out += [net[s]["A"]] + list(net[s]["C"]) + list(net[s]["E"])
        return out
    eq = lambda a, b: len(a) == len(b) and all(x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b))
    if isinstance(other, list):
        res = [outcome([v]) for v in other]
        for i, a in enumerate(res):
            if not eq(a, outcome([other[i]])):
                return f"{sec}.{name}={other[i]!r} does not give the same outcome twice (other options {base})"
            for j in range(i):
                if eq(a, res[j]):
                    return f"{sec}.{name}={other[j]!r} and {other[i]!r} give the same outcome (other options {base})"
        return None
    defaults = {"projectors": "half-system", "svd_type": "rsvd", "svd_cutoff": 1e-12, "rsvd_niter": 2, "rsvd_oversampling": 2,
                "update_type": "full", "use_gauge_fix": True, "gauge_fix_atol": 1e-12, "positive_approx_cutoff": 1e-12, "als_niter": 100,
                "als_tol": 1e-15, "als_method": "cholesky", "als_epsilon": 1e-12, "chi": 20}
    default = defaults.get(name)
    omitted = outcome(None)
    if default is not None and not eq(omitted, outcome([default])):
        return f"leaving out {sec}.{name} differs from giving its default {default!r} (other options {base})"
    if eq(omitted, outcome([other])):
        return f"{sec}.{name}={other!r} has no effect (other options {base})"
    return None


def effects(item, _):
    e, seed = item
    try:
        return with_timeout(200, lambda: effect(e, seed))
    except Exception as x:
        return f"option {e[0]}.{e[1]}={e[2]!r}: {type(x).__name__}: {x}"


def bars(item, _):
    """Progress bars are written to stderr exactly when they are not disabled."""
    from acetn.ipeps import Ipeps
    ctm, evo, env = item
    cfg = {"TN": {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": 1, "chi": 2}}, "ctmrg": {"steps": 1}, "evolution": {"update_type": "simple"},
           "model": {"name": "ising", "params": {"jz": 1., "hx": 1.}}}
    for sec, x in (("ctmrg", ctm), ("evolution", evo)):
        if x is not None:
            cfg[sec]["disable_progressbar"] = x
    with environ(env):
        net = Ipeps(cfg)
    err = io.StringIO()
    old = sys.stderr
    sys.stderr = err
    try:
        net.renormalize()
        r = err.getvalue()
        net.config.ctmrg.steps = 0
        net.config.ctmrg.disable_progressbar = True
        err.seek(0)
        err.truncate()
        net.evolve(0.1, 1)
        e = err.getvalue()
    finally:
        sys.stderr = old
    for what, text, dis in (("renormalization", r, ctm), ("evolution", e, evo)):
        want = not dis and env != "batch"
        if bool(text.strip()) != want:
            return f"{what} progress bar {'shown' if text.strip() else 'not shown'} with disable_progressbar={dis} in environment {env}"
    return None


LOG_CHILD = r"""
import sys, os, hashlib
level = os.environ.get("ACETN_LOG_LEVEL")
sys.path.insert(0, "/repo"); sys.path.insert(0, sys.argv[1])
import vlib; vlib.quiet()
if level: os.environ["ACETN_LOG_LEVEL"] = level     # removed by vlib
import torch
from acetn.ipeps import Ipeps
h = hashlib.sha256()
for upd, D, steps in (("simple", 2, 21), ("full", 1, 11), ("full", 2, 11)):
    torch.manual_seed(5)
    n = Ipeps({"TN": {"nx": 2, "ny": 2, "dims": {"phys": 2, "bond": D, "chi": 4 if D == 1 else 3}}, "ctmrg": {"steps": 1, "svd_type": "full-rank", "disable_progressbar": True},
               "evolution": {"update_type": upd, "disable_progressbar": True}, "model": {"name": "ising", "params": {"jz": 1., "hx": 2.}}})
    n.evolve(0.05, steps)
    n.evolve(0.02, 1)
    for s in n.site_list:
        for t in [n[s]["A"]] + n[s]["C"] + n[s]["E"]:
            h.update(t.contiguous().numpy().tobytes())
    h.update(repr([(b.s1, b.s2, b.k) for b in n.bond_list]).encode())
    h.update(repr(sorted((k, float(v)) for k, v in n.measure().items())).encode())
print(h.hexdigest())
"""


def log_levels(_, __):
    """The log level is no part of the computation."""
    import subprocess, vlib
    out = {}
    for lv in (None, "DEBUG", "debug", "WARNING", "ERROR"):
        env = {k: v for k, v in os.environ.items() if k != "ACETN_LOG_LEVEL"}
        if lv:
            env["ACETN_LOG_LEVEL"] = lv
        env["OMP_NUM_THREADS"] = "1"
        r = subprocess.run([vlib.PY, "-c", LOG_CHILD, os.path.dirname(os.path.abspath(__file__))], capture_output=True, text=True, timeout=300, env=env)
        if r.returncode:
            return f"evolution fails with ACETN_LOG_LEVEL={lv}: {r.stderr[-300:]}"
        out[lv] = r.stdout.split()[-1]
        if out[lv] != out[None]:
            return f"evolution differs with ACETN_LOG_LEVEL={lv}"
    return None


def run(c, pid):
    c.assumptions += ["no CUDA device and no cuTENSOR extension in the sandbox: the fallback side of those options"]
    n = tier(200, 1500)
    r = tlc("Config", dict(Len0=tier(6, 8)), invariants=["Means", "Export"], properties=["Independent"], simulate=n,
            depth=60, outputs=["out.ndjson"])
    behs = r.files["out.ndjson"]
    if len(behs) < n // 2:
        raise MachineryError(f"only {len(behs)} histories")
    c.transitions += r.states
    c.states += sum(len(b["h"]) for b in behs)
    for b, x in zip(behs, parallel("config_check", "replay", behs)):
        if x:
            c.violation(x, {"history": [build(b["opts"], h["cfg"], h["bad"]) for h in b["h"]]})
        else:
            c.traces += 1
    c.sample({"first configuration": build(behs[0]["opts"], behs[0]["h"][0]["cfg"], ""), "environment": behs[0]["h"][0]["env"]})
    for x in parallel("config_check", "effects", [(e, SEED * 17) for e in EFFECTS + RAMPS], chunk=1):
        if x:
            c.violation(x)
        else:
            c.count("options_with_effect")
    items = [(a, b, e) for a in (None, True, False) for b in (None, True, False) for e in ENVS]
    for x in parallel("config_check", "bars", items):
        if x:
            c.violation(x)
        else:
            c.count("progress_bar_cases")
    for x in parallel("config_check", "log_levels", [0]):
        if x:
            c.violation(x)
        else:
            c.count("log_levels_compared", 5)
