"""Shared machinery: running TLC, exporting/validating behaviours, evidence, verdicts."""
import os, sys, json, time, re, subprocess, tempfile, shutil, traceback, random

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
for _v in ("RANK", "WORLD_SIZE", "SLURM_JOB_ID", "SLURM_JOB_NAME", "SLURM_JOB_PARTITION", "ACETN_LOG_LEVEL"):
    os.environ.pop(_v, None)
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
REPO = "/repo"
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class MachineryError(Exception):
    pass


def tier(q, t):
    return t if THOROUGH else q


# ----------------------------------------------------------------------------- TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla_value(x)}" for k, x in v.items()) + "]"
    raise MachineryError(f"no TLA value for {v!r}")


class TLCResult:
    def __init__(self, out, rc, states, distinct, depth, violated, files):
        self.out, self.rc, self.states, self.distinct, self.depth = out, rc, states, distinct, depth
        self.violated, self.files = violated, files


def tlc(module, consts=None, *, spec=None, init="Init", next="Next", invariants=(), properties=(), constraint=None,
        postcondition=None, simulate=None, depth=None, seed=None, workers=1, inputs=None, outputs=(), env=None,
        timeout=600, allow_violation=False, heap="4g", extra_defs="", deadlock=False):
    """Run TLC on /verif/specs/<module>.tla. `consts` become definitions in a generated root module.
    `inputs`: {name: json-able} files written next to the spec. `outputs`: ndjson files read back."""
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        consts = dict(consts or {})
        root = "Root_" + module
        lines = [f"---- MODULE {root} ----", f"EXTENDS {module}, TLC"]
        cfg = []
        if spec:
            cfg.append(f"SPECIFICATION {spec}")
        else:
            cfg += [f"INIT {init}", f"NEXT {next}"]
        for k, v in consts.items():
            lines.append(f"const_{k} == {v if isinstance(v, Raw) else tla_value(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        lines.append(extra_defs)
        lines.append("====")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        open(os.path.join(d, root + ".tla"), "w").write("\n".join(lines) + "\n")
        open(os.path.join(d, root + ".cfg"), "w").write("\n".join(cfg) + "\n")
        for name, val in (inputs or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                if name.endswith(".ndjson"):
                    for x in val:
                        fh.write(json.dumps(x) + "\n")
                else:
                    json.dump(val, fh)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
               "-fp", "0", "-seed", str(SEED if seed is None else seed)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += ["-config", root + ".cfg", root + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = p.stdout + p.stderr
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
        states = distinct = 0
        if m:
            states, distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"number of states generated: ([\d,]+)", out)
            if m:
                states = distinct = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        dep = int(m[-1]) if m else 0
        violated = None
        m = re.search(r"Error: (Invariant (\S+) is violated|Action property (\S+)|Temporal properties were violated|Deadlock reached|"
                      r".*[Pp]ost.?condition.*)", out)
        if m:
            violated = m.group(1)
        # TLC: 0 ok; 10..13 = property violations
        if p.returncode != 0 and not (allow_violation and violated):
            raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n{out[-6000:]}")
        files = {}
        for name in outputs:
            path = os.path.join(d, name)
            recs = []
            if os.path.exists(path):
                with open(path) as fh:
                    for line in fh:
                        line = line.strip()
                        if line:
                            recs.append(json.loads(line))
            files[name] = recs
        return TLCResult(out, p.returncode, states, distinct, dep, violated, files)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Raw(str):
    """A constant given as TLA+ text."""


# ----------------------------------------------------------------------------- verdicts
def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


class Check:
    """Collects what one check explored and its verdict."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known_hits = [], [], []
        self.extra = {}
        self.assumptions = []
        self.known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.states

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(s)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, what, case=None, key=None):
        """Record a violation; `key` identifies the failing input for the known-findings file."""
        for k in self.known:
            if key is not None and k.get("key") == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {k.get('what', what)}")
                return
        self.violations.append({"what": what, "case": case, "key": key})
        if len(self.violations) <= 5:
            print(f"  mismatch [{self.pid}] {what}", flush=True)

    def finish(self):
        cov = {"states": int(self.states), "transitions": int(self.transitions),
               "traces_validated_against_impl": int(self.traces), "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        tmp = path + ".tmp"
        json.dump(ev, open(tmp, "w"), indent=1, default=str)
        os.replace(tmp, path)
        if self.violations:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f"{self.pid}-{SEED}.json")
            json.dump(self.violations[:20], open(rp, "w"), indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} states={cov['states']} transitions={cov['transitions']} "
              f"replayed={cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
        return 0


# ----------------------------------------------------------------------------- parallel replay
def from_library(e):
    """Was the exception raised while the library's own code was running?"""
    return any(os.path.abspath(fr.filename).startswith(os.path.join(REPO, "acetn")) for fr in traceback.extract_tb(e.__traceback__))


def _worker(args):
    modname, fname, items, shared = args
    import importlib
    quiet()
    mod = importlib.import_module(modname)
    fn = getattr(mod, fname)
    res = []
    for i, it in items:
        try:
            res.append((i, fn(it, shared)))
        except MachineryError:
            raise
        except Exception as e:
            # raised by the library itself, or by looking at a malformed result of it: a violation (the harness converts
            # the ones it expects itself); a name or signature that is not there is the harness's problem
            inside = from_library(e)
            if modname != "sys_replay" and (inside or not isinstance(e, (AttributeError, TypeError, NameError, ImportError, OSError))):
                res.append((i, f"{fname} fails: {type(e).__name__}: {e}"[:600]))
            else:
                res.append((i, {"machinery": traceback.format_exc()}))
    return res


def parallel(modname, fname, items, shared=None, procs=None, chunk=None):
    """Run module.fn(item, shared) over items in worker processes; results in order."""
    import multiprocessing as mp
    items = list(enumerate(items))
    if not items:
        return []
    procs = procs or min(8, os.cpu_count() or 1)
    chunk = chunk or max(1, min(25, len(items) // (procs * 3) or 1))
    jobs = [(modname, fname, items[i:i + chunk], shared) for i in range(0, len(items), chunk)]
    import concurrent.futures.process
    import concurrent.futures as cf
    ctx = mp.get_context("fork")
    out = [None] * len(items)

    def take(res):
        for i, r in res:
            if isinstance(r, dict) and "machinery" in r:
                raise MachineryError(r["machinery"])
            out[i] = r
    lost = []
    with cf.ProcessPoolExecutor(min(procs, len(jobs)), mp_context=ctx) as pool:
        fs = {pool.submit(_worker, j): j for j in jobs}
        try:
            for f in cf.as_completed(fs):
                try:
                    take(f.result())
                except cf.process.BrokenProcessPool:
                    lost.append(fs[f])
        except BaseException:
            for f in fs:
                f.cancel()
            raise
    # a worker died (native code): find the item, each alone in a process
    dead = 0
    for mod, fn, its, sh in lost:
        for it in its:
            if dead >= 3:
                out[it[0]] = f"{fname}: not run, the process dies in other cases"
                continue
            with cf.ProcessPoolExecutor(1, mp_context=ctx) as pool:
                try:
                    take(pool.submit(_worker, (mod, fn, [it], sh)).result())
                except cf.process.BrokenProcessPool:
                    dead += 1
                    out[it[0]] = f"{fname} fails: the process dies"
    if dead and modname == "sys_replay" or lost and not dead:
        raise MachineryError("a worker process died")
    return out


def quiet():
    """Silence the library's console output."""
    from tqdm import tqdm
    tqdm.write = staticmethod(lambda *a, **k: None)
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_grad_enabled(False)
    torch.set_num_threads(1)
    torch.set_flush_denormal(True)    # LAPACK QR of complex matrices returns nan on denormal numbers


def main(pid, fn):
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    c = Check(pid)
    try:
        quiet()
        import acetn.ipeps
        import acetn
        if not os.path.abspath(acetn.__file__).startswith(REPO + "/"):
            raise MachineryError(f"acetn imported from {acetn.__file__}")
        fn(c)
    except MachineryError as e:
        print(f"MACHINERY-ERROR property={pid}: {e}", file=sys.stderr)
        if c.violations:
            sys.exit(c.finish())
        sys.exit(2)
    except Exception as e:
        traceback.print_exc()
        if from_library(e):
            c.violation(f"{type(e).__name__}: {e}"[:600], {"traceback": traceback.format_exc()[-3000:]})
        if c.violations:
            sys.exit(c.finish())
        sys.exit(2)
    sys.exit(c.finish())
