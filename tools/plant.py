"""Development tool: plant a bug, confirm it, and keep it under /verif/seeded/<id>/.
  plant.py make DEFS.py [id ...]   build/confirm the seeds defined in DEFS.py (variable SEEDS)
  plant.py eval [-a] [id ...]      run the property's check (-a: all checks) against each seed, in a private mount
                                   namespace where /repo is a patched copy
No check uses this file."""
import sys, os, json, subprocess, shutil, importlib.util, concurrent.futures as cf, time
V = "/verif"; S = V + "/seeded"; BASE = "8ce387c"
TESTENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def make(d):
    sid = d["id"]; w = f"/tmp/seed_{sid}"; out = f"{S}/{sid}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    try:
        base_lines = {}
        for f, old, new in d["edits"]:
            p = f"{w}/acetn/{f}"; t = open(p).read()
            if t.count(old) != 1:
                return f"{sid}: edit target occurs {t.count(old)} times in {f}"
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh("git diff", cwd=w)
        for f, _, _ in d["edits"]:
            base_lines.update({l.rstrip(): 1 for l in sh(f"git show {BASE}:{os.path.normpath('acetn/' + f)}", cwd=w)[1].splitlines()})
        removed = [l[1:].rstrip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        notbase = [l for l in removed if l not in base_lines]
        if notbase or not removed:
            return f"{sid}: removed lines not in the base: {notbase}"
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        demo = d["demo"]
        open(f"{out}/demo.py", "w").write('"""' + d["needs"] + '"""\nfrom demo_lib import *\n' + demo)
        shutil.copy(V + "/tools/seedlib/demo_lib.py", out)
        if "ext_lib" in demo:
            shutil.copy(V + "/tools/seedlib/ext_lib.py", out)
            if "extension()" in demo:
                shutil.copytree(V + "/harness/standin", out + "/standin")
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n')
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        rc0, o0 = sh(f"bash {out}/demo.sh", cwd="/repo", timeout=300)
        rc1, o1 = sh(f"bash {out}/demo.sh", cwd=w, timeout=300)
        if rc0 != 0 or rc1 == 0:
            return f"{sid}: demo clean rc={rc0} patched rc={rc1}\n{o0[-1500:]}\n{o1[-800:]}"
        rc, o = sh("/opt/venv/bin/python -m pytest -q -p pytest_timeout -p no:cacheprovider --timeout=300 -rf", cwd=w, env=TESTENV)
        if rc != 0:
            shutil.rmtree(out)
            return f"{sid}: TESTS FAIL\n" + "\n".join(o.splitlines()[-6:])
        return f"{sid}: ok   demo: {o1.strip().splitlines()[-1][:150]}   tests: {o.strip().splitlines()[-1]}"
    finally:
        shutil.rmtree(w, ignore_errors=True)

def evaluate(sid, pids):
    w = f"/tmp/ev_{sid}"; ev = w + "_verif"
    for x in (w, ev): shutil.rmtree(x, ignore_errors=True)
    sh(f"cp -a /repo {w}"); sh(f"mkdir {ev}; " + (f"cp -a {V}/harness {V}/specs {V}/*.json {ev}/; mkdir {ev}/evidence" if os.environ.get("WORK") else f"git -C {V} archive HEAD | tar x -C {ev}; rm -rf {ev}/seeded; mkdir -p {ev}/evidence"))
    try:
        rc, o = sh(f"git apply {S}/{sid}/patch.diff", cwd=w)
        if rc: return [(sid, "-", "patch does not apply " + o)]
        res = []
        for pid in pids:
            t = time.time()
            try:
                rc, o = sh(f"unshare -Urm bash -c 'mount --bind {w} /repo && mount --bind {ev} /verif && cd /verif && "
                           f"VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick /opt/venv/bin/python harness/check.py {pid}'", timeout=950)
            except subprocess.TimeoutExpired:
                rc, o = -9, "timeout"
            v = [l for l in o.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")][:3]
            res.append((sid, pid, f"rc={rc} {time.time()-t:.0f}s " + (" | ".join(v)[:300] if rc == 1 else o[-300:] if rc else "NOT CAUGHT")))
        return res
    finally:
        for x in (w, ev): shutil.rmtree(x, ignore_errors=True)

if __name__ == "__main__":
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == "make":
        spec = importlib.util.spec_from_file_location("defs", args[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        todo = [d for d in m.SEEDS if not args[1:] or d["id"] in args[1:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, todo): print(r, flush=True)
    else:
        allc = "-a" in args; args = [a for a in args if a != "-a"]
        ids = args or sorted(os.listdir(S))
        checks = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        jobs = {i: checks if allc else [json.load(open(f"{S}/{i}/meta.json"))["property"]] for i in ids}
        with cf.ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(evaluate, i, p) for i, p in jobs.items()]
            for f in cf.as_completed(futs):
                for r in f.result(): print(*r, flush=True)
