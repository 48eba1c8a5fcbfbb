"""D01, D02: the distributed program (Dist.tla) and real multi-process runs judged against it (DistTrace.tla)."""
import json, os, pickle, random, shutil, signal, socket, subprocess, tempfile, time
import numpy as np
from vlib import tlc, tier, SEED, MachineryError, PY, THOROUGH
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
op = lambda o, s=(0, 0), d=0: {"op": o, "s": s, "d": d}


def explore(c):
    """All interleavings of the specified program."""
    jobs = []
    for cell in ((2, 2), (3, 2), (2, 3), (3, 3)) + (((4, 2), (1, 3)) if THOROUGH else ()):
        for ws in (2, 3, 4, 5) + ((6,) if THOROUGH and max(cell) < 4 else ()):
            jobs.append((cell, ws, [op("init"), op("bond", (0, 1), 1)] if ws < 6 else [op("bond", (0, 1), 1)]))
            jobs.append((cell, ws, [op("bond", (1 % cell[0], 0), 2), op("bond", (0, 1), 0), op("bond", (0, 0), 3)]))
            if ws < 4 or (THOROUGH and ws < 5):
                jobs.append((cell, ws, [op("sweep")]))

    def one(j):
        cell, ws, prog = j
        return tlc("Dist", dict(NX=cell[0], NY=cell[1], WS=ws, Prog=prog, Len1=0, NCases=0), invariants=["Matching", "SameLength", "Agree", "Owned", "SweepCovers"],
                   deadlock=True, workers=2, timeout=800, heap="3g")
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, jobs):
            c.add_tlc(r)
            c.count("programs_explored")


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def launch(scenarios, ws, limit):
    """Run the scenarios on ws ranks; returns (results[num][rank], problem)."""
    d = tempfile.mkdtemp(prefix="dist_")
    procs = []
    try:
        with open(os.path.join(d, "sc.json"), "w") as f:
            json.dump(scenarios, f)
        env = dict(os.environ, MASTER_ADDR="127.0.0.1", MASTER_PORT=str(free_port()), WORLD_SIZE=str(ws), GLOO_SOCKET_IFNAME="lo",
                   OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0")
        if ws == 1:
            env.pop("WORLD_SIZE")
        for r in range(ws):
            e = dict(env)
            if ws > 1:
                e.update(RANK=str(r), LOCAL_RANK=str(r))
            procs.append(subprocess.Popen([PY, os.path.join(HERE, "dist_worker.py"), os.path.join(d, "sc.json"), d], env=e, cwd=d,
                                          stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, f"stderr_{r}"), "w"), start_new_session=True))
        end = time.time() + limit
        problem = None
        while time.time() < end:
            codes = [p.poll() for p in procs]
            if any(x not in (None, 0) for x in codes):
                time.sleep(0.5)
                break
            if all(x == 0 for x in codes):
                break
            time.sleep(0.1)
        codes = [p.poll() for p in procs]

        def text(name):
            try:
                return open(os.path.join(d, name)).read()
            except OSError:
                return ""
        where = {r: text(f"progress_{r}") for r in range(ws)}
        if any(x not in (None, 0) for x in codes):
            errs = {r: text(f"error_{r}") for r in range(ws) if text(f"error_{r}")}
            first = sorted(errs.items(), key=lambda kv: "Connection" in kv[1] or "gloo" in kv[1])
            r, e = first[0] if first else (next(i for i, x in enumerate(codes) if x), text(f"stderr_{[i for i, x in enumerate(codes) if x][0]}")[-300:])
            problem = f"rank {r} fails in {where[r]}: {e.splitlines()[0] if e else 'exit code ' + str(codes[r])}"
        elif any(x is None for x in codes):
            problem = f"does not complete within {limit} s: " + "; ".join(f"rank {r} in {w}" for r, w in where.items())
        res = []
        for num in range(len(scenarios)):
            fs = [os.path.join(d, f"result_{num}_{r}.pkl") for r in range(ws)]
            res.append([pickle.load(open(f, "rb")) for f in fs] if all(os.path.exists(f) for f in fs) and not problem else None)
        stuck = where.get(0, "")
        return res, problem, stuck
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
        shutil.rmtree(d, ignore_errors=True)


def differ(a, b, tol):
    """First tensor or value in which two results differ."""
    for k in a["tensors"]:
        x, y = a["tensors"][k], b["tensors"].get(k)
        if y is None or x.shape != y.shape:
            return f"{k} has shape {x.shape} and {None if y is None else y.shape}"
        m = np.abs(x).max()
        if not np.abs(x - y).max() <= tol * max(m, 1e-300):
            return f"{k} differs by {np.abs(x - y).max() / m:.1e}"
    return differ_m(a, b, tol)


def differ_m(a, b, tol):
    if len(a["measured"]) != len(b["measured"]):
        return "different numbers of measurements"
    for i, (x, y) in enumerate(zip(a["measured"], b["measured"])):
        if set(x) != set(y):
            return f"measurement {i + 1} has the entries {sorted(x)} and {sorted(y)}"
        for k in x:
            if x[k].shape != y[k].shape or not np.abs(x[k] - y[k]).max() <= tol * max(1, np.abs(x[k]).max()):
                return f"measured {k} is {x[k].tolist()} and {y[k].tolist()}"
    return None


def name(sc, ws):
    return f"{ws} ranks, cell {tuple(sc['cell'])}, {sc['dtype']}, D={sc['D']}, {sc['projectors']}, {sc['svd']}, " + " -> ".join(f"{o['op']}({o['x']})" for o in sc["ops"])


def generate(c, cell, n, length, seed):
    r = tlc("Dist", dict(NX=cell[0], NY=cell[1], WS=2, Prog=[], Len1=length, NCases=n), init="GInit", next="GNext", invariants=["SweepCovers", "Export"],
            outputs=["out.ndjson"], seed=seed)
    c.add_tlc(r)
    if len(r.files["out.ndjson"]) != n:
        raise MachineryError("runs not generated")
    return r.files["out.ndjson"]


def judge_trace(c, sc, ws, res):
    """The recorded events against DistTrace.tla."""
    tr = [x["events"] for x in res]
    inv = ["SameNumber", "Matching"]
    if all(x["moves_visible"] for x in res):
        inv += ["SameMoves", "Covered", "BondMoves", "SweepMoves"]
    else:
        c.count("moves_not_visible")
    full = [[dict({"s": [0, 0], "x": 0}, **e) for e in t] for t in tr]
    r = tlc("DistTrace", dict(NX=sc["cell"][0], NY=sc["cell"][1], WS=ws), invariants=inv, inputs={"trace.json": full}, allow_violation=True, workers=2)
    c.add_tlc(r)
    return r.violated


WHY = {"SameNumber": "the ranks issue different numbers of collectives", "Matching": "the ranks' collectives do not match",
       "SameMoves": "the ranks make different moves", "Covered": "a projector of a move is computed by no rank",
       "BondMoves": "a bond update moves other lines than those of its sites", "SweepMoves": "a sweep does not move every line once in every direction"}


def run(c, pid):
    cpus = os.cpu_count() or 1
    sizes = [x for x in tier((2, 3, 4), (2, 3, 4, 5, 6, 7)) if x <= cpus]
    if not sizes:
        raise MachineryError("no processors for more than one rank")
    if pid == "D01":
        explore(c)
    rnd = random.Random(SEED)
    cells = ((2, 2), (3, 2), (2, 3), (3, 3))
    runs = []
    for wi, ws in enumerate(sizes):
        scs = []
        for ci in range(tier(4, 8)):
            cell = cells[(ci + wi) % 4]
            for h in generate(c, cell, tier(1, 2), tier(4, 6), SEED * 1000 + wi * 50 + ci):
                ops = h["ops"]
                if cell == (3, 3):
                    ops = [dict(o, x=1) for o in ops]
                if pid == "D02" or not any(o["op"].startswith("evolve") for o in ops):
                    ops = ops[:-1] + [{"op": rnd.choice(["evolve_full", "evolve_full", "evolve_simple"]) if ci else "evolve_full", "x": 2}]
                ops = ops + [{"op": "sweep", "x": 1}, {"op": "measure", "x": 1}]
                if pid == "D02":
                    sc = dict(projectors="half-system", svd="full-rank", start="given", dtype=["float64", "complex128"][(ci + wi) % 2])
                else:
                    sc = dict(projectors=rnd.choice(["half-system", "full-system"]), svd=rnd.choice(["rsvd", "full-rank"]),
                              start=["default", "given"][ci % 2 if tier(0, 1) else int(rnd.random() < 0.3)], dtype=rnd.choice(["float64", "complex128"]))
                sc.update(cell=cell, ops=ops, D=2, seed=rnd.randrange(10 ** 6))
                if ci == 1 and cell != (3, 3):
                    sc["D"] = 3
                scs.append(sc)
        runs.append((ws, scs))
    c.sample({"ranks": runs[0][0], "scenario": runs[0][1][0]})
    limit = tier(240, 700)
    with ThreadPoolExecutor(2) as ex:
        done = list(ex.map(lambda r: launch(r[1], r[0], limit), runs))
        single = list(ex.map(lambda r: launch(r[1], 1, limit), runs)) if pid == "D02" else [None] * len(runs)
    for (ws, scs), (res, problem, stuck), one in zip(runs, done, single):
        if problem:
            c.violation(f"{ws} ranks: {problem}", {"scenarios": scs})
            continue
        if one and one[1]:
            c.violation(f"single process: {one[1]}", {"scenarios": scs})
            continue
        for num, sc in enumerate(scs):
            what = name(sc, ws)
            if pid == "D01":
                for r in range(1, ws):
                    d = differ(res[num][0], res[num][r], 1e-6)
                    if d:
                        c.violation(f"{what}: ranks 0 and {r} disagree: {d}", sc)
                        break
                else:
                    bad = judge_trace(c, sc, ws, res[num])
                    if bad:
                        inv = next((k for k in WHY if f"Invariant {k} " in bad), None)
                        c.violation(f"{what}: {WHY.get(inv, bad)}", sc)
                    else:
                        c.traces += 1
                        c.count("collectives", sum(e["e"] == "coll" for e in res[num][0]["events"]))
            else:
                a = {"tensors": {k: v for k, v in one[0][num][0]["tensors"].items() if " A[" in k}, "measured": one[0][num][0]["measured"]}
                for r in range(ws):
                    d = differ(a, res[num][r], 1e-5)
                    if d:
                        c.violation(f"{what}: single process and rank {r}: {d}", sc)
                        break
                else:
                    c.traces += 1
