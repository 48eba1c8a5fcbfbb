"""Development tool: syntactic mutants of /repo/acetn, run through the checks (first those of the properties anchored in
the file); survivors are reported for inspection.   mutate.py N SEED [file substring]"""
import ast, os, random, shutil, subprocess, sys, time, json
V = "/verif"
MAP = {"evolve.py": "E01 C05", "fast_full_update": "C05 C01 D02 D01 M03 E01", "full_update": "M03 E03 F01 T01", "als_solver": "E06 F01 X01 E03",
       "gate.py": "E02 I01", "lambda_tensors": "E05 E04", "simple_update": "E04 E05 C05 F01", "tensor_update": "E03 E04 C05 E01", "ipeps.py": "I04 F02 C03 I01 I02 D01 D02 C05",
       "ipeps_config": "F01 F02 T01", "site_tensor": "I02 C02 T01 I01 I04 C05", "tensor_network": "L01 I02 I03 I04 I01", "svd_lowrank": "X02 C04", "measure.py": "M01 T01 I05 F02",
       "rdm.py": "M02 M01", "model.py": "F02 P02 E02 M01 I04", "model_factory": "F02", "pauli": "P01", "ising": "P02", "heisenberg": "P02", "directional_mover": "C01 C02 C03 D01 D02",
       "projectors": "C04 C03 C02 F01", "distributed": "D01 D02", "ctmrg": "C01 C05 D02 F01", "bond.py": "L01 E01 F02"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
SIB = [("nx", "ny"), ("xi", "yi"), ("xj", "yj"), ("s1", "s2"), ("a1r", "a2r"), ("a1q", "a2q"), ("a1", "a2"), ("U", "V"), ("C", "E"), ("bD", "pD"), ("Q1", "Q4"), ("bra", "ket"), ("l1", "l2")]


def muts(src):
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    tree = ast.parse(src)
    out = []

    def rep(n, t, why):
        s, e = pos(n)
        if b[s:e].decode() != t:
            out.append((s, e, t, why, n.lineno))

    def walk(n, skip):
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call):
            f = seg(n.func)
            if f.startswith(("log", "tqdm", "print", "logger")):
                return
            if f in ("conj", "dict", "list", "sorted", "reversed") and len(n.args) == 1:
                rep(n, seg(n.args[0]), f"drop {f}()")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "clone", "conj", "detach", "mH", "real", "abs") and not n.args and not n.keywords:
                rep(n, seg(n.func.value), f"drop .{n.func.attr}()")
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not f.endswith("einsum"):
                s, e = pos(n.args[0])[0], pos(n.args[1])[1]
                out.append((s, e, f"{seg(n.args[1])}, {seg(n.args[0])}", "swap arguments", n.lineno))
            if f.endswith("einsum") and n.args and isinstance(n.args[0], ast.Constant):
                t = n.args[0].value
                if "->" in t:
                    i, o = t.split("->")
                    if len(o) > 1:
                        j = len(o) - 2
                        rep(n.args[0], repr(i + "->" + o[:j] + o[j + 1] + o[j] + o[j + 2:]), "einsum output")
                        rep(n.args[0], repr(i + "->" + o[1] + o[0] + o[2:]), "einsum output")
                    ops = i.split(",")
                    for q, x in enumerate(ops):
                        if len(x) > 1:
                            for (u, w) in ((0, 1), (len(x) - 2, len(x) - 1)):
                                y = list(x); y[u], y[w] = y[w], y[u]
                                rep(n.args[0], repr(",".join(ops[:q] + ["".join(y)] + ops[q + 1:]) + "->" + o), "einsum operand")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "comparison")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            rep(n, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", "operator")
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and not isinstance(n.left, ast.Constant):
            rep(n, f"({seg(n.left)})", "drop %")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            rep(n, f"({seg(n.operand)})", "drop -")
        if isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, f"not ({seg(n.test)})", "negate condition")
        if isinstance(n, ast.BoolOp):
            rep(n, seg(n.values[0]), "drop operand")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, repr(not v), "flip")
            elif isinstance(v, int):
                rep(n, str(v + 1), "constant")
                if v > 0:
                    rep(n, str(v - 1), "constant")
            elif isinstance(v, float):
                rep(n, repr(v * 1e4 if 0 < abs(v) < 1e-3 else v + 1), "constant")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for x, y in SIB:
                if n.id in (x, y):
                    rep(n, y if n.id == x else x, "sibling name")
        if isinstance(n, ast.Attribute) and n.attr in ("nx", "ny", "s1", "s2", "mH", "T"):
            o = {"nx": "ny", "ny": "nx", "s1": "s2", "s2": "s1", "mH": "mT", "T": "mT"}[n.attr]
            rep(n, f"{seg(n.value)}.{o}", "sibling attribute")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign) or \
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not seg(n.value.func).startswith(("log", "tqdm", "print", "super")):
            rep(n, "pass", "delete statement")
        if isinstance(n, ast.For):
            rep(n.iter, f"list({seg(n.iter)})[1:]", "loop misses first")
            rep(n.iter, f"list({seg(n.iter)})[::-1]", "loop reversed")
        for c in ast.iter_child_nodes(n):
            walk(c, skip)
    walk(tree, False)
    return b, out


def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    rnd = random.Random(seed)
    files = sh("git -C /repo ls-files acetn")[1].split()
    pool = []
    for f in files:
        if not f.endswith(".py") or "tests" in f or sub not in f or any(x in f for x in ("benchmarking", "logger", "__init__")):
            continue
        b, ms = muts(open("/repo/" + f).read())
        key = next((k for k in ("fast_full_update", "model_factory", "ipeps_config") if k in f), None) or next((k for k in MAP if os.path.basename(f).startswith(k) or k in os.path.basename(f)), None)
        pool += [(f, key, b, m) for m in ms]
    print(len(pool), "mutants in all", flush=True)
    w, ev = f"/tmp/mut/w{seed}", f"/tmp/mut/v{seed}"
    for x in (w, ev):
        shutil.rmtree(x, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    sh(f"mkdir -p {ev}/evidence; git -C {V} archive HEAD | tar x -C {ev}; rm -rf {ev}/seeded")
    for f, key, b, (s, e, t, why, line) in rnd.sample(pool, min(N, len(pool))):
        new = b[:s] + t.encode() + b[e:]
        try:
            ast.parse(new.decode())
        except SyntaxError:
            continue
        open(f"{w}/{f}", "wb").write(new)
        d = [l for l in sh(f"git diff -U0 {f}", cwd=w)[1].splitlines() if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        res, t0 = "SURVIVED", time.time()
        for pid in (MAP[key].split() if key else []):
            try:
                rc, o = sh(f"unshare -Urm bash -c 'mount --bind {w} /repo && mount --bind {ev} /verif && cd /verif && "
                           f"VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python harness/check.py {pid}'", timeout=950)
            except subprocess.TimeoutExpired:
                rc, o = -9, "timeout"
            if rc == 1:
                res = "caught " + pid
                break
            if rc:
                res = f"MACHINERY {pid} rc={rc} {o[-200:]!r}"
                break
        print(f"{res:12s} {time.time()-t0:.0f}s {f}:{line} [{why}] {' '.join(d)}", flush=True)
        sh(f"git checkout -q -- .", cwd=w)
    for x in (w, ev):
        shutil.rmtree(x, ignore_errors=True)


main()
