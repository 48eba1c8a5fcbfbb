"""P01: programs of Pauli.tla evaluated with PauliMatrix."""
import torch
from vlib import tlc, tier, SEED, MachineryError, parallel

TD = {"c128": torch.complex128, "c64": torch.complex64, "f64": torch.float64, "f32": torch.float32}


def exact(v, dt):
    z = torch.tensor([[complex(*x) for x in row] for row in v["m"]], dtype=torch.complex128) / 2 ** v["e"]
    return z


def replay(prog, vals, dt):
    """Returns a description of the first mismatch or None."""
    from acetn.model.pauli_matrix import pauli_matrices, PauliMatrix
    tol = 1e-12 if dt in ("c128", "f64") else 1e-5
    X, Y, Z, I = pauli_matrices(TD[dt], torch.device("cpu"))
    st = [X, Y, Z, I]
    kept = [p.mat.clone() for p in st]
    # real scalars as integers, floats and (complex dtypes) as complex numbers
    num = lambda z, k=0: complex(*z) if z[1] or (k % 3 == 2 and TD[dt].is_complex) else (float(z[0]) if k % 3 == 1 else z[0])
    names = ["X", "Y", "Z", "I"]
    for k, o in enumerate(prog):
        a = st[o["a"] - 1]
        na = names[o["a"] - 1]
        nb = names[o["b"] - 1] if "b" in o else ""
        txt = {"mul": f"({na}*{nb})", "add": f"({na}+{nb})", "sub": f"({na}-{nb})", "neg": f"(-{na})", "div": f"({na}/{num(o.get('z', [0, 0]), k)!r})"}.get(
            o["op"], f"({na}*{num(o.get('z', [0, 0]), k)!r} [{o['op']}])")
        names.append(txt)
        try:
            b = st[o["b"] - 1] if "b" in o else None
            if o["op"] == "mul": r = a * b
            elif o["op"] == "add": r = a + b
            elif o["op"] == "sub": r = a - b
            elif o["op"] == "neg": r = -a
            elif o["op"] == "div": r = a / num(o["z"], k)
            elif o["op"] == "rscale": r = a * num(o["z"], k)
            elif o["op"] == "lscale": r = num(o["z"], k) * a
            elif o["op"] == "iscale":
                r = a
                r *= num(o["z"], k)
        except Exception as e:
            return f"{txt} ({dt}) fails: {type(e).__name__}: {e}"
        if not isinstance(r, PauliMatrix):
            return f"{txt} ({dt}) is a {type(r).__name__}, not an operator"
        v = vals[4 + k]
        got = r.mat
        if got.shape != (2 ** v["n"],) * 2:
            return f"{txt} ({dt}) has shape {tuple(got.shape)}"
        if got.dtype != TD[dt]:
            return f"{txt} ({dt}) has dtype {got.dtype}"
        want = exact(v, dt)
        if not TD[dt].is_complex and v["par"] == 1:
            want = -1j * want
        scale = max(1., float(want.abs().max()))
        err = float((got.to(torch.complex128) - want).abs().max())
        if not err <= tol * scale:
            # a real dtype only represents the even operators; odd ones matter through the even operators built from them
            if TD[dt].is_complex or v["par"] == 0:
                return f"{txt} ({dt}) differs from the operator it denotes by {err:.3g}"
        st.append(r)
        kept.append(got.clone())
        for i, (p, m) in enumerate(zip(st, kept)):
            if p.mat.shape != m.shape or not torch.equal(p.mat, m):
                return f"evaluating {txt} ({dt}) changes its operand {names[i]}"
    return None


def tree(b, dt):
    return replay(b["prog"], b["vals"], dt)


def run(c, pid):
    c.assumptions += ["scalars are small Gaussian integers, given as int, float or complex; divisors have a power of two as squared modulus; up to 4 factors and 10-14 operations per expression"]
    for real in (False, True):
        r = tlc("Pauli", dict(Real=real, MaxQ=2, MaxOps=2), spec="DSpec", invariants=["Square", "EvenIsReal"], properties=["Immutable"],
                extra_defs='DSpec == Init /\\ kind = "" /\\ [][Next /\\ UNCHANGED kind]_<<vars, kind>>', workers=4)
        c.add_tlc(r)
        n = tier(60, 600)
        nops = tier(10, 14)
        r = tlc("Pauli", dict(Real=real, MaxQ=4, MaxOps=nops), init="SimInit", next="SimNext", invariants=["Square", "EvenIsReal", "Export"],
                simulate=n, depth=6 * nops, outputs=["out.ndjson"])
        behs = r.files["out.ndjson"]
        rt = tlc("Pauli", dict(Real=real, MaxQ=4, MaxOps=3), init="SimInit", next="Products", invariants=["Square", "EvenIsReal", "ExportTrees"],
                 outputs=["out.ndjson"])
        c.add_tlc(rt)
        trees = rt.files["out.ndjson"]
        if len(trees) != 1536:
            raise MachineryError(f"{len(trees)} groupings of four letters, expected 1536")
        for b, x in zip(trees, parallel("pauli_check", "tree", trees, "f64" if real else "c128")):
            if x:
                c.violation(x, {"prog": b["prog"]})
            else:
                c.count("products_of_four")
        if len(behs) < n // 2:
            raise MachineryError(f"only {len(behs)} programs generated")
        c.transitions += r.states
        c.states += sum(len(b["prog"]) for b in behs)
        for b in behs:
            for dt in (("f64", "f32") if real else ("c128", "c64")):
                x = replay(b["prog"], b["vals"], dt)
                if x:
                    c.violation(x, {"prog": b["prog"], "dtype": dt})
                else:
                    c.traces += 1
        c.sample({"real": real, "prog": behs[0]["prog"]})
