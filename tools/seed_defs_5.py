SEEDS = []
def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

ALS = "evolution/als_solver.py"
TORCH = '''
from ext_lib import *
import torch
def check(dt, shape, niter, tol, method="cholesky", eps=1e-14, limit=1e-8, definite=True):
    for seed in range(6):
        n, t, a1, a2 = problem(*shape, dt, seed, definite)
        want = reference(n, t, a1, a2, niter, tol, method, eps)
        d = deviation(torch_solver(n, t, a1, a2, niter, tol, method, eps), want)
        if not d < limit:
            fail(f"{shape} {method} niter {niter} tol {tol}: {want[2]} iterations expected, off by {d:.1e}")
'''
EXT = '''
from ext_lib import *
import torch
m = extension()
def check(dt, shape, niter, tol, method="cholesky", eps=1e-14, limit=1e-8, definite=True):
    for seed in range(6):
        n, t, a1, a2 = problem(*shape, dt, seed, definite)
        want = torch_solver(n, t, a1, a2, niter, tol, method, eps)
        d = deviation(ext_solver(m, n, t, a1, a2, niter, tol, method, eps), want)
        if not d < limit:
            fail(f"{shape} {method} niter {niter} tol {tol}: the solvers differ by {d:.1e}")
'''
S("e06-stale-partner", "E06",
  [(ALS, "            a2r = self.solve_a2r(n12g, a1r)\n            d2 =", "            a2r = self.solve_a2r(n12g, a1p)\n            d2 ="),
   (ALS, "            a1r = self.solve_a1r(n12g, a2r)\n            a2r", "            a1p, a1r = a1r, self.solve_a1r(n12g, a2r)\n            a2r")],
  "a target that does not fit the bond and few iterations",
  "the second tensor is minimized against the first tensor of the previous iteration",
  TORCH + "check(torch.float64, (2, 1, 2), 1, 0.)\ncheck(torch.complex128, (3, 2, 2), 3, 0.)\ndone()\n")
S("e06-stops-after-two", "E06",
  [(ALS, "if error < self.tol and i > 1:", "if error < self.tol and i > 0:")],
  "a loose tolerance met by the second iteration",
  "the solver may stop after two iterations",
  TORCH + "check(torch.float64, (2, 1, 2), 8, 0.5)\ndone()\n")
S("e06-change-since-start", "E06",
  [(ALS, "            d1 = d2\n", "            d1 = d1 if i > 1 else d2\n")],
  "more than three iterations and a tolerance between the change of one iteration and of several",
  "the change of the cost is measured against the third iteration instead of the previous one",
  TORCH + '''
for tol in (1e-2, 1e-3, 1e-4, 1e-5):
    check(torch.float64, (3, 1, 2), 60, tol)
    check(torch.float64, (4, 2, 2), 60, tol)
done()
''')
S("e06-absolute-regularization", "E06",
  [(ALS, "R += self.epsilon*R.abs().max()*torch.eye", "R += self.epsilon*torch.eye")],
  "a norm tensor whose scale is far from one",
  "als_epsilon is added as an absolute number",
  TORCH + '''
for scale in (1e-4, 1e4):
    n, t, a1, a2 = problem(2, 2, 2, torch.float64, 1)
    n = n * scale
    want = reference(n, t, a1, a2, 2, 0., "cholesky", 1e-3)
    d = deviation(torch_solver(n, t, a1, a2, 2, 0., "cholesky", 1e-3), want)
    if not d < 1e-6:
        fail(f"norm of scale {scale}: off by {d:.1e}")
done()
''')
S("e06-right-hand-side-not-conjugated", "E06",
  [(ALS, "'YXPq,YVP->XVq', n12g, conj(a1r))", "'YXPq,YVP->XVq', n12g, a1r)")],
  "complex tensors",
  "the right-hand side of the second minimization uses the ket tensor in place of the bra tensor",
  TORCH + "check(torch.complex128, (2, 1, 2), 1, 0.)\ndone()\n")
S("e06-cost-without-norm", "E06",
  [(ALS, "return d2.real - 2*d3.real", "return d2.real - d3.real")],
  "als_tol loose enough to stop, a target that does not fit",
  "the cost that decides about stopping is not the cost that is minimized",
  TORCH + '''
for tol in (0.3, 0.1, 1e-2, 1e-3, 1e-4):
    for s in ((3, 1, 2), (4, 2, 2), (2, 1, 2)):
        check(torch.float64, s, 60, tol)
done()
''')

AT, AS, CH, CT = "../csrc/evolution/als_tensors.cpp", "../csrc/evolution/als_solve.cpp", "../csrc/linalg/cholesky_solve.h", "../csrc/linalg/contraction.h"
S("x01-one-plan-without-conjugation", "X01",
  [(AT, 'add_plan("R2", "xYXvP,YVP->XVxv", R_intm_, a1r_, false, true);', 'add_plan("R2", "xYXvP,YVP->XVxv", R_intm_, a1r_);')],
  "the extension and complex tensors",
  "the C++ solver contracts the ket tensor twice in the second matrix",
  EXT + "check(torch.complex128, (2, 1, 2), 1, 0.)\ndone()\n")
S("x01-cost-reuses-intermediate", "X01",
  [(AT, '    contract(plan_cache_["d_intm"], n12_, a12g_, d_intm_);\n    contract(plan_cache_["d"], d_intm_, a12n_, d3_);', '    contract(plan_cache_["d"], n12g_, a12n_, d3_);\n    d3_ = d2_ + d3_;')],
  "the extension and a tolerance loose enough to stop",
  "the C++ solver's cost counts the norm twice, so that it stops at another iteration",
  EXT + '''
for tol in (0.3, 0.1, 1e-2, 1e-3, 1e-4):
    for s in ((3, 1, 2), (4, 2, 2)):
        check(torch.float64, s, 60, tol)
done()
''')
S("x01-signed-relative-change", "X01",
  [(AS, "scalar_t error = std::abs(cost_new - cost_) / std::abs(cost_);", "scalar_t error = (cost_new - cost_) / std::abs(cost_);")],
  "the extension; a cost that still decreases after three iterations",
  "a decreasing cost counts as converged, so the C++ solver always stops at the third iteration",
  EXT + "check(torch.float64, (3, 1, 2), 20, 1e-12)\ndone()\n")
S("x01-single-compute-for-complex", "X01",
  [(AT, 'case torch::kComplexDouble: return "complex128";', 'case torch::kComplexDouble: return "complex64";')],
  "the extension and double-precision complex tensors",
  "double-precision complex contractions are computed in single precision",
  EXT + "check(torch.complex128, (2, 1, 2), 2, 0., limit=1e-10)\ndone()\n")
S("x01-upper-triangle-first", "X01",
  [(CH, "auto B_ = B.t().contiguous().t().clone();", "auto B_ = B.contiguous().clone();")],
  "the extension and a right-hand side of more than one column",
  "the right-hand side of the C++ Cholesky solve is handed over in the wrong memory order",
  EXT + "check(torch.float64, (2, 1, 2), 1, 0.)\ndone()\n")
S("x01-float-tolerance", "X01",
  [(AS, "if (i > 1 && error < tol) { break; }", "if (i > 2 && error < tol) { break; }")],
  "the extension and a tolerance met by the third iteration",
  "the C++ solver makes one more iteration than the PyTorch solver before it may stop",
  EXT + "check(torch.float64, (3, 1, 2), 20, 0.5)\ndone()\n")
S("x01-pinv-cutoff-dropped", "X01",
  [(AS, "torch::linalg_pinv(R, epsilon, true)", "torch::linalg_pinv(R, 1e-15, true)")],
  "the extension, method pinv and a cutoff that matters",
  "als_epsilon is ignored by the pseudo-inverse of the C++ solver",
  EXT + "check(torch.float64, (3, 2, 2), 1, 0., 'pinv', 0.2)\ndone()\n")
