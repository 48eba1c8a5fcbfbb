// Host-memory stand-ins for the cuTENSOR and cuSOLVER calls of the extension.  They follow the
// documented semantics of those calls, and nothing else: modes, extents, strides, operators and
// compute types are honoured, an output is garbage (NaN) before it is written, a workspace is
// overwritten, and arguments a real library would reject are rejected.
#include <cutensor.h>
#include <cusolverDn.h>
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <vector>

struct cutensorComputeDescriptor { int bits; };
static cutensorComputeDescriptor f32{32}, f64{64};
extern "C" {
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_32F = &f32;
const cutensorComputeDescriptor_t CUTENSOR_COMPUTE_DESC_64F = &f64;
}
struct cutensorHandle { int x; };
struct cutensorTensorDescriptor { std::vector<int64_t> extent, stride; cutensorDataType_t type; };
struct cutensorOperand { std::vector<int64_t> extent, stride; std::vector<int32_t> mode; cutensorOperator_t op; cutensorDataType_t type; };
struct cutensorOperationDescriptor { cutensorOperand A, B, C; int bits; };
struct cutensorPlanPreference { int x; };
struct cutensorPlan { cutensorOperationDescriptor op; uint64_t ws; };
#define BAD CUTENSOR_STATUS_INVALID_VALUE
#define GOOD CUTENSOR_STATUS_SUCCESS

static uint64_t workspace_of(const cutensorOperationDescriptor& o) { return 16 * (1 + o.A.extent.size()); }

template <class T> struct wide { typedef double type; };
template <> struct wide<std::complex<float>> { typedef std::complex<double> type; };
template <> struct wide<std::complex<double>> { typedef std::complex<double> type; };
inline double cj(double x) { return x; }
inline std::complex<double> cj(std::complex<double> x) { return std::conj(x); }
inline double rnd32(double x) { return (float)x; }
inline std::complex<double> rnd32(std::complex<double> x) { return std::complex<double>((float)x.real(), (float)x.imag()); }
inline void nan(float& x) { x = std::numeric_limits<float>::quiet_NaN(); }
inline void nan(double& x) { x = std::numeric_limits<double>::quiet_NaN(); }
template <class R> inline void nan(std::complex<R>& x) { x = std::complex<R>(std::numeric_limits<R>::quiet_NaN(), std::numeric_limits<R>::quiet_NaN()); }

inline float cj(float x) { return x; }
inline std::complex<float> cj(std::complex<float> x) { return std::conj(x); }

template <class T>
static void run(const cutensorPlan& p, const void* alpha_, const void* A_, const void* B_, const void* beta_, const void* C_, void* D_) {
  typedef typename wide<T>::type W;
  const T *A = (const T*)A_, *B = (const T*)B_, *C = (const T*)C_;
  T* D = (T*)D_;
  W alpha = W(*(const T*)alpha_), beta = W(*(const T*)beta_);
  const auto& o = p.op;
  std::vector<int32_t> out = o.C.mode, sum;
  std::map<int32_t, int64_t> ext;
  std::set<int32_t> seen(out.begin(), out.end());
  for (auto* t : {&o.A, &o.B, &o.C})
    for (size_t i = 0; i < t->mode.size(); i++) ext[t->mode[i]] = t->extent[i];
  for (auto* t : {&o.A, &o.B})
    for (int32_t m : t->mode)
      if (seen.insert(m).second) sum.push_back(m);
  std::map<int32_t, int64_t> at;
  auto off = [&](const cutensorOperand& t) { int64_t r = 0; for (size_t i = 0; i < t.mode.size(); i++) r += at[t.mode[i]] * t.stride[i]; return r; };
  auto next = [&](const std::vector<int32_t>& ms) { for (int32_t m : ms) { if (++at[m] < ext[m]) return true; at[m] = 0; } return false; };
  std::vector<std::pair<int64_t, W>> old;
  for (int32_t m : out) at[m] = 0;
  do {  // outputs are undefined until written, so an operand that aliases the result is seen
    W c = beta == W(0) ? W(0) : beta * W(C[off(o.C)]);
    old.push_back({off(o.C), c});
  } while (next(out));
  for (auto& x : old) nan(D[x.first]);
  size_t n = 0;
  do {
    W acc = 0;
    for (int32_t m : sum) at[m] = 0;
    do {
      W a = W(A[off(o.A)]), b = W(B[off(o.B)]);
      if (o.A.op == CUTENSOR_OP_CONJ) a = cj(a);
      if (o.B.op == CUTENSOR_OP_CONJ) b = cj(b);
      if (o.bits == 32) { a = rnd32(a); b = rnd32(b); acc = rnd32(acc + a * b); }
      else acc += a * b;
    } while (next(sum));
    D[off(o.C)] = T(alpha * acc + old[n++].second);
  } while (next(out));
}

extern "C" {
cutensorStatus_t cutensorCreate(cutensorHandle_t* h) { *h = new cutensorHandle(); return GOOD; }
cutensorStatus_t cutensorDestroy(cutensorHandle_t h) { delete h; return GOOD; }
const char* cutensorGetErrorString(const cutensorStatus_t e) { return e == GOOD ? "CUTENSOR_STATUS_SUCCESS" : "CUTENSOR_STATUS_INVALID_VALUE"; }
cutensorStatus_t cutensorCreateTensorDescriptor(const cutensorHandle_t h, cutensorTensorDescriptor_t* d, const uint32_t n,
                                               const int64_t extent[], const int64_t stride[], cudaDataType_t type, uint32_t) {
  if (!h) return CUTENSOR_STATUS_NOT_INITIALIZED;
  auto* t = new cutensorTensorDescriptor();
  t->extent.assign(extent, extent + n);
  t->type = type;
  if (stride) t->stride.assign(stride, stride + n);
  else { int64_t s = 1; for (uint32_t i = 0; i < n; i++) { t->stride.push_back(s); s *= extent[i]; } }
  for (auto e : t->extent) if (e <= 0) return BAD;
  *d = t;
  return GOOD;
}
cutensorStatus_t cutensorDestroyTensorDescriptor(cutensorTensorDescriptor_t d) { delete d; return GOOD; }
cutensorStatus_t cutensorCreateContraction(const cutensorHandle_t h, cutensorOperationDescriptor_t* d,
    const cutensorTensorDescriptor_t A, const int32_t mA[], cutensorOperator_t oA,
    const cutensorTensorDescriptor_t B, const int32_t mB[], cutensorOperator_t oB,
    const cutensorTensorDescriptor_t C, const int32_t mC[], cutensorOperator_t oC,
    const cutensorTensorDescriptor_t D, const int32_t mD[], const cutensorComputeDescriptor_t comp) {
  if (!h) return CUTENSOR_STATUS_NOT_INITIALIZED;
  if (!A || !B || !C || !D || !comp) return BAD;
  auto op = [](const cutensorTensorDescriptor_t t, const int32_t* m, cutensorOperator_t o) {
    return cutensorOperand{t->extent, t->stride, std::vector<int32_t>(m, m + t->extent.size()), o, t->type}; };
  auto* r = new cutensorOperationDescriptor{op(A, mA, oA), op(B, mB, oB), op(C, mC, oC), comp->bits};
  auto dd = op(D, mD, CUTENSOR_OP_IDENTITY);
  std::map<int32_t, int64_t> ext;
  for (auto* t : {&r->A, &r->B, &r->C, &dd})
    for (size_t i = 0; i < t->mode.size(); i++)
      if (!ext.insert({t->mode[i], t->extent[i]}).second && ext[t->mode[i]] != t->extent[i]) { delete r; return BAD; }
  std::set<int32_t> in(r->A.mode.begin(), r->A.mode.end());
  in.insert(r->B.mode.begin(), r->B.mode.end());
  for (int32_t m : r->C.mode) if (!in.count(m)) { delete r; return BAD; }
  bool real = A->type == CUTENSOR_R_32F || A->type == CUTENSOR_R_64F;
  if (dd.mode != r->C.mode || dd.stride != r->C.stride || A->type != B->type || A->type != C->type || A->type != D->type ||
      (real && (oA == CUTENSOR_OP_CONJ || oB == CUTENSOR_OP_CONJ))) { delete r; return BAD; }
  if ((A->type == CUTENSOR_R_32F || A->type == CUTENSOR_C_32F) && comp->bits == 64) { delete r; return CUTENSOR_STATUS_NOT_SUPPORTED; }
  *d = r;
  return GOOD;
}
cutensorStatus_t cutensorDestroyOperationDescriptor(cutensorOperationDescriptor_t d) { delete d; return GOOD; }
cutensorStatus_t cutensorCreatePlanPreference(const cutensorHandle_t, cutensorPlanPreference_t* p, cutensorAlgo_t, cutensorJitMode_t) { *p = new cutensorPlanPreference(); return GOOD; }
cutensorStatus_t cutensorDestroyPlanPreference(cutensorPlanPreference_t p) { delete p; return GOOD; }
cutensorStatus_t cutensorEstimateWorkspaceSize(const cutensorHandle_t, const cutensorOperationDescriptor_t d, const cutensorPlanPreference_t,
                                               const cutensorWorksizePreference_t, uint64_t* n) { if (!d) return BAD; *n = 2 * workspace_of(*d); return GOOD; }
cutensorStatus_t cutensorCreatePlan(const cutensorHandle_t, cutensorPlan_t* p, const cutensorOperationDescriptor_t d, const cutensorPlanPreference_t, uint64_t limit) {
  if (!d) return BAD;
  if (limit < workspace_of(*d)) return CUTENSOR_STATUS_INSUFFICIENT_WORKSPACE;
  *p = new cutensorPlan{*d, workspace_of(*d)};
  return GOOD;
}
cutensorStatus_t cutensorDestroyPlan(cutensorPlan_t p) { delete p; return GOOD; }
cutensorStatus_t cutensorPlanGetAttribute(const cutensorHandle_t, const cutensorPlan_t p, cutensorPlanAttribute_t a, void* buf, size_t n) {
  if (!p || a != CUTENSOR_PLAN_REQUIRED_WORKSPACE || n != sizeof(uint64_t)) return BAD;
  memcpy(buf, &p->ws, n);
  return GOOD;
}
cutensorStatus_t cutensorContract(const cutensorHandle_t h, const cutensorPlan_t p, const void* alpha, const void* A, const void* B,
                                  const void* beta, const void* C, void* D, void* ws, uint64_t nws, cudaStream_t) {
  if (!h) return CUTENSOR_STATUS_NOT_INITIALIZED;
  if (!p || !A || !B || !D) return BAD;
  if (nws < p->ws || !ws) return CUTENSOR_STATUS_INSUFFICIENT_WORKSPACE;
  memset(ws, 0xff, nws);
  switch (p->op.A.type) {
    case CUTENSOR_R_32F: run<float>(*p, alpha, A, B, beta, C, D); break;
    case CUTENSOR_R_64F: run<double>(*p, alpha, A, B, beta, C, D); break;
    case CUTENSOR_C_32F: run<std::complex<float>>(*p, alpha, A, B, beta, C, D); break;
    case CUTENSOR_C_64F: run<std::complex<double>>(*p, alpha, A, B, beta, C, D); break;
    default: return CUTENSOR_STATUS_NOT_SUPPORTED;
  }
  return GOOD;
}

cusolverStatus_t cusolverDnCreate(cusolverDnHandle_t* h) { *h = (cusolverDnHandle_t) new int(0); return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnDestroy(cusolverDnHandle_t h) { delete (int*)h; return CUSOLVER_STATUS_SUCCESS; }
cusolverStatus_t cusolverDnSetStream(cusolverDnHandle_t, cudaStream_t) { return CUSOLVER_STATUS_SUCCESS; }
}

// Column-major; only the triangle named by uplo is read or written.
template <class W>
static cusolverStatus_t potrf_(cublasFillMode_t u, int n, W* A, int lda, W* work, int lwork, int* info) {
  if (n < 0 || lda < n) { *info = -1; return CUSOLVER_STATUS_INVALID_VALUE; }
  if (lwork < 4 * n) { return CUSOLVER_STATUS_INVALID_VALUE; }
  memset((void*)work, 0xff, lwork * sizeof(W));
  bool low = u == CUBLAS_FILL_MODE_LOWER;
  auto el = [&](int i, int j) -> W& { return low ? A[i + (size_t)j * lda] : A[j + (size_t)i * lda]; };  // i >= j; upper holds the conjugate
  *info = 0;
  for (int j = 0; j < n; j++) {
    double d = std::real(el(j, j));
    for (int k = 0; k < j; k++) d -= std::norm(el(j, k));
    if (!(d > 0)) { *info = j + 1; return CUSOLVER_STATUS_SUCCESS; }
    double s = std::sqrt(d);
    el(j, j) = W(s);
    for (int i = j + 1; i < n; i++) {
      W x = el(i, j);
      for (int k = 0; k < j; k++) x -= low ? el(i, k) * W(cj(el(j, k))) : W(cj(el(j, k))) * el(i, k);
      el(i, j) = x / W(s);
    }
  }
  return CUSOLVER_STATUS_SUCCESS;
}
template <class W>
static cusolverStatus_t potrs_(cublasFillMode_t u, int n, int nrhs, const W* A, int lda, W* B, int ldb, int* info) {
  *info = 0;
  if (n < 0 || nrhs < 0 || lda < n || ldb < n) { *info = -1; return CUSOLVER_STATUS_INVALID_VALUE; }
  bool low = u == CUBLAS_FILL_MODE_LOWER;
  // L with A = L L^H; the upper triangle holds U = L^H
  auto L = [&](int i, int j) -> W { return low ? A[i + (size_t)j * lda] : W(cj(A[j + (size_t)i * lda])); };
  for (int c = 0; c < nrhs; c++) {
    W* b = B + (size_t)c * ldb;
    for (int i = 0; i < n; i++) { for (int k = 0; k < i; k++) b[i] -= L(i, k) * b[k]; b[i] /= L(i, i); }
    for (int i = n - 1; i >= 0; i--) { for (int k = i + 1; k < n; k++) b[i] -= W(cj(L(k, i))) * b[k]; b[i] /= W(cj(L(i, i))); }
  }
  return CUSOLVER_STATUS_SUCCESS;
}
#define SOLVER(X, T, W) \
  cusolverStatus_t cusolverDn##X##potrf_bufferSize(cusolverDnHandle_t, cublasFillMode_t, int n, T*, int, int* lwork) { *lwork = 4 * n; return CUSOLVER_STATUS_SUCCESS; } \
  cusolverStatus_t cusolverDn##X##potrf(cusolverDnHandle_t, cublasFillMode_t u, int n, T* A, int lda, T* w, int lw, int* info) { return potrf_<W>(u, n, (W*)A, lda, (W*)w, lw, info); } \
  cusolverStatus_t cusolverDn##X##potrs(cusolverDnHandle_t, cublasFillMode_t u, int n, int nrhs, const T* A, int lda, T* B, int ldb, int* info) { return potrs_<W>(u, n, nrhs, (const W*)A, lda, (W*)B, ldb, info); }
extern "C" {
SOLVER(S, float, float)
SOLVER(D, double, double)
SOLVER(C, cuComplex, std::complex<float>)
SOLVER(Z, cuDoubleComplex, std::complex<double>)
}
