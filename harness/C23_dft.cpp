#include "lt.h"
#include <complex>
#include <LitlTransforms/Dft.h>
// NOTE: logical shapes 1 to 4 along each axis (16 with one impulse at any position, 40 for shapes alone, 513 along one axis in a dedicated case), dimensions 1 to 3 (4 and 5 with lengths 1 and 2, and shapes up to 3 in dimension 4) and variable; any integer real and imaginary parts within [-1000, 1000]. FFTW itself is a stub, written after its manual: multi-dimensional transforms of row-major arrays, r2c and c2r formats, buffers overwritten by planning (unless FFTW_ESTIMATE) and inputs by c2r; roots of unity are exact for lengths 1, 2 and 4, and replaced by conjugate dyadic numbers for length 3; normalization within 1e-14 (relative) for 18 shapes with odd lengths
using C = std::complex<double>;

// ---------------------------------------------------------------- FFTW stub
static int g_created = 0, g_destroyed = 0, g_executed = 0;
struct fftw_plan_s {
  int kind, rank, sign, live;
  int n[5];
  double *in, *out;
};
// exp(-2 i pi k / n) = re + i im
static void root(int k, int n, double& re, double& im) {
  k %= n;
  re = 1, im = 0;
  if (n == 2 && k == 1) re = -1;
  if (n == 4) re = k == 0 ? 1 : k == 2 ? -1 : 0, im = k == 1 ? -1 : k == 3 ? 1 : 0;
  if (n == 3 && k > 0) re = -.5, im = k == 1 ? -.75 : .75;
}
static int total(const fftw_plan_s* p, bool half) {
  int t = 1;
  for (int i = 0; i < p->rank; ++i) t *= half && i == p->rank - 1 ? p->n[i] / 2 + 1 : p->n[i];
  return t;
}
static fftw_plan makePlan(int kind, int rank, const int* n, double* in, double* out, int sign, unsigned flags) {
  auto* p = new fftw_plan_s;
  p->kind = kind, p->rank = rank, p->sign = sign, p->live = 1, p->in = in, p->out = out;
  vf_assert(rank >= 1 && rank <= 5, "rank");
  for (int i = 0; i < rank; ++i) { vf_assert(n[i] > 0, "lengths"); p->n[i] = n[i]; }
  if (!(flags & (FFTW_ESTIMATE | FFTW_WISDOM_ONLY))) {
    const int nin = kind == 1 ? total(p, false) : 2 * total(p, kind == 2), nout = kind == 2 ? total(p, false) : 2 * total(p, kind == 1);
    for (int i = 0; i < nin; ++i) in[i] = -777;
    for (int i = 0; i < nout; ++i) out[i] = -777;
  }
  ++g_created;
  return p;
}
extern "C" {
fftw_plan fftw_plan_dft(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) { return makePlan(0, rank, n, (double*)in, (double*)out, sign, flags); }
fftw_plan fftw_plan_dft_r2c(int rank, const int* n, double* in, fftw_complex* out, unsigned flags) { return makePlan(1, rank, n, in, (double*)out, FFTW_FORWARD, flags); }
fftw_plan fftw_plan_dft_c2r(int rank, const int* n, fftw_complex* in, double* out, unsigned flags) { return makePlan(2, rank, n, (double*)in, out, FFTW_BACKWARD, flags); }
void fftw_destroy_plan(fftw_plan p) { vf_assert(p->live == 1, "plans are destroyed once"); p->live = 0; ++g_destroyed; delete p; }
void fftw_cleanup(void) {}
void fftw_execute(const fftw_plan p) {
  ++g_executed;
  vf_assert(p->live == 1, "live plan");
  const int full = total(p, false), nout = total(p, p->kind == 1), last = p->n[p->rank - 1];
  std::vector<double> res(nout * 2);
  for (int o = 0; o < nout; ++o) {
    double re = 0, im = 0;
    for (int i = 0; i < full; ++i) {
      // multi-indices, last one fastest
      int oi = o, ii = i;
      double wr = 1, wi = 0;
      int src = 0, mul = 1;
      bool conj = p->kind == 2 && i % last > last / 2;
      for (int d = p->rank - 1; d >= 0; --d) {
        const int no = p->kind == 1 && d == p->rank - 1 ? last / 2 + 1 : p->n[d];
        const int k = oi % no, x = ii % p->n[d];
        oi /= no, ii /= p->n[d];
        double r, m;
        root(k * x, p->n[d], r, m);
        if (p->sign == FFTW_BACKWARD) m = -m;
        const double t = wr * r - wi * m;
        wi = wr * m + wi * r;
        wr = t;
        const int y = conj ? (p->n[d] - x) % p->n[d] : x;
        src += y * mul;
        mul *= p->kind == 2 && d == p->rank - 1 ? last / 2 + 1 : p->n[d];
      }
      const double xr = p->kind == 1 ? p->in[src] : p->in[2 * src];
      const double xi = p->kind == 1 ? 0 : conj ? -p->in[2 * src + 1] : p->in[2 * src + 1];
      re += xr * wr - xi * wi;
      im += xr * wi + xi * wr;
    }
    res[2 * o] = re, res[2 * o + 1] = im;
  }
  if (p->kind == 2) for (int i = 0; i < 2 * total(p, true); ++i) p->in[i] = -888; // the input of c2r is destroyed
  for (int o = 0; o < nout; ++o) {
    if (p->kind == 2) p->out[o] = res[2 * o];
    else p->out[2 * o] = res[2 * o], p->out[2 * o + 1] = res[2 * o + 1];
  }
}
}
// ---------------------------------------------------------------- oracle
/// sum over the positions x of in[x] * product of exp(sign 2 i pi k_d x_d / n_d)
template <Index N, typename F>
static C definition(const Position<N>& shape, Index dim, const Position<N>& k, bool backward, F&& in) {
  double re = 0, im = 0;
  Position<N> x(dim);
  const long size = refSize(shape, dim);
  for (long i = 0; i < size; ++i) {
    long r = i;
    double wr = 1, wi = 0;
    for (Index d = 0; d < dim; ++d) {
      x[d] = r % shape[d];
      r /= shape[d];
      double a, b;
      root(int(k[d] * x[d]), int(shape[d]), a, b);
      if (backward) b = -b;
      const double t = wr * a - wi * b;
      wi = wr * b + wi * a;
      wr = t;
    }
    const C v = in(x);
    re += v.real() * wr - v.imag() * wi;
    im += v.real() * wi + v.imag() * wr;
  }
  return C(re, im);
}
template <Index N>
static Position<N> position(const Position<N>& shape, Index dim, long i) {
  Position<N> p(dim);
  for (Index d = 0; d < dim; ++d) { p[d] = i % shape[d]; i /= shape[d]; }
  return p;
}
static bool same(const C& a, const C& b) { return a.real() == b.real() && a.imag() == b.imag(); }
template <typename R>
static void symComplex(R& r) { for (std::size_t i = 0; i < r.size(); ++i) { const double a = vf_int("re", -1000, 1000), b = vf_int("im", -1000, 1000); r.data()[i] = C(a, b); } }
template <Index N>
static Position<N> pickShape(Index dim, std::initializer_list<long> lengths) {
  Position<N> p(dim);
  for (Index i = 0; i < dim; ++i) p[i] = *(lengths.begin() + vf_pick("length", 0, lengths.size() - 1));
  return p;
}
static void balanced(int plans) {
  vf_assert(g_created == plans, "plans");
  vf_assert(g_destroyed == g_created, "every plan is destroyed once");
}
// ---------------------------------------------------------------- cases
template <Index N>
static void complexCase(Index dim, std::initializer_list<long> lengths) {
  const auto shape = pickShape<N>(dim, lengths);
  const long size = refSize(shape, dim);
  Raster<C, N> in(shape);
  symComplex(in);
  const auto before = in;
  {
    const auto out = complexDft(in);
    vf_assert(out.shape() == shape, "shape");
    for (long i = 0; i < size; ++i)
      vf_assert(same(out.data()[i], definition(shape, dim, position(shape, dim, i), false, [&](const Position<N>& p) { return in.data()[refIndex(shape, p, dim)]; })), "forward DFT");
  }
  balanced(1);
  for (long i = 0; i < size; ++i) vf_assert(same(in.data()[i], before.data()[i]), "the input is not changed");
  vf_reach("end");
}
VF_CASE(complex1) { complexCase<1>(1, {1, 2, 3, 4}); }
VF_CASE(complex2) { complexCase<2>(2, {1, 2, 3}); }
VF_CASE(complex2_42) { complexCase<2>(2, {2, 4}); }
VF_CASE(complex3) { complexCase<3>(3, {1, 2}); }
VF_CASE(complexV) { complexCase<-1>(2, {1, 2}); }

template <Index N>
static void inverseComplexCase(Index dim, std::initializer_list<long> lengths) {
  const auto shape = pickShape<N>(dim, lengths);
  const long size = refSize(shape, dim);
  Raster<C, N> in(shape);
  symComplex(in);
  {
    const auto out = inverseComplexDft(in);
    vf_assert(out.shape() == shape, "shape");
    for (long i = 0; i < size; ++i) {
      const C d = definition(shape, dim, position(shape, dim, i), true, [&](const Position<N>& p) { return in.data()[refIndex(shape, p, dim)]; });
      vf_assert(same(out.data()[i], C(d.real() / size, d.imag() / size)), "normalized inverse DFT");
    }
    const auto back = inverseComplexDft(complexDft(in));
    for (long i = 0; i < size; ++i) vf_assert(same(back.data()[i], in.data()[i]), "the inverse of the DFT is the input");
  }
  balanced(3);
  vf_reach("end");
}
VF_CASE(inverse_complex1) { inverseComplexCase<1>(1, {1, 2, 4}); }
VF_CASE(inverse_complex2) { inverseComplexCase<2>(2, {1, 2, 4}); }
VF_CASE(inverse_complex3) { inverseComplexCase<3>(3, {1, 2}); }
VF_CASE(inverse_complexV) { inverseComplexCase<-1>(2, {1, 2}); }

template <Index N>
static void realCase(Index dim, std::initializer_list<long> lengths) {
  const auto shape = pickShape<N>(dim, lengths);
  auto half = shape;
  half[0] = shape[0] / 2 + 1;
  Raster<double, N> in(shape);
  symFill(in, "e", -1000, 1000);
  {
    const auto out = realDft(in);
    vf_assert(out.shape() == half && long(out.size()) == refSize(half, dim), "Hermitian shape");
    for (long i = 0; i < long(out.size()); ++i)
      vf_assert(same(out.data()[i], definition(shape, dim, position(half, dim, i), false, [&](const Position<N>& p) { return C(in.data()[refIndex(shape, p, dim)], 0); })), "forward DFT of real data");
  }
  balanced(1);
  vf_reach("end");
}
VF_CASE(real1) { realCase<1>(1, {1, 2, 3, 4}); }
VF_CASE(real2) { realCase<2>(2, {1, 2, 3, 4}); }
VF_CASE(real3) { realCase<3>(3, {1, 2}); }
VF_CASE(realV) { realCase<-1>(2, {2, 3}); }

template <Index N>
static void inverseRealCase(Index dim, std::initializer_list<long> lengths) {
  const auto shape = pickShape<N>(dim, lengths);
  const long size = refSize(shape, dim);
  Raster<double, N> in(shape);
  symFill(in, "e", -1000, 1000);
  {
    const auto coefs = realDft(in);
    const auto back = inverseRealDft(coefs, shape);
    vf_assert(back.shape() == shape && long(back.size()) == size, "logical shape");
    for (long i = 0; i < size; ++i) vf_assert(back.data()[i] == in.data()[i], "the inverse of the DFT is the input");
  }
  balanced(2);
  vf_reach("end");
}
VF_CASE(inverse_real1) { inverseRealCase<1>(1, {1, 2, 4}); }
VF_CASE(inverse_real2) { inverseRealCase<2>(2, {1, 2, 4}); }
VF_CASE(inverse_real3) { inverseRealCase<3>(3, {1, 2}); }
VF_CASE(inverse_realV) { inverseRealCase<-1>(2, {1, 2}); }

// shapes of the buffers of all kinds of plans
template <Index N>
static void shapesCase(Index dim, long max) {
  const auto shape = pickPos<N>("shape", dim, 1, max);
  auto half = shape;
  half[0] = shape[0] / 2 + 1;
  const long live = vf_heap_live();
  {
    RealDft<N> r(shape);
    vf_assert(r.logicalShape() == shape && r.inShape() == shape && r.outShape() == half, "real plan");
    vf_assert(r.in().shape() == shape && r.out().shape() == half && r.in().owns() && r.out().owns(), "real buffers");
    auto i = r.inverse();
    vf_assert(i.logicalShape() == shape && i.inShape() == half && i.outShape() == shape, "inverse real plan");
    vf_assert(i.in().data() == r.out().data() && i.out().data() == r.in().data() && !i.in().owns() && !i.out().owns(), "shared buffers");
    vf_assert(i.normalizationFactor() == double(refSize(shape, dim)) && r.normalizationFactor() == i.normalizationFactor(), "number of logical elements");
    auto rr = i.inverse();
    vf_assert(rr.inShape() == shape && rr.outShape() == half && rr.in().data() == r.in().data() && rr.out().data() == r.out().data(), "inverse of the inverse");
    auto c = r.template compose<ComplexDft<N>>(r.outShape());
    vf_assert(c.logicalShape() == half && c.inShape() == half && c.outShape() == half, "composed plan");
    vf_assert(c.in().data() == r.out().data() && !c.in().owns() && c.out().owns() && c.out().data() != r.out().data(), "composed buffers");
    auto ic = c.inverse();
    vf_assert(ic.inShape() == half && ic.outShape() == half && ic.in().data() == c.out().data() && ic.out().data() == c.in().data(), "inverse of the composed plan");
  }
  balanced(5);
  vf_assert(vf_heap_live() == live, "buffers are freed");
  vf_reach("end");
}
VF_CASE(shapes1) { shapesCase<1>(1, 5); }
VF_CASE(shapes2) { shapesCase<2>(2, 3); }
VF_CASE(shapes3) { shapesCase<3>(3, 2); }
VF_CASE(shapesV) { shapesCase<-1>(2, 2); }

// chain of plans sharing buffers, as documented
VF_CASE(chain) {
  const long w = vf_pick("w", 1, 2), h = vf_pick("h", 0, 1) ? 4 : 2; // lengths of the half plane with exact roots
  const Position<2> shape {w, h};
  Raster<double, 2> in(shape);
  symFill(in, "e", -1000, 1000);
  const bool user = vf_pick("user", 0, 1);
  RealDftBuffer<2> uin(shape);
  ComplexDftBuffer<2> uout({shape[0] / 2 + 1, shape[1]});
  const long live = vf_heap_live();
  {
    RealDft<2> dft(shape, user ? uin.data() : nullptr, user ? uout.data() : nullptr);
    vf_assert(!user || (dft.in().data() == uin.data() && dft.out().data() == uout.data()), "user buffers");
    auto idft = dft.inverse();
    auto cdft = dft.compose<ComplexDft<2>>(dft.outShape());
    auto icdft = cdft.inverse();
    const int rounds = vf_pick("rounds", 1, 2);
    for (int k = 0; k < rounds; ++k) {
      std::copy(in.begin(), in.end(), dft.in().begin());
      vf_assert(&dft.transform() == &dft, "chained");
      const Raster<C, 2> coefs(dft.outShape(), std::vector<C>(dft.out().begin(), dft.out().end()));
      for (long i = 0; i < long(coefs.size()); ++i)
        vf_assert(same(coefs.data()[i], definition<2>(shape, 2, position<2>(coefs.shape(), 2, i), false, [&](const Position<2>& p) { return C(in[p], 0); })), "forward DFT of real data");
      cdft.transform();
      icdft.transform();
      vf_assert(icdft.normalizationFactor() == double(coefs.size()), "number of logical elements");
      for (long i = 0; i < long(coefs.size()); ++i) {
        const C c = dft.out().data()[i], f = coefs.data()[i];
        vf_assert(c.real() == f.real() * double(coefs.size()) && c.imag() == f.imag() * double(coefs.size()), "the transforms are not scaled");
      }
      for (long i = 0; i < long(coefs.size()); ++i) dft.out().data()[i] = coefs.data()[i];
      vf_assert(&idft.transform().normalize() == &idft, "chained");
      for (long i = 0; i < long(in.size()); ++i) vf_assert(idft.out().data()[i] == in.data()[i], "the inverse of the DFT is the input");
    }
    vf_assert(g_executed == 4 * rounds, "evaluated on demand only");
  }
  balanced(4);
  vf_assert(vf_heap_live() == live, "buffers are freed");
  vf_reach("end");
}
// histories of moves
template <typename TPlan>
static void histories() {
  const Position<1> shape {2};
  Raster<C, 1> in(shape);
  symComplex(in);
  const long live = vf_heap_live();
  {
    TPlan a(shape);
    const auto* din = a.in().data();
    const auto* dout = a.out().data();
    TPlan b(std::move(a));
    vf_assert(b.in().data() == din && b.out().data() == dout && b.in().owns() && b.out().owns(), "moved buffers");
    const bool assign = vf_pick("assign", 0, 1);
    TPlan c(Position<1> {4});
    TPlan& last = assign ? c : b;
    if (assign) {
    c = std::move(b);
    vf_assert(g_destroyed == 1, "the plan which is replaced is destroyed");
  }
    vf_assert(last.in().data() == din && last.out().data() == dout && last.logicalShape() == shape && last.inShape() == shape, "moved buffers");
    vf_assert(last.normalizationFactor() == 2, "moved factor");
    std::copy(in.begin(), in.end(), last.in().begin());
    last.transform();
    const C p = in[{0}], q = in[{1}];
    vf_assert(same(last.out().data()[0], C(p.real() + q.real(), p.imag() + q.imag())) && same(last.out().data()[1], C(p.real() - q.real(), p.imag() - q.imag())), "moved plan");
  }
  balanced(2);
  vf_assert(vf_heap_live() == live, "buffers are freed");
  vf_reach("end");
}
VF_CASE(moves_forward) { histories<ComplexDft<1>>(); }
VF_CASE(moves_inverse) { histories<ComplexDft<1>::Inverse>(); }
VF_CASE(complex4) { complexCase<4>(4, {1, 2}); }
VF_CASE(real4) { realCase<4>(4, {1, 2}); }
VF_CASE(inverse_real4) { inverseRealCase<4>(4, {1, 2}); }
VF_CASE(inverse_complexV5) { inverseComplexCase<-1>(5, {1, 2}); }
// dimension 4 with different lengths, one impulse at a time
template <Index N>
static void impulse(Index dim, std::initializer_list<long> lengths) {
  Position<N> shape(dim);
  std::copy(lengths.begin(), lengths.end(), shape.begin());
  const long size = refSize(shape, dim);
  Raster<C, N> in(shape);
  in.fill(C(0, 0));
  const long at = vf_pick("at", 0, size - 1);
  const double re = vf_int("re", -1000, 1000), im = vf_int("im", -1000, 1000);
  in.data()[at] = C(re, im);
  const auto out = complexDft(in);
  for (long i = 0; i < size; ++i)
    vf_assert(same(out.data()[i], definition(shape, dim, position(shape, dim, i), false, [&](const Position<N>& p) { return in.data()[refIndex(shape, p, dim)]; })), "forward DFT");
  Raster<double, N> rin(shape);
  rin.fill(0);
  rin.data()[at] = re;
  auto half = shape;
  half[0] = shape[0] / 2 + 1;
  const auto rout = realDft(rin);
  vf_assert(rout.shape() == half, "Hermitian shape");
  for (long i = 0; i < long(rout.size()); ++i)
    vf_assert(same(rout.data()[i], definition(shape, dim, position(half, dim, i), false, [&](const Position<N>& p) { return C(rin.data()[refIndex(shape, p, dim)], 0); })), "forward DFT of real data");
  vf_reach("end");
}
VF_CASE(impulse3) { impulse<3>(3, {4, 2, 3}); }
VF_CASE(impulse4) { impulse<4>(4, {2, 3, 4, 2}); }
VF_CASE(impulse4b) { impulse<4>(4, {3, 1, 2, 4}); }
VF_CASE(impulseV) { impulse<-1>(4, {1, 3, 2, 4}); }
VF_CASE(shapes4) { shapesCase<4>(4, 3); }
VF_CASE(shapes1_long) { shapesCase<1>(1, 40); }
VF_CASE(shapes2_long) { shapesCase<2>(2, 10); }
VF_CASE(shapes3_long) { shapesCase<3>(3, 4); }
VF_CASE(shapesV_long) { shapesCase<-1>(vf_pick("dim", 1, 3), 4); }
VF_CASE(shapes_far) { // few distinct lengths, larger
  const long n = 64 << vf_pick("n", 0, 3);
  const long d = vf_pick("d", -1, 1);
  RealDft<2> r({n + d, 2});
  auto i = r.inverse();
  vf_assert((r.outShape() == Position<2> {(n + d) / 2 + 1, 2}) && i.inShape() == r.outShape() && i.outShape() == r.inShape() && i.logicalShape() == r.logicalShape(), "shapes");
  vf_assert(i.normalizationFactor() == 2. * (n + d), "normalization");
  vf_reach("end");
}
VF_CASE(impulse1_9) { impulse<1>(1, {9}); }
VF_CASE(impulse1_16) { impulse<1>(1, {16}); }
VF_CASE(impulse2_8) { impulse<2>(2, {8, 5}); }
VF_CASE(impulse2_12) { impulse<2>(2, {3, 12}); }
// double precision of the normalization, whatever the number of elements
template <typename TPlan>
static void precision(const Position<2>& shape) {
  TPlan plan(shape);
  const double n = double(shape[0] * shape[1]);
  vf_assert(plan.normalizationFactor() == n, "number of logical elements");
  const double picks[4] = {1, 1e9, 123456789, 0x1p40 + 1};
  const double v = picks[vf_pick("v", 0, 3)];
  auto* out = (double*)plan.out().data();
  const long size = plan.out().size() * sizeof(*plan.out().data()) / sizeof(double);
  for (long i = 0; i < size; ++i) out[i] = v * (i + 1);
  plan.normalize();
  for (long i = 0; i < size; ++i) {
    const double e = v * (i + 1) / n, d = out[i] - e;
    vf_assert(d <= 1e-14 * e && -d <= 1e-14 * e, "double precision");
  }
  vf_reach("end");
}
VF_CASE(precision_forward) {
  const long w[6] = {1, 3, 5, 7, 9, 11}, h[3] = {1, 3, 5};
  const long i = vf_pick("w", 0, 5), j = vf_pick("h", 0, 2);
  precision<ComplexDft<2>>({w[i], h[j]});
}
VF_CASE(precision_inverse) {
  const long w[6] = {1, 3, 5, 7, 9, 11}, h[3] = {1, 3, 5};
  const long i = vf_pick("w", 0, 5), j = vf_pick("h", 0, 2);
  precision<ComplexDft<2>::Inverse>({w[i], h[j]});
}
VF_CASE(precision_real) {
  const long w[6] = {1, 3, 5, 7, 9, 11}, h[3] = {1, 3, 5};
  const long i = vf_pick("w", 0, 5), j = vf_pick("h", 0, 2);
  precision<RealDft<2>::Inverse>({w[i], h[j]});
}

// operations are independent of the previous ones, with other objects of the same types
VF_CASE(again_complex) { complexCase<2>(2, {1, 2}); g_created = g_destroyed = g_executed = 0; complexCase<2>(2, {2, 4}); }
VF_CASE(again_real) { realCase<2>(2, {1, 2}); g_created = g_destroyed = g_executed = 0; realCase<2>(2, {1, 4}); }
VF_CASE(again_inverse) { inverseComplexCase<1>(1, {1, 2, 4}); g_created = g_destroyed = g_executed = 0; inverseComplexCase<1>(1, {1, 2, 4}); g_created = g_destroyed = g_executed = 0; inverseRealCase<1>(1, {1, 2, 4}); g_created = g_destroyed = g_executed = 0; inverseRealCase<1>(1, {1, 2, 4}); }
