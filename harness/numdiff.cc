// C45: numerical differentiation.
#include "vf.h"
#include <aslam/common/numdiff-jacobian-tester.h>
#include <gtest/gtest-spi.h>

using vf::Rng;
namespace {
typedef long double ld;

// Every output is a polynomial in each input and in products of two inputs.
struct Poly {
  int ny, nx, degree;
  std::vector<double> c;  // [y][x][k]
  std::vector<double> m;  // [y][x][x'] for x < x', none for degree 1
  double C(int y, int x, int k) const { return c[(y * nx + x) * (degree + 1) + k]; }
  double M(int y, int a, int b) const { return m[(y * nx + a) * nx + b]; }
  template <typename V>
  ld value(int y, const V& x, bool magnitude = false, double grow = 0) const {
    ld s = 0;
    auto at = [&](int i) -> ld { return magnitude ? std::abs(static_cast<ld>(x[i])) + grow : static_cast<ld>(x[i]); };
    for (int i = 0; i < nx; ++i) {
      ld p = 1;
      for (int k = 0; k <= degree; ++k) { s += (magnitude ? std::abs(C(y, i, k)) : C(y, i, k)) * p; p *= at(i); }
      for (int j = i + 1; j < nx; ++j) s += (magnitude ? std::abs(M(y, i, j)) : M(y, i, j)) * at(i) * at(j);
    }
    return s;
  }
  template <typename V>
  ld slope(int y, int i, const V& x, bool magnitude = false, double grow = 0) const {
    ld s = 0, p = 1;
    auto at = [&](int k) -> ld { return magnitude ? std::abs(static_cast<ld>(x[k])) + grow : static_cast<ld>(x[k]); };
    for (int k = 1; k <= degree; ++k) { s += k * (magnitude ? std::abs(C(y, i, k)) : C(y, i, k)) * p; p *= at(i); }
    for (int j = 0; j < nx; ++j) {
      if (j > i) s += (magnitude ? std::abs(M(y, i, j)) : M(y, i, j)) * at(j);
      if (j < i) s += (magnitude ? std::abs(M(y, j, i)) : M(y, j, i)) * at(j);
    }
    return s;
  }
};
Poly somePoly(Rng& r, int ny, int nx, int degree) {
  Poly p{ny, nx, degree, {}, {}};
  p.c.resize(ny * nx * (degree + 1));
  p.m.resize(ny * nx * nx);
  const double s = std::pow(10, r.uni(-3, 3));
  for (double& v : p.c) v = r.chance(0.2) ? 0 : s * r.uni(-1, 1);
  for (double& v : p.m) v = r.chance(0.3) ? 0 : s * r.uni(-1, 1);
  return p;
}

struct Log { std::vector<std::vector<double>> at; int fail_from = -1, fail_count = 0; };
template <int NY, int NX>
struct F : public aslam::common::NumDiffFunctor<NY, NX> {
  typedef aslam::common::NumDiffFunctor<NY, NX> Base;
  F(const Poly& p, Log* log, double wrong) : p_(&p), log_(log), wrong_(wrong) {}
  virtual bool functional(const typename Base::InputType& x, typename Base::ValueType& f, typename Base::JacobianType* J) const {
    log_->at.emplace_back(x.data(), x.data() + NX);
    for (int y = 0; y < NY; ++y) f[y] = static_cast<double>(p_->value(y, x));
    if (J) for (int y = 0; y < NY; ++y) for (int i = 0; i < NX; ++i) (*J)(y, i) = static_cast<double>(p_->slope(y, i, x)) + (y == NY - 1 && i == NX - 1 ? wrong_ : 0);
    const int n = static_cast<int>(log_->at.size()) - 1;
    return !(log_->fail_from >= 0 && n >= log_->fail_from && n < log_->fail_from + log_->fail_count);
  }
  const Poly* p_; Log* log_; double wrong_;
};

template <int NY, int NX, aslam::common::NumericalDiffMode MODE>
void one(Rng& r) {
  static const char* name[] = {"forward", "central", "five-point"};
  static const int kDegree[] = {1, 2, 4}, kCalls[] = {2, 2, 4};
  typedef F<NY, NX> Fun;
  Poly p = somePoly(r, NY, NX, kDegree[MODE]);
  Log log;
  static const double kE[] = {0, 1e-12, 1e-8, 1e-6, 1e-4, 1e-3, 1e-2};
  const double e = kE[r.below(7)];
  typename Fun::InputType x;
  for (int i = 0; i < NX; ++i) x[i] = r.chance(0.15) ? 0 : r.uni(-1, 1) * std::pow(10, r.uni(-3, 2));
  const bool failing = r.chance(0.2);
  if (failing) { log.fail_from = static_cast<int>(r.below(kCalls[MODE] * NX)); log.fail_count = r.chance(0.7) ? 1 : 100; }
  vf::detail(vf::fmt("%s %dx%d step %g x0 %.17g%s", name[MODE], NY, NX, e, x[0], failing ? " failing" : ""));
  const typename Fun::InputType x0 = x;
  typename Fun::JacobianType J;
  J.setConstant(std::nan(""));
  bool ok = false;
  if (!vf::mustReturn("return", "differentiating", [&] {
        aslam::common::NumericalDiff<Fun, MODE> d(Fun(p, &log, 0), e);
        ok = d.getJacobianNumerical(x, J);
      })) return;
  VF_EXPECT(ok == !failing, "success", "%s although %s", ok ? "success" : "failure", failing ? "a value could not be computed" : "all values were computed");
  VF_EXPECT((x.array() == x0.array()).all(), "input", "the point was changed");
  const double eps = std::sqrt(std::max(e, 2.220446049250313e-16));
  for (int i = 0; i < NX && !failing; ++i) {
    const double h = x[i] == 0 ? eps : eps * std::abs(x[i]);
    for (int y = 0; y < NY; ++y) {
      const double grow = 2 * h;
      const ld F0 = p.value(y, x, true, grow), S = p.slope(y, i, x, true, grow);
      const double tol = static_cast<double>(40 * 2.3e-16L * (F0 + S * (std::abs(x[i]) + grow)) / h + 1e-15L * S) + 1e-300;
      const double want = static_cast<double>(p.slope(y, i, x));
      VF_EXPECT(std::abs(J(y, i) - want) <= tol, std::string("derivative-") + name[MODE], "entry (%d, %d) is %.17g instead of %.17g (+- %.3g)", y, i, J(y, i), want, tol);
    }
  }
  // One coordinate at a time, close to the point.
  size_t moved = 0;
  for (const auto& a : log.at) {
    int others = 0;
    for (int i = 0; i < NX; ++i) {
      const double h = x[i] == 0 ? eps : eps * std::abs(x[i]);
      if (a[i] != x[i]) ++others;
      VF_EXPECT(std::abs(a[i] - x[i]) <= 2.0001 * h + 1e-15 * std::abs(x[i]), "steps", "coordinate %d was moved from %.17g to %.17g, steps of %.3g", i, x[i], a[i], h);
    }
    VF_EXPECT(others <= 1, "steps-together", "%d coordinates were moved together", others);
    moved += others;
  }
  vf::count("points evaluated", log.at.size());
  vf::evaluated(vf::hashBytes(J.data(), J.size() * 8, MODE), moved > 0, vf::fmt("%s %dx%d", name[MODE], NY, NX));
}
template <int NY, int NX>
void size(Rng& r) {
  switch (r.below(3)) {
    case 0: one<NY, NX, aslam::common::Forward>(r); break;
    case 1: one<NY, NX, aslam::common::Central>(r); break;
    default: one<NY, NX, aslam::common::CentralSecond>(r);
  }
}
void derivatives(Rng& r, uint64_t) {
  switch (r.below(6)) {
    case 0: size<1, 1>(r); break;
    case 1: size<2, 3>(r); break;
    case 2: size<3, 1>(r); break;
    case 3: size<1, 4>(r); break;
    case 4: size<5, 6>(r); break;
    default: size<2, 2>(r);
  }
}

// The macro reports wrong Jacobians, and only those.
void verdicts(Rng& r, uint64_t) {
  const int kind = static_cast<int>(r.below(4));  // right, slightly off, wrong, failing
  Poly p = somePoly(r, 2, 3, 3);
  double big = 0;
  for (double v : p.c) big = std::max(big, std::abs(v));
  const double tol = big * std::pow(10, r.uni(-4, -1));
  const double wrong = (kind == 1 ? 0.9 : kind == 2 ? 1.1 : 0) * tol * (r.chance(0.5) ? 1 : -1);
  Log log;
  if (kind == 3) { log.fail_from = static_cast<int>(r.below(13)); log.fail_count = 1; }
  typedef F<2, 3> Fun;
  Fun::InputType x;
  for (int i = 0; i < 3; ++i) x[i] = r.uni(-1, 1);
  vf::detail(vf::fmt("tolerance %g, off by %g%s", tol, wrong, kind == 3 ? ", failing" : ""));
  ::testing::TestPartResultArray results;
  {
    ::testing::ScopedFakeTestPartResultReporter reporter(::testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &results);
    TEST_JACOBIAN_FINITE_DIFFERENCE(Fun, x, 1e-6, tol, p, &log, wrong);
  }
  VF_EXPECT((results.size() > 0) == (kind >= 2), vf::fmt("verdict-%d", kind), "%d complaints about a Jacobian that is %s", results.size(), kind == 0 ? "right" : kind == 1 ? "within the tolerance" : kind == 2 ? "wrong" : "not computed");
  vf::evaluated(vf::hashBytes(p.c.data(), p.c.size() * 8, kind), true, vf::fmt("kind %d", kind));
}
// Nothing to vary: nothing to do.
void none(Rng& r, uint64_t i) {
  typedef F<2, 0> Fun;
  struct Empty { typedef Fun::Scalar Scalar; };
  static_assert(std::is_same<aslam::common::NumericalDiffTraits<Fun>::type, aslam::common::ZeroNumericalDiff<Fun>>::value, "zero");
  Poly p{2, 0, 1, {}, {}};
  Log log;
  aslam::common::NumericalDiffTraits<Fun>::type d(Fun(p, &log, 0), 1e-3);
  Fun::InputType x;
  Fun::JacobianType J;
  VF_EXPECT(d.getJacobianNumerical(x, J), "none", "failure without inputs");
  vf::evaluated(i, true, "no inputs");
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("derivatives", vf::scale(20000, 600000), derivatives);
  vf::part("verdicts", vf::scale(2000, 40000), verdicts);
  vf::part("none", 2, none);
  return vf::finish();
}
