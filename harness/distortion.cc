// C20: undistortion inverts distortion.   C21: Jacobians.   C22: parameters.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include "distortion_ref.h"

// A minimal dual number, for the templated form of the fisheye model.
template <typename T, int N>
struct Jet {
  T a; Eigen::Matrix<T, N, 1> v;
  Jet() : a(0) { v.setZero(); }
  Jet(T x) : a(x) { v.setZero(); }  // NOLINT
  Jet(T x, const Eigen::Matrix<T, N, 1>& d) : a(x), v(d) {}
  Jet& operator+=(const Jet& o) { *this = *this + o; return *this; }
  Jet& operator*=(const Jet& o) { *this = *this * o; return *this; }
  friend Jet operator+(const Jet& x, const Jet& y) { return Jet(x.a + y.a, x.v + y.v); }
  friend Jet operator-(const Jet& x, const Jet& y) { return Jet(x.a - y.a, x.v - y.v); }
  friend Jet operator*(const Jet& x, const Jet& y) { return Jet(x.a * y.a, x.a * y.v + y.a * x.v); }
  friend Jet operator/(const Jet& x, const Jet& y) { return Jet(x.a / y.a, (x.v - x.a / y.a * y.v) / y.a); }
  friend bool operator<(const Jet& x, const Jet& y) { return x.a < y.a; }
};
template <typename T, int N> Jet<T, N> sqrt(const Jet<T, N>& x) { T s = std::sqrt(x.a); return Jet<T, N>(s, s > 0 ? Eigen::Matrix<T, N, 1>(x.v / (2 * s)) : Eigen::Matrix<T, N, 1>(Eigen::Matrix<T, N, 1>::Zero())); }
template <typename T, int N> Jet<T, N> abs2(const Jet<T, N>& x) { return x * x; }
typedef Jet<double, 3> J3;
namespace Eigen {
template <> struct NumTraits<J3> : NumTraits<double> {
  typedef J3 Real; typedef J3 NonInteger; typedef J3 Nested; typedef J3 Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 3, MulCost = 3 };
};
}

namespace {
// ---- C20 -------------------------------------------------------------------
void roundTrip(Rng& r, uint64_t) {
  const int m = static_cast<int>(r.below(12)) % 4 == 3 ? (r.chance(0.2) ? kNull : kFish) : static_cast<int>(r.below(3));
  const VX k = someParams(r, m);
  vf::detail(vf::fmt("%s (%s)", kName[m], show(k).c_str()));
  std::unique_ptr<Distortion> d;
  if (!vf::mustReturn(std::string(kName[m]) + ":construct", "construction", [&] { d = make(m, k); })) return;
  const double rmax = workingRadius(m, k);
  vf::maxOf(std::string("largest radius ") + kName[m], rmax);
  const std::string key = kName[m];
  for (int i = 0; i < 12; ++i) {
    const V2 p = somePoint(r, rmax);
    vf::detail(vf::fmt("%s (%s) at (%.17g, %.17g)", kName[m], show(k).c_str(), p[0], p[1]));
    V2 q = p, q2(7, 7), q3 = p, q4 = p, q5 = p, q6 = p;
    Eigen::Matrix2d J;
    const VX own = d->getParameters();
    if (!vf::mustReturn(key + ":distort", "distorting", [&] {
          d->distort(&q);
          d->distort(p, &q2);
          d->distort(&q3, &J);
          d->distortUsingExternalCoefficients(nullptr, &q4, nullptr);
          d->distortUsingExternalCoefficients(&own, &q5, nullptr);
          d->distortUsingExternalCoefficients(&own, &q6, &J);
        })) return;
    ld fx, fy;
    formula(m, k, p[0], p[1], &fx, &fy);
    const double n = p.norm();
    // The fisheye model uses its limit for radii under sqrt(1e-5).
    const double ftol = (m == kFish && n * n < 1.0001e-5 ? 2e-5 * n : 0) + 1e-12 * (1 + n);
    const double ferr = std::hypot(static_cast<double>(fx - q[0]), static_cast<double>(fy - q[1]));
    VF_EXPECT(ferr <= ftol, key + ":formula", "distorts to (%.17g, %.17g), the formula gives (%.17Lg, %.17Lg)", q[0], q[1], fx, fy);
    const double ft = 1e-13 * (1 + n);
    VF_EXPECT((q - q2).norm() <= ft && (q - q3).norm() <= ft && (q - q4).norm() <= ft && (q - q5).norm() <= ft && (q - q6).norm() <= ft, key + ":forms",
              "forms differ: in place (%.17g,%.17g) copy (%.17g,%.17g) with Jacobian (%.17g,%.17g) external (%.17g,%.17g)", q[0], q[1], q2[0], q2[1], q3[0], q3[1], q5[0], q5[1]);
    if (m == kFish) {
      const FisheyeDistortion* f = static_cast<const FisheyeDistortion*>(d.get());
      Eigen::Vector2d t(9, 9);
      vf::mustReturn(key + ":template", "templated form", [&] { f->distortUsingExternalCoefficients<double>(own, Eigen::Matrix<double, 2, 1>(p), &t); });
      VF_EXPECT((t - q).norm() <= ft, key + ":template", "the templated form gives (%.17g, %.17g), the other (%.17g, %.17g)", t[0], t[1], q[0], q[1]);
    }
    if (m == kNull) VF_EXPECT(q == p, "null:point", "no distortion moved a point");
    V2 u = q, u2(5, 5), u3 = q;
    if (!vf::mustReturn(key + ":undistort", "undistorting", [&] {
          d->undistort(&u);
          d->undistort(q, &u2);
          d->undistortUsingExternalCoefficients(own, &u3);
        })) return;
    VF_EXPECT((u - u2).norm() <= ft && (u - u3).norm() <= ft, key + ":undistort-forms", "undistorting forms differ: (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", u[0], u[1], u2[0], u2[1], u3[0], u3[1]);
    Eigen::Matrix2d FJ; M2X P;
    formulaJac(m, k, p[0], p[1], &FJ, &P);
    const double sigma = m == kNull ? 1 : smallestSingular(FJ);
    const double err = (u - p).norm();
    V2 again(0, 0);
    d->distort(u, &again);
    const double resid = (again - q).norm();
    // Both iterations stop once the squared residual is under 1e-8 and then
    // take one more Newton step, so that a residual of second order remains.
    // The iteration starts at the distorted point, which has to lie in the
    // invertible disc as well.
    if (m == kRad && q.norm() > rmax) { vf::count("points beyond the working range"); continue; }
    const double limit = m == kFish ? 1e-10 * (1 + n * n) + ftol * 2 : m == kNull ? 0 : 3e-7;
    vf::maxOf(std::string("residual ") + kName[m], resid);
    vf::maxOf(std::string("error times smallest singular value ") + kName[m], err * sigma);
    VF_EXPECT(err * sigma <= limit, key + ":roundtrip", "(%.17g, %.17g) distorts to (%.17g, %.17g) and undistorts to (%.17g, %.17g)", p[0], p[1], q[0], q[1], u[0], u[1]);
    VF_EXPECT(resid <= limit, key + ":residual", "(%.17g, %.17g) undistorts to (%.17g, %.17g), which distorts to (%.17g, %.17g)", q[0], q[1], u[0], u[1], again[0], again[1]);
    VF_EXPECT(d->getParameters() == own, key + ":parameters", "the parameters changed");
    vf::evaluated(hashCase(m, k, p), true, i ? "" : vf::fmt("%s (%s) (%g, %g) -> (%g, %g) -> (%g, %g)", kName[m], show(k).c_str(), p[0], p[1], q[0], q[1], u[0], u[1]));
    vf::count(std::string("points ") + kName[m]);
  }
}

// One model with other parameters given from outside.
void external(Rng& r, uint64_t) {
  const int m = static_cast<int>(r.below(3));
  const VX k = someParams(r, m), o = someParams(r, m);
  std::unique_ptr<Distortion> d, e;
  if (!vf::mustReturn(std::string(kName[m]) + ":construct", "construction", [&] { d = make(m, k); e = make(m, o); })) return;
  const double rmax = workingRadius(m, o);
  const V2 p = somePoint(r, rmax);
  vf::detail(vf::fmt("%s holding (%s) given (%s) at (%.17g, %.17g)", kName[m], show(k).c_str(), show(o).c_str(), p[0], p[1]));
  V2 a = p, b = p, c, f;
  Eigen::Matrix2d Ja, Jb;
  M2X Pa, Pb;
  VX copy = o;
  if (!vf::mustReturn(std::string(kName[m]) + ":external", "external parameters", [&] {
        d->distortUsingExternalCoefficients(&copy, &a, &Ja);
        e->distort(&b, &Jb);
        c = b; f = b;
        d->undistortUsingExternalCoefficients(copy, &c);
        e->undistort(&f);
        d->distortParameterJacobian(&copy, p, &Pa);
        e->distortParameterJacobian(&e->getParameters(), p, &Pb);
      })) return;
  const double t = 1e-13 * (1 + p.norm());
  VF_EXPECT((a - b).norm() <= t, std::string(kName[m]) + ":external:distort", "external (%.17g,%.17g) own (%.17g,%.17g)", a[0], a[1], b[0], b[1]);
  VF_EXPECT((c - f).norm() <= t, std::string(kName[m]) + ":external:undistort", "external (%.17g,%.17g) own (%.17g,%.17g)", c[0], c[1], f[0], f[1]);
  VF_EXPECT((Ja - Jb).norm() <= 1e-12 * (1 + Jb.norm()), std::string(kName[m]) + ":external:jacobian", "point Jacobians differ");
  VF_EXPECT(Pa.cols() == Pb.cols() && (Pa - Pb).norm() <= 1e-12 * (1 + Pb.norm()), std::string(kName[m]) + ":external:parameter-jacobian", "parameter Jacobians differ");
  VF_EXPECT(d->getParameters() == k && copy == o, std::string(kName[m]) + ":external:kept", "parameters changed");
  vf::evaluated(hashCase(m, k, p) ^ hashCase(m, o, p));
}

// ---- C21 -------------------------------------------------------------------
void jacobians(Rng& r, uint64_t) {
  const int m = static_cast<int>(r.below(20)) == 0 ? kNull : static_cast<int>(r.below(3));
  const VX k = someParams(r, m);
  std::unique_ptr<Distortion> d;
  if (!vf::mustReturn(std::string(kName[m]) + ":construct", "construction", [&] { d = make(m, k); })) return;
  const double rmax = m == kFish ? std::min(10.0, workingRadius(m, k)) : workingRadius(m, k);
  const std::string key = kName[m];
  for (int i = 0; i < 6; ++i) {
    const V2 p = somePoint(r, rmax);
    vf::detail(vf::fmt("%s (%s) at (%.17g, %.17g)", kName[m], show(k).c_str(), p[0], p[1]));
    V2 q = p, q2 = p;
    Eigen::Matrix2d J, J2, FJ;
    J.setConstant(99); J2.setConstant(99);
    M2X P, P2, FP;
    const bool odd = r.chance(0.3);
    if (odd) { P.setConstant(2, static_cast<int>(r.below(7)), 99); P2 = P; }
    const VX own = k;
    if (!vf::mustReturn(key + ":jacobian", "Jacobian", [&] {
          d->distort(&q, &J);
          d->distortUsingExternalCoefficients(&own, &q2, &J2);
          d->distortParameterJacobian(&own, p, &P);
        })) return;
    // Documented: without parameters, the model's own are used.
    const bool nullok = vf::mustReturn(key + ":parameter-jacobian:own", "parameter Jacobian for the model's own parameters", [&] { d->distortParameterJacobian(nullptr, p, &P2); });
    formulaJac(m, k, p[0], p[1], &FJ, &FP);
    if (m == kNull) FJ.setIdentity();
    const double n = p.norm();
    const double lim = m == kFish && n * n < 1.0001e-5 ? 1e-4 : 0;
    const double tol = 1e-9 * (1 + FJ.norm()) + lim;
    vf::maxOf("point Jacobian error " + key, (J - FJ).norm() - lim);
    VF_EXPECT((J - FJ).norm() <= tol, key + (n < 1e-9 ? ":point:centre" : ":point"), "[%.12g %.12g; %.12g %.12g] should be [%.12g %.12g; %.12g %.12g]", J(0, 0), J(0, 1), J(1, 0), J(1, 1), FJ(0, 0), FJ(0, 1), FJ(1, 0), FJ(1, 1));
    VF_EXPECT((J - J2).norm() <= 1e-12 * (1 + J.norm()), key + ":point:forms", "the Jacobians of the two forms differ");
    VF_EXPECT(P.cols() == k.size(), key + ":parameter:size", "%d columns for %d parameters", (int)P.cols(), (int)k.size());
    if (P.cols() == k.size() && k.size()) {
      const double ptol = 1e-8 * (1 + FP.norm()) + (m == kFish && n * n < 1.0001e-5 ? 1e-4 * n : 0);
      vf::maxOf("parameter Jacobian error " + key, (P - FP).norm());
      VF_EXPECT((P - FP).norm() <= ptol, key + (n * n < 1e-5 ? ":parameter:centre" : ":parameter"), "[%s] should be [%s]", show(Eigen::Map<const VX>(P.data(), P.size())).c_str(), show(Eigen::Map<const VX>(FP.data(), FP.size())).c_str());
      // Near the centre the derivatives are proportional to the radius.
      if (n < 1e-3) VF_EXPECT(P.norm() <= 10 * n + 1e-300, key + ":parameter:vanishing", "a derivative of %.17g at radius %.17g", P.norm(), n);
    }
    if (nullok) VF_EXPECT(P2.cols() == P.cols() && P2 == P, key + ":parameter:own", "the Jacobian for the own parameters differs");
    // The function as computed, by central differences.
    if (m != kNull) {
      const double h = 1e-6;
      Eigen::Matrix2d D;
      for (int c = 0; c < 2; ++c) {
        V2 a = p, b = p;
        a[c] += h; b[c] -= h;
        const double w = a[c] - b[c];
        d->distort(&a); d->distort(&b);
        D.col(c) = (a - b) / w;
      }
      // Skip differences that straddle the fisheye model's switch to its limit.
      if (!(m == kFish && std::abs(n - std::sqrt(1e-5)) < 3e-6))
        VF_EXPECT((J - D).norm() <= 1e-7 * (1 + D.norm()) + lim, key + (n < 1e-9 ? ":point:numeric:centre" : ":point:numeric"), "[%.10g %.10g; %.10g %.10g], differences give [%.10g %.10g; %.10g %.10g]", J(0, 0), J(0, 1), J(1, 0), J(1, 1), D(0, 0), D(0, 1), D(1, 0), D(1, 1));
    }
    if (m == kFish && k[0] * k[0] > 1e-5 && n > 0) {
      const FisheyeDistortion* f = static_cast<const FisheyeDistortion*>(d.get());
      Eigen::Matrix<J3, Eigen::Dynamic, 1> jk(1);
      jk(0) = J3(k[0], Eigen::Vector3d(0, 0, 1));
      Eigen::Matrix<J3, 2, 1> jp, jo;
      jp(0) = J3(p[0], Eigen::Vector3d(1, 0, 0));
      jp(1) = J3(p[1], Eigen::Vector3d(0, 1, 0));
      if (n > 1e-100 && vf::mustReturn(key + ":dual", "dual numbers", [&] { f->distortUsingExternalCoefficients<J3>(jk, jp, &jo); })) {
        Eigen::Matrix2d D; V2 dw;
        D << jo(0).v(0), jo(0).v(1), jo(1).v(0), jo(1).v(1);
        dw << jo(0).v(2), jo(1).v(2);
        VF_EXPECT((D - J).norm() <= 1e-9 * (1 + D.norm()), key + ":dual:point", "[%.12g %.12g; %.12g %.12g], dual numbers give [%.12g %.12g; %.12g %.12g]", J(0, 0), J(0, 1), J(1, 0), J(1, 1), D(0, 0), D(0, 1), D(1, 0), D(1, 1));
        VF_EXPECT((dw - V2(P(0, 0), P(1, 0))).norm() <= 1e-9 * (1 + dw.norm()), key + ":dual:parameter", "[%.12g %.12g], dual numbers give [%.12g %.12g]", P(0, 0), P(1, 0), dw[0], dw[1]);
        vf::count("dual number evaluations");
      }
    }
    vf::evaluated(hashCase(m, k, p), true, i ? "" : vf::fmt("%s (%s) at (%g, %g): [%g %g; %g %g]", kName[m], show(k).c_str(), p[0], p[1], J(0, 0), J(0, 1), J(1, 0), J(1, 1)));
    vf::count(std::string("points ") + kName[m]);
    if (n < 1e-3) vf::count("points at or near the centre");
  }
}

// ---- C22 -------------------------------------------------------------------
bool valid(int m, const VX& k) {
  if (m == kNull) return true;
  if (k.size() != paramCount(m)) return false;
  if (m == kFish) return std::abs(k[0]) < 1e-16 || (k[0] >= 0.5 && k[0] <= 1.5);
  return true;
}
VX hostile(Rng& r, int m) {
  const int n = r.chance(0.6) ? paramCount(m) : static_cast<int>(r.below(9));
  VX k(n);
  for (int i = 0; i < n; ++i) {
    static const double e[] = {0, -0.0, 0.5, 1.5, 0.49999999999999994, 1.5000000000000002, -0.5, -1.0, 1e-16, 0.99e-16, -0.99e-16, 1.01e-16, 2.0, 1e300, 1.0, 1e-5};
    k[i] = r.chance(0.6) ? e[r.below(16)] : r.chance(0.1) ? std::numeric_limits<double>::infinity() : r.uni(-0.1, 2);
  }
  if (m == kFish && n == 1 && r.chance(0.1)) k[0] = std::numeric_limits<double>::quiet_NaN();
  return k;
}
bool staticValid(int m, const VX& k) {
  return m == kEqui ? EquidistantDistortion::areParametersValid(k) : m == kFish ? FisheyeDistortion::areParametersValid(k)
       : m == kRad ? RadTanDistortion::areParametersValid(k) : NullDistortion::areParametersValid(k);
}
size_t staticCount(int m) {
  return m == kEqui ? EquidistantDistortion::parameterCount() : m == kFish ? FisheyeDistortion::parameterCount()
       : m == kRad ? RadTanDistortion::parameterCount() : NullDistortion::parameterCount();
}
const Distortion::Type kType[] = {Distortion::Type::kEquidistant, Distortion::Type::kFisheye, Distortion::Type::kRadTan, Distortion::Type::kNoDistortion};

void parameters(Rng& r, uint64_t) {
  const int m = static_cast<int>(r.below(4));
  const std::string key = kName[m];
  const VX k = someParams(r, m), h = hostile(r, m);
  const bool ok = valid(m, h);
  vf::detail(vf::fmt("%s (%s) given (%s), %s", kName[m], show(k).c_str(), show(h).c_str(), ok ? "valid" : "invalid"));
  std::unique_ptr<Distortion> d;
  if (!vf::mustReturn(key + ":construct", "construction", [&] { d = make(m, k); })) return;
  VF_EXPECT(staticValid(m, h) == ok && d->distortionParametersValid(h) == ok, key + ":validity", "parameters (%s) reported %d and %d, are %d", show(h).c_str(), staticValid(m, h), d->distortionParametersValid(h), ok);
  VF_EXPECT(staticCount(m) == static_cast<size_t>(paramCount(m)) && d->getParameterSize() == paramCount(m), key + ":count", "%zu and %d parameters", staticCount(m), d->getParameterSize());
  VF_EXPECT(d->getType() == kType[m], key + ":type", "type %d", static_cast<int>(d->getType()));
  {
    std::ostringstream o;
    o << d->getType();
    static const char* names[] = {"kEquidistant", "kFisheye", "kRadTan", "kNoDistortion"};
    VF_EXPECT(o.str() == names[m], key + ":type-name", "prints its type as '%s'", o.str().c_str());
  }
  VF_EXPECT(d->getParameters() == k, key + ":stored", "holds (%s)", show(d->getParameters()).c_str());
  double* mut = nullptr;
  if (vf::mustReturn(key + ":mutable", "mutable parameters", [&] { mut = d->getParametersMutable(); }) && k.size())
    VF_EXPECT(mut == d->getParameters().data(), key + ":mutable", "the mutable parameters are not the parameters");
  // A copy.
  std::unique_ptr<Distortion> c;
  if (!vf::mustReturn(key + ":clone", "cloning", [&] { c.reset(d->clone()); })) return;
  VF_EXPECT(c && c.get() != d.get() && typeid(*c) == typeid(*d) && c->getType() == d->getType(), key + ":clone", "a clone of another type");
  if (!c) return;
  VF_EXPECT(*c == *d && *d == *c && *d == *d, key + ":clone:equal", "a clone differs");
  // Construction with the hostile parameters.
  if (m != kNull) {
    std::unique_ptr<Distortion> n;
    vf::Outcome o = vf::guarded([&] { n = make(m, h); });
    VF_EXPECT((o == vf::kOk) == ok, key + ":construct:hostile", "construction with (%s) %s", show(h).c_str(), vf::outcomeName(o));
    if (o == vf::kOk && n) {
      const bool same = h == k;
      VF_EXPECT((*n == *d) == same && (*d == *n) == same, key + ":equality", "models with (%s) and (%s) compare %d", show(h).c_str(), show(k).c_str(), *n == *d);
    }
  }
  // Operations with foreign parameters leave the own ones alone; a wrong number is refused.
  const V2 p(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3));
  if (m != kNull) {
    for (int op = 0; op < 4; ++op) {
      V2 q = p;
      Eigen::Matrix2d J;
      M2X P;
      bool finite = true;
      for (int i = 0; i < h.size(); ++i) finite = finite && std::isfinite(h[i]) && std::abs(h[i]) < 10;
      if (!finite) continue;
      vf::Outcome o = vf::guarded([&] {
        if (op == 0) d->distortUsingExternalCoefficients(&h, &q, nullptr);
        else if (op == 1) d->distortUsingExternalCoefficients(&h, &q, &J);
        else if (op == 2) d->distortParameterJacobian(&h, p, &P);
        else d->undistortUsingExternalCoefficients(h, &q);
      });
      static const char* ops[] = {"distort", "distort with Jacobian", "parameter Jacobian", "undistort"};
      if (h.size() != paramCount(m)) VF_EXPECT(o == vf::kFatal, key + ":foreign:size", "%s with %d parameters %s", ops[op], (int)h.size(), vf::outcomeName(o));
      else if (ok) VF_EXPECT(o == vf::kOk, key + ":foreign", "%s with (%s) %s", ops[op], show(h).c_str(), vf::outcomeName(o));
      VF_EXPECT(d->getParameters() == k, key + ":foreign:kept", "%s with (%s) left (%s)", ops[op], show(h).c_str(), show(d->getParameters()).c_str());
    }
    V2 q;
    VF_EXPECT(vf::guarded([&] { d->distort(static_cast<V2*>(nullptr)); }) == vf::kFatal, key + ":null:distort", "a missing point was accepted");
    VF_EXPECT(vf::guarded([&] { d->distort(p, static_cast<V2*>(nullptr)); }) == vf::kFatal, key + ":null:distort-copy", "a missing result was accepted");
    VF_EXPECT(vf::guarded([&] { d->undistort(static_cast<V2*>(nullptr)); }) == vf::kFatal, key + ":null:undistort", "a missing point was accepted");
    VF_EXPECT(vf::guarded([&] { d->distortParameterJacobian(&k, p, nullptr); }) == vf::kFatal, key + ":null:jacobian", "a missing Jacobian was accepted");
  }
  // Setting.
  vf::Outcome o = vf::guarded([&] { d->setParameters(h); });
  VF_EXPECT((o == vf::kOk) == ok, key + ":set", "setting (%s) %s", show(h).c_str(), vf::outcomeName(o));
  if (ok) VF_EXPECT(d->getParameters().size() == h.size() && d->getParameters() == h, key + ":set:stored", "setting (%s) left (%s)", show(h).c_str(), show(d->getParameters()).c_str());
  else VF_EXPECT(d->getParameters().size() == k.size() && d->getParameters() == k, key + ":set:kept", "refusing (%s) left (%s)", show(h).c_str(), show(d->getParameters()).c_str());
  VF_EXPECT(c->getParameters().size() == k.size() && c->getParameters() == k, key + ":clone:independent", "the clone followed to (%s)", show(c->getParameters()).c_str());
  if (ok) {
    const bool same = h.size() == k.size() && h == k;
    bool e1 = false, e2 = false;
    if (vf::mustReturn(key + ":equality", "comparing", [&] { e1 = *c == *d; e2 = *d == *c; })) VF_EXPECT(e1 == same && e2 == same, key + ":equality", "(%s) and (%s) compare %d %d", show(h).c_str(), show(k).c_str(), e1, e2);
  }
  // Another type is never equal, not even with the same parameters.
  for (int t = 0; t < 4; ++t) {
    if (t == m) continue;
    std::unique_ptr<Distortion> x = make(t, paramCount(t) == k.size() ? k : someParams(r, t));
    VF_EXPECT(!(*x == *c) && !(*c == *x), key + ":equality:type", "%s equals %s", kName[t], kName[m]);
  }
  // Differences in single parameters are seen, also the smallest.
  for (int i = 0; i < k.size(); ++i) {
    VX s = k;
    s[i] = m == kFish ? (k[i] == 0.75 ? 0.8 : 0.75) : std::nextafter(k[i], 1e9);
    std::unique_ptr<Distortion> x = make(m, s);
    VF_EXPECT(!(*x == *c), key + ":equality:parameter", "a change of parameter %d from %.17g to %.17g is not seen", i, k[i], s[i]);
  }
  // Printing names the parameters.
  {
    std::ostringstream out;
    c->printParameters(out, "some camera");
    VF_EXPECT(out.str().find("some camera") != std::string::npos, key + ":print", "the text was not printed");
    for (int i = 0; i < k.size(); ++i) {
      std::ostringstream v;
      v << k[i];
      VF_EXPECT(out.str().find(v.str()) != std::string::npos, key + ":print", "parameter %s is not in '%s'", v.str().c_str(), out.str().c_str());
    }
  }
  vf::count(ok ? "valid parameter sets" : "invalid parameter sets");
  vf::evaluated(hashCase(m, k, p) ^ vf::hashBytes(h.data(), h.size() * 8), true, vf::fmt("%s (%s) given (%s): %s", kName[m], show(k).c_str(), show(h).c_str(), ok ? "accepted" : "refused"));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  const std::string p = vf::opts().property;
  if (p == "C20") {
    vf::part("round-trip", vf::scale(4500, 300000), roundTrip);
    vf::part("external", vf::scale(8000, 400000), external);
  } else if (p == "C21") {
    vf::part("jacobians", vf::scale(10000, 600000), jacobians);
  } else {
    vf::part("parameters", vf::scale(6000, 200000), parameters);
  }
  return vf::finish();
}
