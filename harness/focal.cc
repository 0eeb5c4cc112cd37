// C44: initial focal lengths.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <opencv2/imgproc/imgproc.hpp>
#include <Eigen/Dense>
#include <aslam/calibration/focallength-initializers.h>

using vf::Rng;
using aslam::calibration::TargetBase;
using aslam::calibration::TargetObservation;
typedef aslam::calibration::InitializerHelpers Helpers;

namespace {
typedef long double ld;
class Target : public TargetBase {
 public:
  Target(size_t rows, size_t cols, const Eigen::Matrix3Xd& p) : TargetBase(rows, cols, p) {}
};

void circles(Rng& r, uint64_t) {
  const double scale = std::pow(10, r.uni(-2, 4));
  const double cx = r.uni(-2, 2) * scale, cy = r.uni(-2, 2) * scale, R = r.uni(0.3, 2) * scale;
  // A circle through points on an arc.
  const size_t n = 3 + r.below(20);
  const double arc = r.uni(0.8, 6.28), from = r.uni(0, 6.28);
  std::vector<cv::Point2d> pts;
  for (size_t i = 0; i < n; ++i) {
    const double t = from + arc * (i + r.uni(0, 0.8)) / n;
    pts.emplace_back(cx + R * std::cos(t), cy + R * std::sin(t));
  }
  for (size_t i = n; i > 1; --i) std::swap(pts[i - 1], pts[r.below(i)]);
  vf::detail(vf::fmt("%zu points on an arc of %g, centre (%g %g) radius %g", n, arc, cx, cy, R));
  double x = 0, y = 0, rad = 0;
  if (!vf::mustReturn("fit", "fitting a circle", [&] { Helpers::fitCircle(pts, &x, &y, &rad); })) return;
  const double tol = 1e-6 * scale;
  VF_EXPECT(std::hypot(x - cx, y - cy) < tol && std::abs(rad - R) < tol, "fit", "centre (%.9g %.9g) radius %.9g instead of (%.9g %.9g) %.9g", x, y, rad, cx, cy, R);
  vf::evaluated(vf::hashBytes(pts.data(), n * sizeof(pts[0])), true, vf::fmt("%zu points", n));
}

void intersections(Rng& r, uint64_t) {
  const double scale = std::pow(10, r.uni(-2, 4));
  const double x1 = r.uni(-2, 2) * scale, y1 = r.uni(-2, 2) * scale, r1 = r.uni(0.1, 2) * scale;
  const double a = r.uni(0, 6.283185307), kind = r.uni();
  double d, r2 = r.uni(0.1, 2) * scale;
  int expect = -1;  // unknown
  if (kind < 0.2) { d = (r1 + r2) * r.uni(1.001, 3); expect = 0; }
  else if (kind < 0.4) { d = std::abs(r1 - r2) * r.uni(0, 0.999); expect = 0; }
  else if (kind < 0.8) { d = std::abs(r1 - r2) + (r1 + r2 - std::abs(r1 - r2)) * r.uni(0.001, 0.999); expect = 2; }
  else if (kind < 0.86) d = r1 + r2;
  else if (kind < 0.92) d = std::abs(r1 - r2);
  else { d = 0; if (r.chance(0.7)) r2 = r1; else expect = 0; }
  double x2 = x1 + d * std::cos(a), y2 = y1 + d * std::sin(a);
  if (r.chance(0.3)) {  // Touching exactly in floating point.
    if (kind >= 0.8 && kind < 0.92) { x2 = x1 + d; y2 = y1; }
  }
  vf::detail(vf::fmt("(%.17g %.17g) %.17g and (%.17g %.17g) %.17g", x1, y1, r1, x2, y2, r2));
  std::vector<cv::Point2d> p;
  if (!vf::mustReturn("intersect", "intersecting circles", [&] { Helpers::intersectCircles(x1, y1, r1, x2, y2, r2, &p); })) return;
  VF_EXPECT(p.size() <= 2 && (expect < 0 || p.size() == static_cast<size_t>(expect)), "intersection-count", "%zu intersections of circles with %d", p.size(), expect);
  for (const cv::Point2d& q : p) {
    const double e1 = std::abs(std::hypot(q.x - x1, q.y - y1) - r1), e2 = std::abs(std::hypot(q.x - x2, q.y - y2) - r2);
    VF_EXPECT(e1 < 1e-6 * scale && e2 < 1e-6 * scale, "intersection", "(%g %g) is %g and %g away from the circles", q.x, q.y, e1, e2);
  }
  if (p.size() == 2 && expect == 2) VF_EXPECT(p[0] != p[1], "intersection-twice", "the same point twice");
  // With numbers that are none, nothing is found.
  const double bad = r.chance(0.5) ? std::nan("") : INFINITY;
  double v[6] = {x1, y1, r1, x2, y2, r2};
  v[r.below(6)] = bad;
  if (r.chance(0.5)) v[r.below(6)] = bad;
  p.clear();
  vf::mustReturn("intersect", "intersecting circles", [&] { Helpers::intersectCircles(v[0], v[1], v[2], v[3], v[4], v[5], &p); });
  VF_EXPECT(p.empty(), "intersection-none", "%zu intersections of a circle that is none (%g %g %g, %g %g %g)", p.size(), v[0], v[1], v[2], v[3], v[4], v[5]);
  vf::evaluated(vf::hashBytes(&d, 8, vf::hashBytes(&x1, 8)), expect != 0, vf::fmt("kind %g", kind));
}

struct View { Eigen::Matrix3d R; Eigen::Vector3d t; };
struct Setup { TargetBase::Ptr target; Eigen::Matrix3Xd points; int w, h; double fu, fv; };
Setup someSetup(Rng& r, double min_f, double max_f) {
  Setup s;
  const size_t rows = 3 + r.below(6), cols = 3 + r.below(6);
  const double d = r.uni(0.02, 0.2);
  s.points.resize(3, rows * cols);
  for (size_t i = 0; i < rows; ++i)
    for (size_t j = 0; j < cols; ++j) s.points.col(i * cols + j) << j * d, i * d, 0;
  s.target = std::make_shared<Target>(rows, cols, s.points);
  s.w = 200 + static_cast<int>(r.below(1500));
  s.h = 200 + static_cast<int>(r.below(1200));
  s.fu = s.w * r.uni(min_f, max_f);
  s.fv = r.chance(0.5) ? s.fu : s.fu * r.uni(0.8, 1.25);
  return s;
}
View someView(Rng& r, const Setup& s, double lo, double hi, double depth) {
  View v;
  const double size = s.points.col(s.points.cols() - 1).norm(), dir = r.uni(0, 6.283185307);
  const Eigen::Vector3d axis(std::cos(dir), std::sin(dir), 0);
  v.R = (Eigen::AngleAxisd(r.uni(0, 6.28), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(r.uni(lo, hi), axis)).toRotationMatrix();
  const Eigen::Vector3d mid = s.points.col(s.points.cols() - 1) / 2;
  v.t = Eigen::Vector3d(r.uni(-0.1, 0.1) * size, r.uni(-0.1, 0.1) * size, size * depth) - v.R * mid;
  return v;
}
// An observation of all or some corners, in any order.
TargetObservation::Ptr observe(Rng& r, const Setup& s, const Eigen::Matrix2Xd& image, bool complete) {
  const int n = static_cast<int>(image.cols());
  std::vector<int> ids(n);
  for (int i = 0; i < n; ++i) ids[i] = i;
  for (int i = n; i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]);
  const int k = complete ? n : static_cast<int>(r.below(n));
  Eigen::VectorXi id(k);
  Eigen::Matrix2Xd p(2, k);
  for (int i = 0; i < k; ++i) { id(i) = ids[i]; p.col(i) = image.col(ids[i]); }
  return std::make_shared<TargetObservation>(s.target, s.h, s.w, id, p);
}
Eigen::Matrix2Xd pinhole(const Setup& s, const View& v) {
  Eigen::Matrix2Xd p(2, s.points.cols());
  for (int i = 0; i < p.cols(); ++i) {
    const Eigen::Vector3d q = v.R * s.points.col(i) + v.t;
    p.col(i) << s.fu * q[0] / q[2] + (s.w - 1) / 2.0, s.fv * q[1] / q[2] + (s.h - 1) / 2.0;
  }
  return p;
}
// The equations of a view without noise; their condition tells whether they determine the focal lengths.
void equations(const Setup& s, const View& v, std::vector<std::array<double, 3>>* rows) {
  const Eigen::Vector3d a(s.fu * v.R(0, 0), s.fv * v.R(1, 0), v.R(2, 0)), b(s.fu * v.R(0, 1), s.fv * v.R(1, 1), v.R(2, 1));
  const Eigen::Vector3d h = a.normalized(), w = b.normalized(), p = (a + b).normalized(), m = (a - b).normalized();
  rows->push_back({{h[0] * w[0], h[1] * w[1], -h[2] * w[2]}});
  rows->push_back({{p[0] * m[0], p[1] * m[1], -p[2] * m[2]}});
}
void expectMiddle(const Setup& s, const Eigen::VectorXd& k) {
  VF_EXPECT(k.size() == 4 && k[2] == (s.w - 1) / 2.0 && k[3] == (s.h - 1) / 2.0, "centre", "%d parameters, principal point (%g %g) in an image of %d x %d", static_cast<int>(k.size()), k.size() == 4 ? k[2] : 0, k.size() == 4 ? k[3] : 0, s.w, s.h);
}
bool usable(const Eigen::VectorXd& k) { return k.size() == 4 && k.allFinite() && k[0] > 0 && k[1] > 0; }

void conic(Rng& r, uint64_t) {
  const Setup s = someSetup(r, 0.4, 1.5);
  const size_t n = 1 + r.below(6);
  std::vector<TargetObservation::Ptr> complete, all;
  std::vector<std::array<double, 3>> eq;
  for (size_t i = 0; i < n; ++i) {
    const View v = someView(r, s, 0.35, 1.0, r.uni(1.3, 3));
    equations(s, v, &eq);
    const Eigen::Matrix2Xd image = pinhole(s, v);
    complete.push_back(observe(r, s, image, true));
    while (r.chance(0.3)) all.push_back(observe(r, s, image, false));
    all.push_back(complete.back());
  }
  while (r.chance(0.3)) all.push_back(observe(r, s, pinhole(s, someView(r, s, 0.3, 1, 2)), false));
  vf::detail(vf::fmt("%zu views, %zu with incomplete ones, %dx%d fu %.9g fv %.9g", n, all.size(), s.w, s.h, s.fu, s.fv));
  // Stale memory must not matter.
  { std::vector<cv::Mat> junk; for (int i = 0; i < 8; ++i) junk.push_back(cv::Mat(static_cast<int>(all.size()) * 2, 2 - i % 2, CV_64F, cv::Scalar(r.uni(-9, 9)))); }
  Eigen::VectorXd k, ka;
  bool ok = false, oka = false;
  const bool direct = r.chance(0.5);
  typedef aslam::calibration::FocalLengthInitializer<aslam::PinholeCamera, aslam::NullDistortion> Init;
  if (!vf::mustReturn("conic", "initializing", [&] {
        ok = direct ? aslam::calibration::initFocalLengthAbsoluteConic(complete, &k) : Init::initialize(complete, &k);
        oka = direct ? aslam::calibration::initFocalLengthAbsoluteConic(all, &ka) : Init::initialize(all, &ka);
      })) return;
  Eigen::MatrixXd A(eq.size(), 2);
  for (size_t i = 0; i < eq.size(); ++i) A.row(i) << eq[i][0], eq[i][1];
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(A);
  const double worst = svd.singularValues()[1];
  const double f = std::min(s.fu, s.fv);
  if (worst > 0.05 && s.fu < 1.6 * s.h) {
    VF_EXPECT(ok && usable(k), "conic", "no focal lengths from %zu views", n);
    if (ok && usable(k)) {
      expectMiddle(s, k);
      const double tol = 2e-3;
      VF_EXPECT(std::abs(k[0] / s.fu - 1) < tol && std::abs(k[1] / s.fv - 1) < tol, "conic", "focal lengths %.9g %.9g instead of %.9g %.9g", k[0], k[1], s.fu, s.fv);
      vf::maxOf("largest relative error of a focal length", std::max(std::abs(k[0] / s.fu - 1), std::abs(k[1] / s.fv - 1)));
    }
    VF_EXPECT(ok == oka && (!ok || (usable(ka) && (ka - k).norm() <= 1e-6 * k.norm())), "conic-incomplete", "incomplete views change the focal lengths from %.9g %.9g to %.9g %.9g", k[0], k[1], ka.size() > 1 ? ka[0] : 0, ka.size() > 1 ? ka[1] : 0);
    vf::count("well-posed initializations");
  }
  if (ok) VF_EXPECT(usable(k), "conic-unusable", "success with %g %g", k.size() ? k[0] : 0, k.size() ? k[1] : 0);
  vf::evaluated(vf::hashBytes(&f, 8), worst > 0.05, vf::fmt("%zu views", n));
}

// A camera whose image radius is proportional to the angle.
void vanishing(Rng& r, uint64_t) {
  Setup s = someSetup(r, 0.25, 0.45);
  s.fv = s.fu;
  const size_t n = 2 + r.below(8);
  std::vector<TargetObservation::Ptr> complete, all;
  double reach = 0;
  for (size_t i = 0; i < n; ++i) {
    const View v = someView(r, s, 0.0, 0.8, r.uni(0.35, 0.6));
    Eigen::Matrix2Xd p(2, s.points.cols());
    for (int j = 0; j < p.cols(); ++j) {
      const Eigen::Vector3d q = v.R * s.points.col(j) + v.t;
      const double rho = std::hypot(q[0], q[1]), theta = std::atan2(rho, q[2]);
      reach = std::max(reach, theta);
      const double m = rho > 0 ? s.fu * theta / rho : 0;
      p.col(j) << m * q[0] + (s.w - 1) / 2.0, m * q[1] + (s.h - 1) / 2.0;
    }
    complete.push_back(observe(r, s, p, true));
    while (r.chance(0.3)) all.push_back(observe(r, s, p, false));
    all.push_back(complete.back());
  }
  vf::detail(vf::fmt("%zu views, %zu with incomplete ones, %dx%d f %.9g, up to %g rad", n, all.size(), s.w, s.h, s.fu, reach));
  Eigen::VectorXd k, ka;
  bool ok = false, oka = false;
  const int how = static_cast<int>(r.below(3));
  typedef aslam::calibration::FocalLengthInitializer<aslam::PinholeCamera, aslam::EquidistantDistortion> Equi;
  typedef aslam::calibration::FocalLengthInitializer<aslam::PinholeCamera, aslam::RadTanDistortion> Rad;
  auto init = [&](const std::vector<TargetObservation::Ptr>& o, Eigen::VectorXd* out) {
    return how == 0 ? aslam::calibration::initFocalLengthVanishingPoints(o, out) : how == 1 ? Equi::initialize(o, out) : Rad::initialize(o, out);
  };
  if (!vf::mustReturn("vanishing", "initializing", [&] { ok = init(complete, &k); oka = init(all, &ka); })) return;
  VF_EXPECT(ok && usable(k), "vanishing", "no focal length");
  if (ok && usable(k)) {
    expectMiddle(s, k);
    VF_EXPECT(k[0] == k[1], "vanishing-equal", "focal lengths %.9g %.9g", k[0], k[1]);
    VF_EXPECT(k[0] > 0.6 * s.fu && k[0] < 1.6 * s.fu, "vanishing", "focal length %.9g instead of %.9g", k[0], s.fu);
    vf::maxOf("largest ratio of an estimated focal length", std::max(k[0] / s.fu, s.fu / k[0]));
  }
  VF_EXPECT(ok == oka && (!ok || ka == k), "vanishing-incomplete", "incomplete views change the focal length");
  vf::evaluated(vf::hashBytes(&s.fu, 8), true, vf::fmt("%zu views", n));
}

// Views that do not determine anything: failure, or at least usable numbers.
void degenerate(Rng& r, uint64_t i) {
  const Setup s = someSetup(r, 0.4, 1.5);
  const int kind = static_cast<int>(i % 6);
  std::vector<TargetObservation::Ptr> o;
  const size_t n = 1 + r.below(3);
  for (size_t e = 0; e < n; ++e) {
    Eigen::Matrix2Xd p(2, s.points.cols());
    switch (kind) {
      case 0: p.setConstant(r.uni(0, 200)); break;
      case 1: for (int j = 0; j < p.cols(); ++j) p.col(j) << j * 3.0 + 1, j * 2.0 + 5; break;
      case 2: p = pinhole(s, someView(r, s, 0, 0, 2)); break;
      case 3: for (int j = 0; j < p.cols(); ++j) p.col(j) << 100 + 1000 * s.points(0, j), 50 + 1000 * s.points(1, j); break;
      case 4: p = pinhole(s, someView(r, s, 0.3, 0.9, 2)); break;
      default: p = pinhole(s, someView(r, s, 0.3, 0.9, 2));
    }
    o.push_back(observe(r, s, p, kind != 5));
  }
  vf::detail(vf::fmt("kind %d, %zu views", kind, n));
  { std::vector<cv::Mat> junk; for (int e = 0; e < 8; ++e) junk.push_back(cv::Mat(static_cast<int>(n) * 2, 2 - e % 2, CV_64F, cv::Scalar(r.uni(-9, 9)))); }
  for (int which = 0; which < 2; ++which) {
    Eigen::VectorXd k;
    bool ok = false;
    if (!vf::mustReturn("degenerate", which ? "absolute conic" : "vanishing points", [&] { ok = which ? aslam::calibration::initFocalLengthAbsoluteConic(o, &k) : aslam::calibration::initFocalLengthVanishingPoints(o, &k); })) continue;
    VF_EXPECT(!ok || usable(k), which ? "degenerate-conic" : "degenerate-vanishing", "kind %d: success with %g %g", kind, k.size() ? k[0] : 0, k.size() > 1 ? k[1] : 0);
    if (kind == 5) VF_EXPECT(!ok, which ? "none-conic" : "none-vanishing", "success without a complete view");
    vf::count(ok ? "degenerate views that gave something" : "degenerate views that gave nothing");
  }
  if (i < 8) {
    std::vector<TargetObservation::Ptr> none, null(1);
    Eigen::VectorXd k;
    VF_EXPECT(vf::guarded([&] { aslam::calibration::initFocalLengthAbsoluteConic(none, &k); }) != vf::kOk && vf::guarded([&] { aslam::calibration::initFocalLengthVanishingPoints(none, &k); }) != vf::kOk, "refused-none", "no observations were accepted");
    VF_EXPECT(vf::guarded([&] { aslam::calibration::initFocalLengthAbsoluteConic(o, nullptr); }) != vf::kOk && vf::guarded([&] { aslam::calibration::initFocalLengthVanishingPoints(o, nullptr); }) != vf::kOk, "refused-null", "no output was accepted");
    typedef aslam::calibration::FocalLengthInitializer<aslam::PinholeCamera, aslam::FisheyeDistortion> Fish;
    typedef aslam::calibration::FocalLengthInitializer<aslam::UnifiedProjectionCamera, aslam::NullDistortion> Uni;
    VF_EXPECT(vf::guarded([&] { Fish::initialize(o, &k); }) == vf::kFatal && vf::guarded([&] { Uni::initialize(o, &k); }) == vf::kFatal, "refused-model", "a model without an initializer was accepted");
  }
  vf::evaluated(vf::mix(i), true, vf::fmt("kind %d", kind));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("circles", vf::scale(5000, 200000), circles);
  vf::part("intersections", vf::scale(10000, 400000), intersections);
  vf::part("conic", vf::scale(1500, 40000), conic);
  vf::part("vanishing", vf::scale(1500, 40000), vanishing);
  vf::part("degenerate", vf::scale(600, 12000), degenerate);
  return vf::finish();
}
