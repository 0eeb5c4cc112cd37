// C40: triangulation.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include "camera_ref.h"
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/feature-track.h>
#include <aslam/triangulation/triangulation.h>

namespace {
typedef Eigen::Matrix<ld, 3, 1> L3;
typedef Eigen::Matrix<ld, 3, 3> L33;
typedef Aligned<std::vector, Transformation> Ts;
typedef Aligned<std::vector, Eigen::Vector2d> V2s;
typedef TriangulationResult Res;
enum Algo { kSingle, kRays, kMulti, kIterative, kAlgos };
const char* kAlgo[] = {"views", "rays", "multi-camera", "iterative"};

V3 someDir(Rng& r) {
  V3 v;
  do v = V3(r.gauss(), r.gauss(), r.gauss()); while (v.norm() < 1e-3);
  return v.normalized();
}
Eigen::Quaterniond someRot(Rng& r, double max) { return Eigen::Quaterniond(Eigen::AngleAxisd(r.uni(-max, max), someDir(r))); }

// Observations of one point: poses of bodies, cameras on them, rays.
struct Scene {
  Ts T_G_B, T_B_C;
  std::vector<size_t> cam;
  V2s norm;
  Eigen::Matrix3Xd rays, centers;   // in G
  V3 p;
  Transformation T_G_C(size_t i) const { return T_G_B[i] * T_B_C[cam[i]]; }
  size_t size() const { return norm.size(); }
  void fill() {
    norm.clear();
    rays.resize(3, T_G_B.size()); centers.resize(3, T_G_B.size());
    for (size_t i = 0; i < T_G_B.size(); ++i) {
      const V3 c = T_G_C(i).inverse() * p;
      norm.push_back(V2(c[0] / c[2], c[1] / c[2]));
      centers.col(i) = T_G_C(i).getPosition();
      rays.col(i) = p - centers.col(i);
    }
  }
  void permute(const std::vector<size_t>& o) {
    Scene s = *this;
    for (size_t i = 0; i < o.size(); ++i) {
      T_G_B[i] = s.T_G_B[o[i]]; cam[i] = s.cam[o[i]]; norm[i] = s.norm[o[i]];
      rays.col(i) = s.rays.col(o[i]); centers.col(i) = s.centers.col(o[i]);
    }
  }
  std::string show() const {
    std::string t = vf::fmt("%zu views, %zu cameras, p=(%.17g %.17g %.17g)", size(), T_B_C.size(), p[0], p[1], p[2]);
    for (size_t i = 0; i < std::min<size_t>(size(), 6); ++i) t += vf::fmt(" [c %.6g %.6g %.6g m %.6g %.6g]", centers(0, i), centers(1, i), centers(2, i), norm[i][0], norm[i][1]);
    return t;
  }
};
double parallax(const Scene& s) {
  double best = 0;
  for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < i; ++j)
    best = std::max(best, std::atan2(s.rays.col(i).cross(s.rays.col(j)).norm(), s.rays.col(i).dot(s.rays.col(j))));
  return std::min(best, M_PI - best);
}
// Cameras within `spread` around `home` looking roughly at p.
Scene someScene(Rng& r, size_t n, size_t m, double spread, double off_axis, double depth) {
  Scene s;
  const V3 home = someDir(r) * r.uni(0, 20), look = someDir(r);
  s.p = home + look * depth;
  for (size_t i = 0; i < m; ++i) s.T_B_C.emplace_back(someRot(r, M_PI), V3(someDir(r) * r.uni(0, 0.2 * spread)));
  for (size_t i = 0; i < n; ++i) {
    s.cam.push_back(r.below(m));
    V3 c;
    do c = home + someDir(r) * r.uni(0, spread); while ((s.p - c).norm() < 0.2 * depth);
    // The camera's z axis points at p up to an angle.
    Eigen::Quaterniond q = Eigen::Quaterniond::FromTwoVectors(V3(0, 0, 1), V3(s.p - c)) * Eigen::Quaterniond(Eigen::AngleAxisd(r.uni(-M_PI, M_PI), V3(0, 0, 1))) *
                           Eigen::Quaterniond(Eigen::AngleAxisd(r.uni(0, off_axis), V3(1, 0, 0))) * Eigen::Quaterniond(Eigen::AngleAxisd(r.uni(-M_PI, M_PI), V3(0, 0, 1)));
    q.normalize();
    s.T_G_B.push_back(Transformation(q, c) * s.T_B_C[s.cam.back()].inverse());
  }
  s.fill();
  return s;
}
Res run(int a, const Scene& s, V3* p) {
  switch (a) {
    case kSingle: return linearTriangulateFromNViews(s.norm, s.T_G_B, s.T_B_C[0], p);
    case kRays: return linearTriangulateFromNViews(s.rays, s.centers, p);
    case kMulti: return linearTriangulateFromNViewsMultiCam(s.norm, s.cam, s.T_G_B, s.T_B_C, p);
    default: return iterativeGaussNewtonTriangulateFromNViews(s.norm, s.T_G_B, s.T_B_C[0], p);
  }
}
// The point closest to all lines; the smallest eigenvalue says how well it is determined.
L3 closest(const Scene& s, double* weakest) {
  L33 A = L33::Zero();
  L3 b = L3::Zero();
  for (size_t i = 0; i < s.size(); ++i) {
    const L3 d = s.rays.col(i).cast<ld>().normalized(), c = s.centers.col(i).cast<ld>();
    const L33 P = L33::Identity() - d * d.transpose();
    A += P;
    b += P * c;
  }
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> e(A.cast<double>());
  *weakest = e.eigenvalues()[0];
  return A.fullPivLu().solve(b);
}
// Ten Gauss-Newton steps from infinity are only promised to converge when the
// cameras are about as far from the point as the first one.
bool sideways(const Scene& s) {
  for (long i = 1; i < s.rays.cols(); ++i) if (s.rays.col(i).norm() < 0.8 * s.rays.col(0).norm() || s.rays.col(i).norm() > 1.25 * s.rays.col(0).norm()) return false;
  return true;
}
bool usable(int a, const Scene& s) { return s.T_B_C.size() == 1 || a == kMulti || a == kRays; }

void exact(Rng& r, uint64_t) {
  const size_t n = r.chance(0.4) ? 2 : 2 + r.below(r.chance(0.03) ? 150 : r.chance(0.1) ? 60 : 10), m = r.chance(0.5) ? 1 : 1 + r.below(r.chance(0.2) ? 20 : 4);
  const bool mild = r.chance(0.5);
  const double depth = mild ? r.uni(3, 8) : std::pow(10, r.uni(-1, 2));
  Scene s = someScene(r, n, m, depth * r.uni(0.15, mild ? 0.3 : 0.9), mild ? 0.35 : 1.1, depth);
  if (!mild && r.chance(0.4)) for (long i = 0; i < s.rays.cols(); ++i) s.rays.col(i) *= std::pow(10, r.uni(-3, 3)) * (r.chance(0.2) ? -1 : 1);
  const double par = parallax(s);
  vf::detail(s.show() + vf::fmt(" parallax %.3f deg", par * 180 / M_PI));
  if (par < 5 * M_PI / 180) { vf::evaluated(0, false); return; }
  std::vector<size_t> o(n);
  for (size_t i = 0; i < n; ++i) o[i] = i;
  for (size_t i = n; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
  Scene t = s;
  t.permute(o);
  // What rounding of coordinates of this size can do at this parallax.
  const double size = s.p.norm() + depth + s.centers.cwiseAbs().maxCoeff();
  for (int a = 0; a < kAlgos; ++a) {
    if (!usable(a, s) || (a == kIterative && (!mild || !sideways(s) || par < 8 * M_PI / 180))) continue;
    V3 p = V3::Constant(NAN), q = p;
    Res x, y;
    if (!vf::mustReturn(std::string("returns:") + kAlgo[a], "triangulating", [&] { x = run(a, s, &p); y = run(a, t, &q); })) continue;
    if (!VF_EXPECT(static_cast<bool>(x) && x.status() == Res::SUCCESSFUL, std::string("succeeds:") + kAlgo[a], "%s: status %d with %.2f degrees of parallax", kAlgo[a], static_cast<int>(x.status()), par * 180 / M_PI)) continue;
    const double tol = a == kIterative ? 1e-3 * depth : size * 1e-12 / std::pow(par, 2) * (n + 2) + 1e-13;
    VF_EXPECT((p - s.p).norm() <= tol, std::string("point:") + kAlgo[a], "%s: found (%.17g %.17g %.17g), %.3g away (allowed %.3g)", kAlgo[a], p[0], p[1], p[2], (p - s.p).norm(), tol);
    vf::maxOf(std::string("error/depth ") + kAlgo[a], (p - s.p).norm() / depth);
    VF_EXPECT(y.status() == x.status() && (q - p).norm() <= 2 * tol, std::string("order:") + kAlgo[a], "%s: another order gives status %d and a point %.3g away", kAlgo[a], static_cast<int>(y.status()), (q - p).norm());
    vf::count(std::string("recovered:") + kAlgo[a]);
  }
  vf::evaluated(vf::hashBytes(s.p.data(), 24), true, s.show());
}

// Rays that miss each other: the point closest to all of them.
void noisy(Rng& r, uint64_t) {
  const size_t n = 2 + r.below(r.chance(0.03) ? 120 : 12), m = r.chance(0.5) ? 1 : 1 + r.below(r.chance(0.2) ? 20 : 3);
  const double depth = std::pow(10, r.uni(-1, 2));
  Scene s = someScene(r, n, m, depth * 0.6, 0.8, depth);
  const double noise = std::pow(10, r.uni(-6, -1));
  for (size_t i = 0; i < n; ++i) {
    s.norm[i] += V2(r.gauss(), r.gauss()) * noise;
    s.rays.col(i) = s.T_G_C(i).getRotation().rotate(V3(s.norm[i][0], s.norm[i][1], 1)) * r.uni(0.1, 10);
  }
  double weakest;
  const V3 want = closest(s, &weakest).cast<double>();
  vf::detail(s.show() + vf::fmt(" noise %g", noise));
  if (parallax(s) < 0.12 || weakest < 5e-3) { vf::evaluated(0, false); return; }
  const double size = want.norm() + depth + s.centers.cwiseAbs().maxCoeff(), tol = size * 1e-11 / weakest * (n + 2);
  for (int a = 0; a < kIterative; ++a) {
    if (!usable(a, s)) continue;
    V3 p = V3::Constant(NAN);
    Res x;
    if (!vf::mustReturn(std::string("returns:") + kAlgo[a], "triangulating", [&] { x = run(a, s, &p); })) continue;
    if (!VF_EXPECT(x.wasTriangulationSuccessful(), std::string("succeeds:") + kAlgo[a], "%s: status %d with noise %g", kAlgo[a], static_cast<int>(x.status()), noise)) continue;
    VF_EXPECT((p - want).norm() <= tol, std::string("closest:") + kAlgo[a], "%s: (%.17g %.17g %.17g) is %.3g away from the point closest to the rays (allowed %.3g)", kAlgo[a], p[0], p[1], p[2], (p - want).norm(), tol);
  }
  vf::evaluated(vf::hashBytes(want.data(), 24), true, s.show());
}

// A turn of the camera away from what it looks at; up to nearly a right angle.
Eigen::Quaterniond offAxis(Rng& r, bool wide) {
  if (!wide) return someRot(r, 0.5);
  const double a = r.uni(-M_PI, M_PI);
  return Eigen::Quaterniond(Eigen::AngleAxisd(M_PI / 2 - std::pow(10, r.uni(-8, -1)), V3(std::cos(a), std::sin(a), 0)));
}

// Nothing to triangulate: one view, one centre, one line, parallel rays.
void degenerate(Rng& r, uint64_t) {
  const size_t n = 2 + r.below(8);
  const double depth = std::pow(10, r.uni(-1, 2));
  Scene s = someScene(r, n, 1, depth * 0.5, 0.7, depth);
  const int kind = static_cast<int>(r.below(5));
  const char* kKind[] = {"few views", "one centre", "the same view", "cameras in line with the point", "parallel rays"};
  std::string how = kKind[kind];
  const size_t wide = r.chance(0.4) ? r.below(n) : n;
  const V3 base = s.T_G_C(0).getPosition(), dir = (s.p - base).normalized();
  Transformation C_B = s.T_B_C[0].inverse();
  switch (kind) {
    case 0: {
      const size_t k = r.below(2);
      s.T_G_B.resize(k); s.cam.resize(k); s.fill();
      s.norm.resize(k);
      break;
    }
    case 1:
      for (size_t i = 0; i < n; ++i) s.T_G_B[i] = Transformation(s.T_G_C(i).getEigenQuaternion(), base) * C_B;
      // The cameras were turned towards the point from elsewhere: turn them back.
      for (size_t i = 0; i < n; ++i) {
        Eigen::Quaterniond q = Eigen::Quaterniond::FromTwoVectors(V3(0, 0, 1), dir) * offAxis(r, i == wide);
        q.normalize();
        s.T_G_B[i] = Transformation(q, base) * C_B;
      }
      s.fill();
      break;
    case 2:
      for (size_t i = 1; i < n; ++i) s.T_G_B[i] = s.T_G_B[0];
      s.fill();
      break;
    case 3:
      for (size_t i = 0; i < n; ++i) {
        Eigen::Quaterniond q = Eigen::Quaterniond::FromTwoVectors(V3(0, 0, 1), dir) * offAxis(r, i == wide);
        q.normalize();
        s.T_G_B[i] = Transformation(q, V3(base + dir * r.uni(-2, 0.8) * depth)) * C_B;
      }
      s.fill();
      break;
    default:
      for (size_t i = 0; i < n; ++i) {
        const V3 b = s.T_G_C(i).getRotation().inverseRotate(dir);
        s.rays.col(i) = dir * r.uni(0.1, 10);
        if (b[2] < 0.2) { vf::evaluated(0, false); return; }
        s.norm[i] = V2(b[0] / b[2], b[1] / b[2]);
      }
  }
  vf::detail(how + ": " + s.show());
  for (int a = 0; a < kAlgos; ++a) {
    V3 p = V3::Constant(NAN);
    Res x;
    if (!vf::mustReturn(std::string("degenerate-returns:") + kAlgo[a], "triangulating " + how, [&] { x = run(a, s, &p); })) continue;
    VF_EXPECT(!x, std::string("degenerate:") + kAlgo[a] + ":" + how, "%s: success for %s, (%.6g %.6g %.6g)", kAlgo[a], how.c_str(), p[0], p[1], p[2]);
    VF_EXPECT(x.status() == (kind == 0 ? Res::TOO_FEW_MEASUREMENTS : Res::UNOBSERVABLE), std::string("degenerate-status:") + kAlgo[a] + ":" + how, "%s: status %d for %s", kAlgo[a], static_cast<int>(x.status()), how.c_str());
    vf::count(std::string("refused:") + how);
  }
  vf::evaluated(vf::hashBytes(s.p.data(), 24) + kind, true, how);
}

// Measurements far off the axis must not turn into a false success.
void wide(Rng& r, uint64_t) {
  const size_t n = 2 + r.below(5);
  Scene s = someScene(r, n, 1, 1.5, 0.5, 5);
  const size_t at = r.below(n);
  const double far = std::pow(10, r.uni(1, 9));
  s.norm[at] = V2(far * r.uni(-1, 1), far);
  // The point is where the rays meet, so move that camera: its ray ends in p.
  const V3 d = s.T_G_C(at).getRotation().rotate(V3(s.norm[at][0], s.norm[at][1], 1)).normalized();
  const V3 c = s.p - d * 3;
  s.T_G_B[at] = Transformation(s.T_G_C(at).getEigenQuaternion(), c) * s.T_B_C[0].inverse();
  s.centers.col(at) = c;
  s.rays.col(at) = d;
  vf::detail(vf::fmt("measurement %zu at %g: ", at, far) + s.show());
  for (int a = 0; a < kIterative; ++a) {
    V3 p = V3::Constant(NAN);
    Res x;
    if (!vf::mustReturn(std::string("returns:") + kAlgo[a], "triangulating", [&] { x = run(a, s, &p); })) continue;
    // Exact up to what rounding does to a vector of this length.
    if (x) VF_EXPECT((p - s.p).norm() <= 1e-3 + 1e-9 * far, std::string("wide:") + kAlgo[a], "%s: success with a point %.3g away", kAlgo[a], (p - s.p).norm());
    else vf::count("wide-refused");
  }
  vf::evaluated(vf::hashBytes(s.p.data(), 24), true);
}

void refusals(Rng& r, uint64_t) {
  const size_t n = 2 + r.below(4);
  Scene s = someScene(r, n, 2, 1, 0.5, 5);
  V3 p;
  std::string what;
  vf::Outcome o = vf::kOk;
  switch (r.below(6)) {
    case 0: what = "views:no-output"; o = vf::guarded([&] { run(kSingle, s, nullptr); }); break;
    case 1: what = "rays:no-output"; o = vf::guarded([&] { run(kRays, s, nullptr); }); break;
    case 2: what = "multi:no-output"; o = vf::guarded([&] { run(kMulti, s, nullptr); }); break;
    case 3: what = "views:counts"; s.T_G_B.pop_back(); o = vf::guarded([&] { run(kSingle, s, &p); }); break;
    case 4: what = "multi:index"; s.cam[r.below(n)] = 2 + r.below(3); o = vf::guarded([&] { run(kMulti, s, &p); }); break;
    default: what = "multi:counts"; s.cam.pop_back(); o = vf::guarded([&] { run(kMulti, s, &p); });
  }
  VF_EXPECT(o == vf::kFatal, "refused:" + what, "%s: %s", what.c_str(), vf::outcomeName(o));
  std::ostringstream out;
  const Res u, f(Res::SUCCESSFUL);
  out << u << f << Res(Res::UNOBSERVABLE) << Res(Res::TOO_FEW_MEASUREMENTS);
  const std::string t = out.str();
  VF_EXPECT(!u && u.status() == Res::UNINITIALIZED && f && t.find("UNINITIALIZED") != std::string::npos && t.find("UNOBSERVABLE") != std::string::npos && t.find("TOO_FEW") != std::string::npos && t.find("SUCCESSFUL") != std::string::npos, "result", "a result prints %s", t.c_str());
  vf::evaluated(vf::hashStr(what), true, what);
}

// Feature tracks through real cameras.
void tracks(Rng& r, uint64_t) {
  const size_t n = 2 + r.below(6), cams = 1 + r.below(3);
  TransformationVector T_C_B;
  std::vector<Camera::Ptr> list;
  std::vector<Cam> geo;
  for (size_t i = 0; i < cams; ++i) {
    geo.push_back(someCam(r, r.chance(0.5) ? kPin : kUni));
    list.push_back(geo.back().cam);
    T_C_B.emplace_back(someRot(r, M_PI), V3(someDir(r) * r.uni(0, 0.5)));
  }
  NCameraId id; generateId(&id);
  NCamera::Ptr rig(new NCamera(id, T_C_B, list, "rig"));
  const double depth = r.uni(2, 20);
  const V3 p = someDir(r) * r.uni(0, 10);
  const bool mixed = r.chance(0.5);
  const size_t only = r.below(cams);
  FeatureTrack track(7);
  TransformationVector T_W_B;
  Scene s;
  s.p = p;
  for (size_t tries = 0; s.cam.size() < n && tries < 200; ++tries) {
    const size_t c = mixed ? r.below(cams) : only;
    V3 ray; V2 kp, back;
    if (!someView(r, geo[c], &ray, &kp) || ray[2] < 0.3) continue;
    // Not where the inversion of the lens is inaccurate.
    V3 got;
    if (!geo[c].cam->backProject3(kp, &got) || (got.normalized() - ray).norm() > 1e-7) continue;
    const Eigen::Quaterniond q = someRot(r, M_PI);
    const V3 center = p - q * ray * depth * r.uni(0.6, 1.6);
    const Transformation T_W_C(q, center);
    T_W_B.push_back(T_W_C * T_C_B[c]);
    s.cam.push_back(c);
    s.rays.conservativeResize(3, s.cam.size());
    s.rays.col(s.cam.size() - 1) = q * ray;
    s.norm.push_back(V2());
    std::shared_ptr<VisualNFrame> set(new VisualNFrame(rig));
    VisualFrame::Ptr f(new VisualFrame);
    FrameId fid; generateId(&fid); f->setId(fid);
    f->setCameraGeometry(rig->getCameraShared(c));
    const size_t k = r.below(4), all = k + 1 + r.below(3);
    Eigen::Matrix2Xd m = Eigen::Matrix2Xd::Random(2, all) * 100;
    m.col(k) = kp;
    f->setKeypointMeasurements(m);
    set->setFrame(c, f);
    track.addKeypointObservationAtBack(set, c, k);
  }
  const double par = s.cam.size() < 2 ? 0 : parallax(s);
  vf::detail(vf::fmt("track of %zu observations, %zu cameras%s, depth %g, parallax %g", s.cam.size(), cams, mixed ? " mixed" : "", depth, par));
  if (par < 0.15) { vf::evaluated(0, false); return; }
  bool several = false;
  for (size_t c : s.cam) several |= c != s.cam[0];
  for (int fast = 0; fast < 2; ++fast) {
    const char* name = fast ? "fast" : "normal";
    V3 q = V3::Constant(NAN);
    Res x;
    if (!vf::mustReturn(std::string("track-returns:") + name, "triangulating a track", [&] { x = fast ? fastTriangulateFeatureTrack(track, T_W_B, &q) : triangulateFeatureTrack(track, T_W_B, &q); })) continue;
    if (!VF_EXPECT(static_cast<bool>(x), std::string("track-succeeds:") + name, "%s: status %d", name, static_cast<int>(x.status()))) continue;
    VF_EXPECT((q - p).norm() <= 1e-5 * (depth + p.norm()) / (par * par), std::string(several ? "track-cameras:" : "track:") + name, "%s: found (%.9g %.9g %.9g) instead of (%.9g %.9g %.9g)", name, q[0], q[1], q[2], p[0], p[1], p[2]);
    vf::count(std::string("tracks:") + name);
  }
  if (r.chance(0.05)) {
    V3 q;
    TransformationVector few = T_W_B;
    few.pop_back();
    VF_EXPECT(vf::guarded([&] { triangulateFeatureTrack(track, few, &q); }) == vf::kFatal, "track-refused", "fewer poses than observations");
    VF_EXPECT(vf::guarded([&] { fastTriangulateFeatureTrack(track, few, &q); }) == vf::kFatal, "track-refused", "fewer poses than observations");
  }
  vf::evaluated(vf::hashBytes(p.data(), 24), true);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("exact", vf::scale(6000, 300000), exact);
  vf::part("noisy", vf::scale(4000, 200000), noisy);
  vf::part("degenerate", vf::scale(3000, 150000), degenerate);
  vf::part("wide", vf::scale(2000, 100000), wide);
  vf::part("refusals", vf::scale(60, 1000), refusals);
  vf::part("tracks", vf::scale(2000, 80000), tracks);
  return vf::finish();
}
