// C31: projection and back-projection.   C32: verdicts and visibility.
// C33: YAML, clones and rigs.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <limits>
#include "camera_ref.h"
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/cameras/random-camera-generator.h>

namespace {
typedef Eigen::Vector4d V4;
typedef ProjectionResult::Status Status;
std::string vec(const V3& p) { return vf::fmt("(%.17g, %.17g, %.17g)", p[0], p[1], p[2]); }
uint64_t hashCam(const Cam& c, uint64_t h = 5) {
  h = vf::hashBytes(c.intr.data(), c.intr.size() * 8, h + c.lens * 16 + c.m);
  return vf::hashBytes(c.k.data(), c.k.size() * 8, h + c.w * 4096 + c.h);
}

// ---- C31 -------------------------------------------------------------------
void roundTrip(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  const std::string key = kLens[c.lens];
  const double f = focal(c);
  for (int i = 0; i < 12; ++i) {
    V3 ray; V2 kp, q(0, 0);
    if (!someView(r, c, &ray, &kp, &q)) continue;
    const double dist = std::pow(10.0, r.uni(-1, 4)), n = q.norm();
    const V3 p = ray * dist;
    vf::detail(c.show() + " point " + vec(p));
    V2 got(-7, -7), got4(-7, -7), gotF(-7, -7);
    ProjectionResult res, res4, resF;
    V4 p4;
    const double w4 = r.chance(0.3) ? 0.0 : r.chance(0.4) ? std::pow(10.0, r.uni(-12, 3)) : r.uni(0.01, 3);
    p4 << p, w4;
    const bool neg = r.chance(0.5);
    if (neg) p4 = -p4;
    if (neg && w4 == 0) p4 = -p4;
    if (w4 == 0 && r.chance(0.5)) p4[3] = -0.0;  // the same number
    if (!vf::mustReturn(key + ":project", "projecting", [&] {
          res = c.cam->project3(p, &got);
          res4 = c.cam->project4(p4, &got4);
          resF = c.cam->project3Functional(p, nullptr, nullptr, &gotF);
        })) return;
    const double fish = c.m == kFish && n * n < 1.0001e-5 ? 2e-5 * n : 0;
    const double tol = f * (fish + 1e-11 * (1 + n)) + 1e-9;
    VF_EXPECT((got - kp).norm() <= tol, key + ":project", "projects to (%.17g, %.17g) instead of (%.17g, %.17g)", got[0], got[1], kp[0], kp[1]);
    VF_EXPECT(got4 == got && gotF == got && res4 == res && resF == res, key + ":homogeneous", "project4 of (%g %g %g %g) gives (%.17g, %.17g), project3 (%.17g, %.17g)", p4[0], p4[1], p4[2], p4[3], got4[0], got4[1], got[0], got[1]);
    if (dist > 0.011 && (inBox(c, kp + V2(tol, tol)) && inBox(c, kp - V2(tol, tol)))) {
      if (c.lens != kPin || p[2] > 1e-9) VF_EXPECT(res.isKeypointVisible() && static_cast<bool>(res), key + ":visible", "a point seen at (%.17g, %.17g) is not reported visible (%d)", kp[0], kp[1], static_cast<int>(res.getDetailedStatus()));
      vf::count("visible points");
    }
    // And back.
    V3 back(-9, -9, -9);
    V4 back4(-9, -9, -9, -9);
    bool ok = false, ok4 = false;
    if (!vf::mustReturn(key + ":back-project", "back-projecting", [&] { ok = c.cam->backProject3(kp, &back); ok4 = c.cam->backProject4(kp, &back4); })) return;
    VF_EXPECT(ok && ok4, key + ":back-success", "the view of a point in the model's domain at (%.17g, %.17g) is not back-projected", kp[0], kp[1]);
    VF_EXPECT((back4.head<3>() == back) && back4[3] == 0, key + ":back-homogeneous", "the homogeneous ray (%g %g %g %g) differs from (%g %g %g)", back4[0], back4[1], back4[2], back4[3], back[0], back[1], back[2]);
    if (c.lens == kPin) VF_EXPECT(back[2] == 1, key + ":plane", "the ray %s is not on the normalized plane", vec(back).c_str());
    // Undistortion ends with a residual of up to 3e-7; near the rim of the
    // unified model small changes of the radius turn the ray further.
    double gain = 4;
    if (c.lens == kUni && c.intr[0] > 1) { const double e = 1 - std::pow(n / uniEdge(c.intr[0]), 2); gain = 4 + 4 / std::sqrt(std::max(e, 1e-3)) * c.intr[0]; }
    const double atol = gain * ((c.m == kNull ? 0 : c.m == kFish ? 1e-9 * (1 + n * n) + 4 * fish : 6e-7) + 1e-12 * (1 + n * n));
    const double sep = (back.normalized() - ray).norm();
    VF_EXPECT(sep <= atol, key + ":inverse", "back-projects to %s instead of %s (off by %g, allowed %g)", vec(back.normalized()).c_str(), vec(ray).c_str(), sep, atol);
    V2 again(-7, -7);
    ProjectionResult resA = c.cam->project3(back * dist, &again);
    VF_EXPECT((again - kp).norm() <= f * (atol + fish) * 3 + tol, key + ":there-and-back", "(%.17g, %.17g) projects back to (%.17g, %.17g)", kp[0], kp[1], again[0], again[1]);
    if (inBox(c, kp + V2(1, 1) * 1e-2) && inBox(c, kp - V2(1, 1) * 1e-2) && c.lens != kUni && dist > 0.011) VF_EXPECT(static_cast<bool>(resA), key + ":there-and-back-visible", "the back-projection of (%.17g, %.17g) is not visible", kp[0], kp[1]);
    if (c.lens == kUni) VF_EXPECT(static_cast<UnifiedProjectionCamera*>(c.cam.get())->isLiftable(kp), key + ":liftable", "(%.17g, %.17g) is in the model's domain but not liftable", kp[0], kp[1]);
    vf::evaluated(vf::hashBytes(p.data(), 24, hashCam(c)), c.m != kNull || c.lens != kPin);
  }
  // Beyond the edge of the unified model nothing is back-projected.
  if (c.lens == kUni && c.intr[0] > 1.05 && c.m == kNull) {
    const double rho = uniEdge(c.intr[0]) * r.uni(1.001, 3), a = r.uni(0, 2 * M_PI);
    const V2 kp(c.intr[1] * rho * std::cos(a) + c.intr[3], c.intr[2] * rho * std::sin(a) + c.intr[4]);
    V3 back;
    const bool ok = c.cam->backProject3(kp, &back), lift = static_cast<UnifiedProjectionCamera*>(c.cam.get())->isLiftable(kp);
    VF_EXPECT(!ok && !lift, key + ":edge", "a point beyond the edge of the model is back-projected");
  }
}

void jacobians(Rng& r, uint64_t) {
  Cam c = someCam(r, static_cast<int>(r.below(2)));
  const std::string key = kLens[c.lens];
  const int o = c.lens == kUni;
  for (int i = 0; i < 6; ++i) {
    V3 ray; V2 kp, q;
    if (!someView(r, c, &ray, &kp, &q)) continue;
    const double n = q.norm();
    if (n > 0 && n < 0.02) continue;          // small radii are those of C21
    if (n == 0 && (c.m == kEqui || c.m == kFish)) continue;
    const double dist = std::pow(10.0, r.uni(-1, 3));
    const V3 p = ray * dist;
    // Sometimes with parameters from outside.
    const bool ext = r.chance(0.4);
    VX intr = c.intr, k = c.k;
    if (ext) {
      for (int j = 0; j < intr.size(); ++j) intr[j] *= r.uni(0.97, 1.03);
      for (int j = 0; j < k.size(); ++j) k[j] *= r.uni(0.97, 1.03);
      if (c.m == kFish && k[0] != 0) k[0] = std::min(1.5, std::max(0.5, k[0]));
    }
    vf::detail(c.show() + " point " + vec(p) + (ext ? " external (" + ::show(intr) + ") (" + ::show(k) + ")" : ""));
    V2 a(0, 0), b(0, 0), d(0, 0), e4(0, 0);
    M23 J, J2; M2X I, D;
    J.setConstant(77); J2.setConstant(77);
    Eigen::Matrix<double, 2, 4> J4;
    J4.setConstant(77);
    const bool w_neg = r.chance(0.5);
    V4 p4; p4 << p, (r.chance(0.4) ? std::pow(10.0, r.uni(-12, 3)) : r.uni(0.1, 2));
    if (w_neg) p4 = -p4;
    if (!w_neg && r.chance(0.1)) p4[3] = r.chance(0.5) ? 0.0 : -0.0;
    ProjectionResult ra, rb;
    // Every combination of requests gives the same numbers.
    M23 Jonly; M2X Ionly, Donly;
    if (!vf::mustReturn(key + ":jacobian", "projecting with derivatives", [&] {
          ra = c.cam->project3Functional(p, ext ? &intr : nullptr, ext ? &k : nullptr, &a, &J, &I, &D);
          c.cam->project3Functional(p, ext ? &intr : nullptr, ext ? &k : nullptr, &b, &Jonly, nullptr, nullptr);
          c.cam->project3Functional(p, ext ? &intr : nullptr, ext ? &k : nullptr, &b, nullptr, &Ionly, nullptr);
          c.cam->project3Functional(p, ext ? &intr : nullptr, ext ? &k : nullptr, &b, nullptr, nullptr, &Donly);
          rb = c.cam->project3Functional(p, ext ? &intr : nullptr, ext ? &k : nullptr, &b);
          c.cam->project3(p, &d, &J2);
          c.cam->project4(p4, &e4, &J4);
        })) return;
    VF_EXPECT(a == b && ra == rb, key + ":jacobian-point", "asking for derivatives changes the projection from (%.17g, %.17g) to (%.17g, %.17g)", b[0], b[1], a[0], a[1]);
    VF_EXPECT(J == Jonly && I == Ionly && D == Donly, key + ":jacobian-requests", "a derivative depends on which others are asked for");
    VF_EXPECT(e4 == d, key + ":jacobian-homogeneous-point", "homogeneous projection (%.17g, %.17g) differs from (%.17g, %.17g)", e4[0], e4[1], d[0], d[1]);
    const int np = static_cast<int>(k.size());
    if (!VF_EXPECT(I.cols() == intr.size() && (np == 0 || D.cols() == np), key + ":jacobian-size", "derivatives have %d and %d columns", static_cast<int>(I.cols()), static_cast<int>(D.cols()))) continue;
    ld u1, v1, u2, v2;
    const double f = focal(c);
    const double floor = f * 1e-9;
    auto close = [&](double g, ld w, double scale, double unit) { return std::abs(static_cast<double>(g - w)) <= 2e-6 * (std::abs(static_cast<double>(w)) + scale) + floor * unit; };
    M23 Jref;
    for (int j = 0; j < 3; ++j) {
      const ld h = 1e-7L * dist;
      ld x[3] = {p[0], p[1], p[2]}, y[3] = {p[0], p[1], p[2]};
      x[j] += h; y[j] -= h;
      if (!refProject(c, intr, k, x[0], x[1], x[2], &u1, &v1) || !refProject(c, intr, k, y[0], y[1], y[2], &u2, &v2)) { Jref.setConstant(std::nan("")); break; }
      Jref(0, j) = static_cast<double>((u1 - u2) / (2 * h));
      Jref(1, j) = static_cast<double>((v1 - v2) / (2 * h));
    }
    if (!Jref.allFinite()) continue;
    const double js = Jref.cwiseAbs().maxCoeff();
    for (int j = 0; j < 3; ++j)
      for (int s = 0; s < 2; ++s) {
        VF_EXPECT(close(J(s, j), Jref(s, j), js, 1 / dist), key + ":jacobian-3d", "d%s/d%s is %.12g, the projection says %.12g", s ? "v" : "u", j == 0 ? "x" : j == 1 ? "y" : "z", J(s, j), Jref(s, j));
        if (!ext) {
          VF_EXPECT(J2(s, j) == J(s, j), key + ":jacobian-forms", "project3 and project3Functional disagree on a derivative");
          const double want4 = w_neg ? -J(s, j) : J(s, j);
          VF_EXPECT(J4(s, j) == want4, key + ":jacobian-4d", "the derivative %d,%d of a homogeneous point with w = %g is %.12g instead of %.12g", s, j, p4[3], J4(s, j), want4);
        }
      }
    VF_EXPECT(J4(0, 3) == 0 && J4(1, 3) == 0, key + ":jacobian-4d-w", "the derivative by w is (%g, %g)", J4(0, 3), J4(1, 3));
    for (int j = 0; j < intr.size(); ++j) {
      VX ip = intr, im = intr;
      // One-sided at xi = 0 would leave the model; the formula extends.
      const double h = 1e-6 * std::max(1.0, std::abs(intr[j]));
      ip[j] += h; im[j] -= h;
      Cam cc = c;
      if (!refProject(cc, ip, k, p[0], p[1], p[2], &u1, &v1) || !refProject(cc, im, k, p[0], p[1], p[2], &u2, &v2)) continue;
      const ld hh = static_cast<ld>(ip[j]) - static_cast<ld>(im[j]);
      VF_EXPECT(close(I(0, j), (u1 - u2) / hh, 1e-3, 1) && close(I(1, j), (v1 - v2) / hh, 1e-3, 1), key + ":jacobian-intrinsics", "derivative by intrinsic %d is (%.12g, %.12g), the projection says (%.12g, %.12g)", j, I(0, j), I(1, j), static_cast<double>((u1 - u2) / hh), static_cast<double>((v1 - v2) / hh));
    }
    for (int j = 0; j < np; ++j) {
      VX kp1 = k, km1 = k;
      // The parameter of the fisheye model may be zero, where it has no slope.
      if (c.m == kFish && std::abs(k[0]) < 1e-3) continue;
      kp1[j] += 1e-5; km1[j] -= 1e-5;
      if (!refProject(c, intr, kp1, p[0], p[1], p[2], &u1, &v1) || !refProject(c, intr, km1, p[0], p[1], p[2], &u2, &v2)) continue;
      const ld hh = static_cast<ld>(kp1[j]) - static_cast<ld>(km1[j]);
      const double w0 = static_cast<double>((u1 - u2) / hh), w1 = static_cast<double>((v1 - v2) / hh);
      const double t = 1e-5 * (std::abs(w0) + std::abs(w1)) + 1e-6 * f;
      VF_EXPECT(std::abs(D(0, j) - w0) <= t && std::abs(D(1, j) - w1) <= t, key + ":jacobian-distortion", "derivative by distortion %d is (%.12g, %.12g), the projection says (%.12g, %.12g)", j, D(0, j), D(1, j), w0, w1);
    }
    // A camera that has those parameters says the same.
    if (ext) {
      const Cam c2 = buildCam(c.lens, c.m, k, intr, c.w, c.h);
      V2 g(0, 0);
      const ProjectionResult rg = c2.cam->project3(p, &g);
      VF_EXPECT(g == a && rg == ra, key + ":external", "external parameters give (%.17g, %.17g), a camera with those parameters (%.17g, %.17g)", a[0], a[1], g[0], g[1]);
    }
    vf::evaluated(vf::hashBytes(p.data(), 24, hashCam(c)), true);
  }
  (void)o;
}

void externalLidar(Rng& r, uint64_t) {
  const Cam c = someCam(r, kLid), c2 = someCam(r, kLid);
  for (int i = 0; i < 4; ++i) {
    V3 p(r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5));
    vf::detail(c.show() + " with (" + ::show(c2.intr) + ") point " + vec(p));
    V2 a(0, 0), b(0, 0);
    if (!vf::mustReturn("lidar:external", "projecting with external intrinsics", [&] { c.cam->project3Functional(p, &c2.intr, nullptr, &a); })) return;
    ld u, v;
    if (!refProject(c, c2.intr, VX(), p[0], p[1], p[2], &u, &v)) continue;
    const ld n = 2 * M_PI / c2.intr[Camera3DLidar::kHorizontalResolutionRad];
    ld du = std::abs(u - a[0]);
    du = std::min(du, std::abs(du - n));  // either end of the circle
    VF_EXPECT(static_cast<double>(du) < 1e-8 * focal(c2) + 1e-9 && std::abs(static_cast<double>(v - a[1])) < 1e-8 * focal(c2) + 1e-9, "lidar:external", "with external intrinsics projects to (%.12g, %.12g) instead of (%.12Lg, %.12Lg)", a[0], a[1], u, v);
    vf::evaluated(vf::hashBytes(p.data(), 24, hashCam(c, hashCam(c2))), true);
  }
}

// Points close to the edge of the unified model, on both sides of it.
void rim(Rng& r, uint64_t) {
  Cam c = someCam(r, kUni);
  c.intr[0] = 1 + (r.chance(0.5) ? std::pow(10.0, r.uni(-4, -0.5)) : r.uni(0.05, 2));
  c = buildCam(kUni, c.m, c.k, c.intr, c.w, c.h);
  const double edge = uniEdge(c.intr[0]), work = workingRadius(c.m, c.k);
  for (int i = 0; i < 10; ++i) {
    const double eps = std::pow(10.0, c.m == kNull ? r.uni(-7, -0.1) : r.uni(-4, -0.1));
    const bool inside = r.chance(0.5);
    const double rho = edge * (inside ? 1 - eps : 1 + eps), a = r.uni(0, 2 * M_PI);
    const V2 q(rho * std::cos(a), rho * std::sin(a));
    if (rho > 0.95 * work) continue;
    ld dx, dy;
    formula(c.m, c.k, q[0], q[1], &dx, &dy);
    if (c.m == kRad && std::hypot(static_cast<double>(dx), static_cast<double>(dy)) > work) continue;
    const V2 kp(static_cast<double>(c.intr[1] * dx + c.intr[3]), static_cast<double>(c.intr[2] * dy + c.intr[4]));
    vf::detail(c.show() + vf::fmt(" keypoint (%.17g, %.17g) of radius %.17g, edge %.17g", kp[0], kp[1], rho, edge));
    V3 back(-9, -9, -9);
    bool ok = false, lift = false;
    if (!vf::mustReturn("unified:rim", "back-projecting", [&] { ok = c.cam->backProject3(kp, &back); lift = static_cast<UnifiedProjectionCamera*>(c.cam.get())->isLiftable(kp); })) return;
    // An undistorted radius is only found up to a millionth.
    if (eps * edge < (c.m == kNull ? 1e-10 : 1e-5)) continue;
    VF_EXPECT(ok == inside && lift == inside, "unified:rim-verdict", "a point %s the edge of the model is%s back-projected and%s liftable", inside ? "inside" : "beyond", ok ? "" : " not", lift ? "" : " not");
    if (inside) {
      const V3 ray = refRay(c, q).normalized();
      const double e = 1 - (rho / edge) * (rho / edge);
      // How fast the ray turns with the radius.
      const double gain = 4 * (1 + c.intr[0] * c.intr[0]) / std::sqrt(e);
      const double fish = c.m == kFish && rho * rho < 1.0001e-5 ? 2e-5 * rho : 0;
      const double rerr = (c.m == kNull ? 0 : c.m == kFish ? 1e-9 + 4 * fish : 1e-6) + 1e-12 * (1 + c.w / c.intr[1] + c.h / c.intr[2]);
      if (rerr < 0.05 * eps * edge) VF_EXPECT((back.normalized() - ray).norm() <= gain * rerr, "unified:rim-ray", "back-projects to %s instead of %s (off by %g, allowed %g)", vec(back.normalized()).c_str(), vec(ray).c_str(), (back.normalized() - ray).norm(), gain * rerr);
      vf::count("inside the edge");
    } else {
      vf::count("beyond the edge");
    }
    vf::evaluated(vf::hashBytes(kp.data(), 16, hashCam(c)), true);
  }
}

// Parameters from outside do what the same parameters inside do.
void external(Rng& r, uint64_t) {
  const Cam c = someCam(r, static_cast<int>(r.below(2)));
  Cam other = someCam(r, c.lens);
  // The same lens and distortion model with quite different parameters.
  const VX k = c.k.size() ? someParams(r, c.m) : c.k;
  const Cam d = buildCam(c.lens, c.m, k, other.intr, c.w, c.h);
  const std::string key = kLens[c.lens];
  for (int i = 0; i < 10; ++i) {
    V3 p = V3(r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3));
    V2 t;
    if (r.chance(0.5)) { if (!someView(r, r.chance(0.5) ? d : c, &p, &t)) continue; p *= std::pow(10.0, r.uni(-1, 3)); }
    vf::detail(c.show() + " with external " + d.show() + " point " + vec(p));
    const bool with_i = r.chance(0.8), with_k = r.chance(0.8);
    const Cam want_cam = buildCam(c.lens, c.m, with_k ? k : c.k, with_i ? d.intr : c.intr, c.w, c.h);
    V2 a(-3, -3), b(-3, -3), e(-3, -3);
    M23 Ja, Jb; M2X Ia, Ib, Da, Db;
    ProjectionResult ra, rb, rc;
    if (!vf::mustReturn(key + ":external", "projecting with parameters from outside", [&] {
          ra = c.cam->project3Functional(p, with_i ? &d.intr : nullptr, with_k ? &k : nullptr, &a, &Ja, &Ia, &Da);
          rc = c.cam->project3Functional(p, with_i ? &d.intr : nullptr, with_k ? &k : nullptr, &e);
          rb = want_cam.cam->project3Functional(p, nullptr, nullptr, &b, &Jb, &Ib, &Db);
        })) return;
    auto same = [](double x, double y) { return x == y || std::abs(x - y) <= 1e-12 * (std::abs(x) + std::abs(y)) || (std::isnan(x) && std::isnan(y)); };
    VF_EXPECT(same(a[0], b[0]) && same(a[1], b[1]) && same(e[0], b[0]) && same(e[1], b[1]) && ra == rb && rc == rb, key + ":external-point", "parameters from outside project to (%.17g, %.17g) and report %d, the same ones inside (%.17g, %.17g) and %d", a[0], a[1], static_cast<int>(ra.getDetailedStatus()), b[0], b[1], static_cast<int>(rb.getDetailedStatus()));
    auto sameM = [&](const Eigen::MatrixXd& x, const Eigen::MatrixXd& y) {
      if (x.rows() != y.rows() || x.cols() != y.cols()) return false;
      for (int j = 0; j < x.cols(); ++j) for (int l = 0; l < 2; ++l) if (!same(x(l, j), y(l, j))) return false;
      return true;
    };
    VF_EXPECT(sameM(Ja, Jb) && sameM(Ia, Ib) && sameM(Da, Db), key + ":external-derivatives", "parameters from outside give other derivatives than the same ones inside");
    vf::evaluated(vf::hashBytes(p.data(), 24, hashCam(d)), with_i || with_k);
  }
}

void vectorised(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  const std::string key = kLens[c.lens];
  const int n = static_cast<int>(r.below(30));
  Eigen::Matrix3Xd P(3, n);
  Eigen::Matrix2Xd K(2, n);
  for (int i = 0; i < n; ++i) {
    V3 ray = V3::Random(); V2 kp(r.uni(-0.2, 1.2) * c.w, r.uni(-0.2, 1.2) * c.h), t;
    if (r.chance(0.6)) someView(r, c, &ray, &t);
    if (r.chance(0.1)) ray = -ray;
    if (r.chance(0.05)) ray.setZero();
    P.col(i) = ray * std::pow(10.0, r.uni(-3, 3));
    K.col(i) = kp;
  }
  vf::detail(c.show() + vf::fmt(" %d points", n));
  // Outputs that are used already.
  Eigen::Matrix2Xd outK = Eigen::Matrix2Xd::Constant(2, r.below(40), 3);
  Eigen::Matrix3Xd outP = Eigen::Matrix3Xd::Constant(3, r.below(40), 3);
  std::vector<ProjectionResult> res(r.below(40), ProjectionResult(Status::KEYPOINT_VISIBLE));
  std::vector<unsigned char> suc(r.below(40), 1);
  if (!vf::mustReturn(key + ":vectorised", "vectorised projection", [&] {
        c.cam->project3Vectorized(P, &outK, &res);
        c.cam->backProject3Vectorized(K, &outP, &suc);
      })) return;
  if (!VF_EXPECT(outK.cols() == n && outP.cols() == n && static_cast<int>(res.size()) == n && static_cast<int>(suc.size()) == n, key + ":vectorised-size", "%d points give %d keypoints, %zu results, %d rays and %zu flags", n, static_cast<int>(outK.cols()), res.size(), static_cast<int>(outP.cols()), suc.size())) return;
  int vis = 0;
  for (int i = 0; i < n; ++i) {
    V2 k(1, 1); V3 p(1, 1, 1);
    const ProjectionResult s = c.cam->project3(P.col(i), &k);
    const bool b = c.cam->backProject3(K.col(i), &p);
    auto same = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
    VF_EXPECT(same(k[0], outK(0, i)) && same(k[1], outK(1, i)) && s == res[i], key + ":vectorised-project", "point %d of %d projects to (%g, %g) alone and (%g, %g) in the list", i, n, k[0], k[1], outK(0, i), outK(1, i));
    VF_EXPECT(same(p[0], outP(0, i)) && same(p[1], outP(1, i)) && same(p[2], outP(2, i)) && b == (suc[i] != 0), key + ":vectorised-back", "keypoint %d of %d back-projects differently in the list", i, n);
    vis += static_cast<bool>(s);
  }
  vf::count("visible in lists", vis);
  vf::evaluated(vf::hashBytes(P.data(), 24 * n, hashCam(c)), vis > 0);
}

void makers(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  const std::string key = kLens[c.lens];
  // The whole image has to be inside the working range of the distortion.
  bool whole = c.m == kNull && (c.lens != kUni || c.intr[0] <= 1);
  const int o = c.lens == kUni;
  if (c.lens != kLid) {
    const bool centred = c.intr[o + 2] < 0.9 * c.w && c.intr[o + 3] < 0.9 * c.h;
    if (!centred) return;
  }
  vf::detail(c.show());
  for (int i = 0; i < 4; ++i) {
    V2 k(-1, -1);
    if (!vf::mustReturn(key + ":random-keypoint", "drawing a keypoint", [&] { k = c.cam->createRandomKeypoint(); })) return;
    VF_EXPECT(c.cam->isKeypointVisible(k) && inBox(c, k), key + ":random-keypoint", "the random keypoint (%g, %g) is outside the image", k[0], k[1]);
    if (!whole && c.lens != kLid) continue;
    const double depth = r.uni(0.05, 50);
    V3 p;
    if (!vf::mustReturn(key + ":random-point", "drawing a visible point", [&] { p = c.cam->createRandomVisiblePoint(depth); })) return;
    V2 t;
    VF_EXPECT(std::abs(p.norm() - depth) < 1e-9 * depth, key + ":random-point-depth", "a random point asked for at %g is at %g", depth, p.norm());
    VF_EXPECT(static_cast<bool>(c.cam->project3(p, &t)), key + ":random-point", "the random visible point %s is not visible", vec(p).c_str());
    vf::evaluated(vf::hashBytes(p.data(), 24, 3), true);
  }
  if (whole || c.lens == kLid) {
    if (c.lens == kUni) return;
    Eigen::MatrixXd rays;
    if (c.lens == kPin) static_cast<PinholeCamera*>(c.cam.get())->getBorderRays(rays); else static_cast<Camera3DLidar*>(c.cam.get())->getBorderRays(rays);
    const double W = c.w, H = c.h;
    const double at[8][2] = {{0, 0}, {0, H / 2}, {0, H - 1}, {W - 1, 0}, {W - 1, H / 2}, {W - 1, H - 1}, {W / 2, 0}, {W / 2, H - 1}};
    if (!VF_EXPECT(rays.rows() == 4 && rays.cols() == 8, key + ":border-size", "border rays are %dx%d", static_cast<int>(rays.rows()), static_cast<int>(rays.cols()))) return;
    for (int i = 0; i < 8; ++i) {
      V2 t(-5, -5);
      c.cam->project4(V4(rays.col(i)), &t);
      const double n = c.lens == kLid ? 2 * M_PI / c.intr[Camera3DLidar::kHorizontalResolutionRad] : 0;
      double du = std::abs(t[0] - at[i][0]);
      if (n) du = std::min(du, std::abs(n - du));
      VF_EXPECT(du < 1e-6 * (1 + W) && std::abs(t[1] - at[i][1]) < 1e-6 * (1 + H), key + ":border", "border ray %d projects to (%g, %g) instead of (%g, %g)", i, t[0], t[1], at[i][0], at[i][1]);
    }
  }
}

void templated(Rng& r, uint64_t) {
  const int m = r.chance(0.6) ? kFish : kNull;
  const VX k = someParams(r, m);
  Cam c = someCam(r, kPin);
  c = buildCam(kPin, m, k, c.intr, c.w, c.h);
  const PinholeCamera& pin = static_cast<const PinholeCamera&>(*c.cam);
  for (int i = 0; i < 5; ++i) {
    V3 ray; V2 kp;
    if (!someView(r, c, &ray, &kp)) continue;
    const V3 p = ray * r.uni(0.1, 100) * (r.chance(0.2) ? -1 : 1);
    vf::detail(c.show() + " point " + vec(p));
    V2 a(0, 0);
    Eigen::Matrix<double, 2, 1> b(0, 0);
    ProjectionResult ra = pin.project3(p, &a), rb;
    vf::mustReturn("pinhole:template", "templated projection", [&] {
      if (m == kFish) rb = pin.project3Functional<double, FisheyeDistortion>(p, c.intr, c.k, &b);
      else rb = pin.project3Functional<double, NullDistortion>(p, c.intr, c.k, &b);
    });
    VF_EXPECT((a - b).norm() <= 1e-12 * (focal(c) + a.norm()) && ra == rb, "pinhole:template", "the templated projection gives (%.17g, %.17g) instead of (%.17g, %.17g)", b[0], b[1], a[0], a[1]);
    vf::evaluated(vf::hashBytes(p.data(), 24, hashCam(c)), true);
  }
}

// ---- C32 -------------------------------------------------------------------
void verdicts(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  const std::string key = kLens[c.lens];
  const double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
  for (int i = 0; i < 16; ++i) {
    V3 p; V2 t;
    switch (r.below(8)) {
      case 0: p = V3(r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)); break;
      case 1: { static const double z[] = {0, -0.0, 1e-10, 1.1e-10, 0.9e-10, -1e-10, 1e-300, -1e-300, 1e-20, 1e-5}; p = V3(r.uni(-1, 1) * 1e-10, r.uni(-1, 1) * 1e-10, z[r.below(10)]); break; }
      case 2: { static const double z[] = {1e300, -1e300, 1e-200, 1e-11, 5e-5, 0.0099, 0.0101}; p = V3::Random().normalized() * std::abs(z[r.below(7)]); break; }
      case 3: { double v[] = {0, 1, -1, inf, -inf, nan, 1e308}; p = V3(v[r.below(7)], v[r.below(7)], v[r.below(7)]); break; }
      case 4: if (!someView(r, c, &p, &t)) continue; p *= -r.uni(0.1, 10); break;
      case 5: {  // just inside and outside the border
        if (c.lens == kLid || c.m != kNull) continue;
        const int o = c.lens == kUni;
        V2 kp(r.uni(0, c.w), r.uni(0, c.h));
        const double e = r.chance(0.5) ? 1e-6 : -1e-6;
        switch (r.below(4)) { case 0: kp[0] = e; break; case 1: kp[1] = e; break; case 2: kp[0] = c.w + e; break; default: kp[1] = c.h + e; break; }
        const V2 q((kp[0] - c.intr[o + 2]) / c.intr[o], (kp[1] - c.intr[o + 3]) / c.intr[o + 1]);
        if (q.norm() > c.rmax) continue;
        p = refRay(c, q) * r.uni(0.5, 20);
        break;
      }
      default: if (!someView(r, c, &p, &t)) continue; p *= std::pow(10.0, r.uni(-1, 3)); break;
    }
    vf::detail(c.show() + " point " + vec(p));
    V2 k(-3, -3), k4(-3, -3);
    M23 J; J.setConstant(123);
    ProjectionResult s, sj, s4;
    bool able3 = false, able4 = false;
    if (!vf::mustReturn(key + ":verdict", "projecting", [&] {
          s = c.cam->project3(p, &k);
          V4 q; q << p, (r.chance(0.3) ? 0.0 : std::pow(10.0, r.uni(-9, 3)));
          if (q[3] > 0 && r.chance(0.5)) q = -q;
          if (q[3] == 0 && r.chance(0.5)) q[3] = -0.0;
          s4 = c.cam->project4(q, &k4);
          able3 = c.cam->isProjectable3(p);
          able4 = c.cam->isProjectable4(q);
          if (c.lens != kLid) { V2 kj; sj = c.cam->project3(p, &kj, &J); } else { sj = s; }
        })) return;
    VF_EXPECT(s == s4 && s == sj, key + ":verdict-forms", "projections of one point report %d, %d and %d", static_cast<int>(s.getDetailedStatus()), static_cast<int>(s4.getDetailedStatus()), static_cast<int>(sj.getDetailedStatus()));
    VF_EXPECT(able3 == static_cast<bool>(s) && able4 == able3, key + ":projectable-forms", "a point reported %d is %sprojectable and %sprojectable as homogeneous point", static_cast<int>(s.getDetailedStatus()), able3 ? "" : "not ", able4 ? "" : "not ");
    const bool box = inBox(c, k);
    Status want;
    bool sure = true;
    if (c.lens == kPin) {
      want = p[2] > 1e-10 ? (box ? Status::KEYPOINT_VISIBLE : Status::KEYPOINT_OUTSIDE_IMAGE_BOX) : p[2] < 0 ? Status::POINT_BEHIND_CAMERA : Status::PROJECTION_INVALID;
      sure = std::abs(p[2] - 1e-10) > 1e-24;
    } else if (c.lens == kUni) {
      const double xi = c.intr[0], d = p.norm(), e = p[2] + (xi <= 1 ? xi : 1 / xi) * d;
      want = !(e > 0) || !(p.squaredNorm() > 1e-20) ? Status::PROJECTION_INVALID : box ? Status::KEYPOINT_VISIBLE : Status::KEYPOINT_OUTSIDE_IMAGE_BOX;
      sure = std::abs(e) > 1e-12 * d || d == 0;
      if (!(std::abs(d) < 1e150)) sure = false;
    } else {
      // No point closer than a centimetre.
      want = !(p.squaredNorm() > 1e-4) ? Status::PROJECTION_INVALID : box ? Status::KEYPOINT_VISIBLE : Status::KEYPOINT_OUTSIDE_IMAGE_BOX;
      sure = std::abs(p.squaredNorm() - 1e-4) > 1e-12 && p.norm() < 1e150;
    }
    if (sure) VF_EXPECT(s.getDetailedStatus() == want, key + ":verdict", "keypoint (%.17g, %.17g) of %ux%u is reported %d instead of %d", k[0], k[1], c.w, c.h, static_cast<int>(s.getDetailedStatus()), static_cast<int>(want));
    if (!p.allFinite()) VF_EXPECT(!box || std::isinf(p[2]) || c.lens != kPin || std::isinf(p[0]) || std::isinf(p[1]) || !s, key + ":nan", "a point that is not a number is reported visible");
    VF_EXPECT(static_cast<bool>(s) == s.isKeypointVisible() && s.isKeypointVisible() == (s.getDetailedStatus() == Status::KEYPOINT_VISIBLE) && (s == s.getDetailedStatus()), key + ":result-forms", "the forms of a result disagree");
    if (s) VF_EXPECT(box && c.cam->isKeypointVisible(k) && !c.cam->isMasked(k), key + ":visible-outside", "visible at (%.17g, %.17g) outside %ux%u", k[0], k[1], c.w, c.h);
    // The geometry says the same, away from the border.
    ld u, v;
    if (p.allFinite() && p.norm() > 0.02 && p.norm() < 1e100) {
      const bool def = refProject(c, c.intr, c.k, p[0], p[1], p[2], &u, &v) && !(c.lens == kPin && p[2] <= 1e-9);
      const double m = 1e-6 * (1 + focal(c));
      const bool rim = c.lens == kUni && std::abs(p[2] + (c.intr[0] <= 1 ? c.intr[0] : 1 / c.intr[0]) * p.norm()) < 1e-9 * p.norm();
      if ((c.lens == kPin && std::abs(p[2]) < 1e-8) || rim) {
      } else if (def && u > m && v > m && u < c.w - m && v < c.h - m) {
        VF_EXPECT(static_cast<bool>(s), key + ":geometry", "seen at (%.9Lg, %.9Lg) but reported %d", u, v, static_cast<int>(s.getDetailedStatus()));
        VF_EXPECT(c.cam->isProjectable3(p), key + ":projectable", "a visible point is not projectable");
        vf::count("visible");
      } else if (!def || u < -m || v < -m || u > c.w + m || v > c.h + m) {
        VF_EXPECT(!s, key + ":geometry-outside", "reported visible at (%.9g, %.9g) although it %s", k[0], k[1], def ? vf::fmt("lands at (%.9Lg, %.9Lg)", u, v).c_str() : "is outside the model");
        if (!def) VF_EXPECT(!c.cam->isProjectable3(p), key + ":projectable", "a point outside the model is projectable");
        vf::count("not visible");
      }
    }
    if (c.lens == kUni && s.getDetailedStatus() == Status::PROJECTION_INVALID && p.allFinite() && p.norm() > 1e-9) VF_EXPECT(J.isZero(0), key + ":jacobian-invalid", "an invalid projection leaves the derivative undefined");
    vf::evaluated(vf::hashBytes(p.data(), 24, hashCam(c)), true);
  }
}

void masks(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  Camera& cam = *c.cam;
  vf::detail(c.show());
  const double nan = std::nan("");
  VF_EXPECT(!cam.hasMask() && cam.getMask().empty(), "mask:none", "a new camera has a mask");
  cv::Mat mask;
  const int style = static_cast<int>(r.below(4));
  if (style) {
    cv::Mat big(c.h + 4, c.w + 5, CV_8UC1);
    for (int y = 0; y < big.rows; ++y) for (int x = 0; x < big.cols; ++x) big.at<uint8_t>(y, x) = r.chance(0.5) ? 0 : static_cast<uint8_t>(1 + r.below(255));
    mask = style == 1 ? big(cv::Rect(2, 1, c.w, c.h)) : big(cv::Rect(2, 1, c.w, c.h)).clone();
    cam.setMask(mask);
    VF_EXPECT(cam.hasMask() && cam.getMask().size() == mask.size() && cv::countNonZero(cam.getMask() != mask) == 0, "mask:get", "the mask read back differs from the one set");
    if (style == 3) {
      std::unique_ptr<Camera> copy(cam.clone());
      VF_EXPECT(copy->hasMask() && cv::countNonZero(copy->getMask() != mask) == 0, "mask:clone", "a clone lost the mask");
      cam.clearMask();
      VF_EXPECT(copy->hasMask() && !cam.hasMask(), "mask:clone", "clearing the mask of the original cleared that of its clone");
      mask = cv::Mat();
    }
  }
  for (int i = 0; i < 60; ++i) {
    V2 k;
    auto edge = [&](double n) {
      const double e[] = {0, -0.0, -1e-300, -1, n, std::nextafter(n, 0), n - 1, n + 1, -1e30, 1e30, 0.5, nan, -0.5, std::nextafter(0.0, 1)};
      return e[r.below(14)];
    };
    k[0] = r.chance(0.3) ? edge(c.w) : r.uni(-0.1, 1.1) * c.w;
    k[1] = r.chance(0.3) ? edge(c.h) : r.uni(-0.1, 1.1) * c.h;
    vf::detail(c.show() + vf::fmt(" mask %d keypoint (%.17g, %.17g)", style, k[0], k[1]));
    const bool box = inBox(c, k);
    bool masked = !box, vis = false, got = true;
    if (box && !mask.empty()) masked = mask.at<uint8_t>(static_cast<int>(std::floor(k[1])), static_cast<int>(std::floor(k[0]))) == 0;
    if (!vf::mustReturn("mask:ask", "asking for visibility", [&] { got = cam.isMasked(k); vis = cam.isKeypointVisible(k); })) return;
    VF_EXPECT(vis == box, "visible:double", "(%.17g, %.17g) in %ux%u is reported %s", k[0], k[1], c.w, c.h, vis ? "visible" : "not visible");
    VF_EXPECT(got == masked, "mask:masked", "(%.17g, %.17g) in %ux%u is reported %s", k[0], k[1], c.w, c.h, got ? "masked" : "not masked");
    const Eigen::Vector2f kf = k.cast<float>();
    const bool boxf = kf[0] >= 0 && kf[1] >= 0 && kf[0] < static_cast<float>(c.w) && kf[1] < static_cast<float>(c.h);
    VF_EXPECT(cam.isKeypointVisible(kf) == boxf, "visible:float", "(%.9g, %.9g) in %ux%u", kf[0], kf[1], c.w, c.h);
    const Eigen::Vector2i ki(static_cast<int>(r.below(c.w + 4)) - 2, static_cast<int>(r.below(c.h + 4)) - 2);
    const bool boxi = ki[0] >= 0 && ki[1] >= 0 && ki[0] < static_cast<int>(c.w) && ki[1] < static_cast<int>(c.h);
    VF_EXPECT(cam.isKeypointVisible(ki) == boxi, "visible:int", "(%d, %d) in %ux%u", ki[0], ki[1], c.w, c.h);
    const int mi = static_cast<int>(r.below((std::min(c.w, c.h) - 1) / 2 + 1));
    if (2 * mi < static_cast<int>(std::min(c.w, c.h))) {
      const bool bm = ki[0] >= mi && ki[1] >= mi && ki[0] < static_cast<int>(c.w) - mi && ki[1] < static_cast<int>(c.h) - mi;
      VF_EXPECT(cam.isKeypointVisibleWithMargin(ki, mi) == bm, "visible:int-margin", "(%d, %d) in %ux%u with margin %d", ki[0], ki[1], c.w, c.h, mi);
    }
    const double md = r.chance(0.2) ? 0 : r.uni(0, 0.499) * std::min(c.w, c.h);
    if (r.chance(0.3)) k[0] = r.chance(0.5) ? md : c.w - md;
    const bool bd = k[0] >= md && k[1] >= md && k[0] < c.w - md && k[1] < c.h - md;
    VF_EXPECT(cam.isKeypointVisibleWithMargin(k, md) == bd, "visible:margin", "(%.17g, %.17g) in %ux%u with margin %.17g is reported %s", k[0], k[1], c.w, c.h, md, bd ? "not visible" : "visible");
    vf::evaluated(vf::hashBytes(k.data(), 16, hashCam(c)), box);
  }
}

void maskRefusals(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  vf::detail(c.show());
  const int w = static_cast<int>(c.w), h = static_cast<int>(c.h);
  cv::Mat bad;
  switch (r.below(6)) {
    case 0: bad = cv::Mat::ones(h + 1, w, CV_8UC1); break;
    case 1: bad = cv::Mat::ones(h, w - 1, CV_8UC1); break;
    case 2: bad = cv::Mat::ones(h, w, CV_16UC1); break;
    case 3: bad = cv::Mat::ones(h, w, CV_8UC3); break;
    case 4: if (w == h) return; bad = cv::Mat::ones(w, h, CV_8UC1); break;
    default: bad = cv::Mat::ones(h, w, CV_32F); break;
  }
  vf::Outcome o = vf::guarded([&] { c.cam->setMask(bad); });
  VF_EXPECT(o == vf::kFatal, "mask:refused", "a mask of %dx%d type %d was accepted for a camera of %dx%d", bad.cols, bad.rows, bad.type(), w, h);
  o = vf::guarded([&] { c.cam->isKeypointVisibleWithMargin(V2(1, 1), std::min(w, h) * 0.5 + r.uni(0, 5)); });
  VF_EXPECT(o == vf::kFatal, "visible:margin-refused", "a margin that leaves no image was accepted");
  vf::evaluated(vf::hashStr(c.show()) + bad.type(), true);
}

void shutter(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  Camera& cam = *c.cam;
  const bool cols = c.lens == kLid;
  const uint64_t delays[] = {0, 1, 50000, 1000000};
  const uint64_t d = r.chance(0.5) ? delays[r.below(4)] : r.below(10000000);
  cam.setLineDelayNanoSeconds(d);
  vf::detail(c.show() + vf::fmt(" line delay %llu", static_cast<unsigned long long>(d)));
  VF_EXPECT(cam.getLineDelayNanoSeconds() == d, "shutter:delay", "the line delay reads %llu", static_cast<unsigned long long>(cam.getLineDelayNanoSeconds()));
  VF_EXPECT(cam.getLineDelayMode() == (cols ? Camera::LineDelayMode::kColumns : Camera::LineDelayMode::kRows), "shutter:mode", "the scan direction is wrong");
  const uint32_t lines = cols ? c.w : c.h;
  VF_EXPECT(cam.getNumberOfLines() == (d ? lines : 1u), "shutter:lines", "%u lines are reported for %u", cam.getNumberOfLines(), lines);
  VF_EXPECT(cam.maxRollingShutterDelayNanoSeconds() == static_cast<int64_t>(lines * d), "shutter:whole", "from the first to the last of %u lines takes %lld ns at %llu ns each", lines, static_cast<long long>(cam.maxRollingShutterDelayNanoSeconds()), static_cast<unsigned long long>(d));
  for (int i = 0; i < 8; ++i) {
    const V2 k(r.uni(-0.2, 1.2) * c.w, r.uni(-0.2, 1.2) * c.h);
    const int64_t line = static_cast<int64_t>(std::trunc(cols ? k[0] : k[1]));
    const int64_t got = cam.rollingShutterDelayNanoSeconds(k);
    VF_EXPECT(got == line * static_cast<int64_t>(d), "shutter:keypoint", "the delay of (%g, %g) is %lld ns instead of %lld", k[0], k[1], static_cast<long long>(got), static_cast<long long>(line * static_cast<int64_t>(d)));
    if (inBox(c, k)) VF_EXPECT(got >= 0 && got <= cam.maxRollingShutterDelayNanoSeconds(), "shutter:range", "the delay of (%g, %g) is %lld ns, more than the %lld ns of the whole image", k[0], k[1], static_cast<long long>(got), static_cast<long long>(cam.maxRollingShutterDelayNanoSeconds()));
    vf::evaluated(vf::hashBytes(k.data(), 16, d), d != 0);
  }
}

// ---- C33 -------------------------------------------------------------------
Cam dressed(Rng& r) {
  Cam c = someCam(r);
  static const char* topics[] = {"", "/cam0/image_raw", "with space", "a: b", "#x", "\"q\""};
  c.cam->setTopic(topics[r.below(6)]);
  c.cam->setDescription(topics[r.below(6)]);
  if (r.chance(0.5)) c.cam->setLineDelayNanoSeconds(r.chance(0.2) ? (1ull << 63) + r.below(1000) : r.below(1000000));
  c.cam->setCompressedImages(r.chance(0.5));
  if (r.chance(0.15)) {  // sizes of every magnitude
    c.w = 1 + static_cast<uint32_t>(std::pow(2.0, r.uni(0, 31.99)));
    c.h = 1 + static_cast<uint32_t>(std::pow(2.0, r.uni(0, 31.99)));
    c.cam->setImageWidth(c.w);
    c.cam->setImageHeight(c.h);
  }
  return c;
}
void same(const Cam& c, const Camera& a, const Camera& b, const std::string& how) {
  const std::string key = how;
  VF_EXPECT(a == b && b == a && !(a != b) && a.isEqual(b, true), key + ":equal", "%s is not equal to the original", how.c_str());
  VF_EXPECT(a.getId() == b.getId() && a.getTopic() == b.getTopic() && a.getDescription() == b.getDescription(), key + ":sensor", "%s has another id, topic or description", how.c_str());
  VF_EXPECT(a.getType() == b.getType() && a.imageWidth() == b.imageWidth() && a.imageHeight() == b.imageHeight() && a.getLineDelayNanoSeconds() == b.getLineDelayNanoSeconds() && a.hasCompressedImages() == b.hasCompressedImages(), key + ":settings", "%s has another type, size, line delay or compression", how.c_str());
  VF_EXPECT(a.getParameters() == b.getParameters(), key + ":intrinsics", "%s has intrinsics (%s) instead of (%s)", how.c_str(), ::show(b.getParameters()).c_str(), ::show(a.getParameters()).c_str());
  VF_EXPECT(a.getDistortion().getType() == b.getDistortion().getType() && a.getDistortion().getParameters() == b.getDistortion().getParameters() && a.hasDistortion() == b.hasDistortion(), key + ":distortion", "%s has another distortion (%s)", how.c_str(), ::show(b.getDistortion().getParameters()).c_str());
  VF_EXPECT(typeid(a) == typeid(b), key + ":class", "%s is of another class", how.c_str());
  (void)c;
}
void cameraCopies(Rng& r, uint64_t n) {
  const Cam c = dressed(r);
  const Camera& cam = *c.cam;
  vf::detail(c.show());
  YAML::Node node;
  Camera::Ptr back;
  // Through a node.
  if (!vf::mustReturn("yaml:node", "through a node", [&] { cam.serialize(&node); back = createCamera(node); })) return;
  if (VF_EXPECT(back != nullptr, "yaml:node", "not read back from a node")) same(c, cam, *back, "yaml:node");
  // Through text.
  std::string text;
  if (!vf::mustReturn("yaml:text", "through text", [&] { std::stringstream ss; ss << node; text = ss.str(); back = createCamera(YAML::Load(text)); })) return;
  if (VF_EXPECT(back != nullptr, "yaml:text", "not read back from text")) same(c, cam, *back, "yaml:text");
  // Through a file, into a camera that has other settings.
  if (n % 4 == 0) {
    const std::string file = vf::opts().out + ".camera.yaml";
    Cam other = someCam(r, c.lens);
    other.cam->setLineDelayNanoSeconds(5); other.cam->setCompressedImages(true); other.cam->setTopic("old"); other.cam->setDescription("old");
    bool ok = false;
    if (vf::mustReturn("yaml:file", "through a file", [&] { cam.serializeToFile(file); ok = other.cam->deserializeFromFile(file); }) && VF_EXPECT(ok, "yaml:file", "not read back from a file")) same(c, cam, *other.cam, "yaml:file");
    std::remove(file.c_str());
  }
  // Clones.
  std::unique_ptr<Camera> copy(cam.clone());
  same(c, cam, *copy, "clone");
  Sensor::Ptr sensor = static_cast<const Sensor&>(cam).cloneAsSensor();
  if (VF_EXPECT(sensor != nullptr && *sensor == cam, "clone:sensor", "a clone as sensor is not equal")) same(c, cam, dynamic_cast<Camera&>(*sensor), "clone:sensor");
  // Changing the copy does not change the original.
  const VX pi = cam.getParameters(), pd = cam.getDistortion().getParameters();
  switch (r.below(7)) {
    case 0: copy->getParametersMutable()[r.below(pi.size())] += 0.25; break;
    case 1: if (pd.size()) { VX k = pd; k[0] = k[0] == 0 ? 0.6 : k[0] * 0.9; if (c.m == kFish && k[0] < 0.5) k[0] = 0.7; copy->getDistortionMutable()->setParameters(k); } else copy->setImageHeight(c.h + 1); break;
    case 2: copy->setImageWidth(c.w + 1); break;
    case 3: copy->setLineDelayNanoSeconds(cam.getLineDelayNanoSeconds() + 1); break;
    case 4: copy->setCompressedImages(!cam.hasCompressedImages()); break;
    case 5: if (c.m != kNull) copy->removeDistortion(); else copy->setImageWidth(c.w + 3); break;
    default: { CameraId id; generateId(&id); copy->setId(id); break; }
  }
  VF_EXPECT(cam.getParameters() == pi && cam.getDistortion().getParameters() == pd && cam.imageWidth() == c.w && cam.imageHeight() == c.h, "clone:independent", "changing a clone changed the original");
  VF_EXPECT(!(cam == *copy) && cam != *copy, "clone:different", "a changed clone still compares equal");
  // A camera made by the factory.
  if (c.lens != kLid) {
    CameraId id; generateId(&id);
    Camera::Ptr made;
    if (vf::mustReturn("factory", "making a camera", [&] { made = createCamera(id, c.intr, c.w, c.h, c.k, cam.getType(), cam.getDistortion().getType()); }))
      VF_EXPECT(made && made->getId() == id && made->getParameters() == c.intr && made->getDistortion().getParameters() == c.k && made->getType() == cam.getType() && made->imageWidth() == c.w && made->imageHeight() == c.h && made->getDistortion().getType() == cam.getDistortion().getType(), "factory", "a camera made from its parts differs");
  }
  vf::evaluated(vf::hashStr(text), c.m != kNull, text);
}
void badCameras(Rng& r, uint64_t) {
  const Cam c = dressed(r);
  YAML::Node node;
  c.cam->serialize(&node);
  const int how = static_cast<int>(r.below(9));
  switch (how) {
    case 0: node.remove("image_width"); break;
    case 1: node.remove("image_height"); break;
    case 2: node.remove("intrinsics"); break;
    case 3: node["type"] = "pin-hole"; break;
    case 4: node.remove("type"); break;
    case 5: { VX i = c.intr; i.conservativeResize(i.size() + 1); i[i.size() - 1] = 1; node["intrinsics"] = i; break; }
    case 6: { VX i = c.intr; i[1] = -1; node["intrinsics"] = i; break; }
    case 7: { YAML::Node d; d["type"] = "radial"; d["parameters"] = VX(VX::Zero(4)); node["distortion"] = d; break; }
    default: { YAML::Node d; d["type"] = "radial-tangential"; d["parameters"] = VX(VX::Zero(3)); node["distortion"] = d; break; }
  }
  vf::detail(c.show() + vf::fmt(" damaged %d", how));
  Camera::Ptr back;
  if (!vf::mustReturn("yaml:bad", "reading a damaged camera", [&] { back = createCamera(node); })) return;
  VF_EXPECT(back == nullptr, "yaml:bad", "a damaged camera (%d) was read", how);
  vf::evaluated(vf::hashStr(c.show()) + how, true);
}

Transformation somePose(Rng& r) {
  Eigen::Vector4d q = Eigen::Vector4d(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized();
  return Transformation(Quaternion(q[0], q[1], q[2], q[3]), Position3D(r.uni(-2, 2), r.uni(-2, 2), r.uni(-2, 2)));
}
struct Rig { std::vector<Cam> cams; TransformationVector T; NCamera::Ptr rig; bool cov; TransformationCovariance C; };
Rig someRig(Rng& r) {
  Rig g;
  const size_t n = r.chance(0.04) ? 6 + r.below(35) : 1 + r.below(5);
  std::vector<Camera::Ptr> cams;
  for (size_t i = 0; i < n; ++i) { g.cams.push_back(dressed(r)); cams.push_back(g.cams.back().cam); g.T.push_back(somePose(r)); }
  NCameraId id; generateId(&id);
  g.cov = r.chance(0.5);
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) g.C(i, j) = r.uni(-1, 1);
  if (g.cov) g.rig.reset(new NCamera(id, g.T, g.C, cams, "a rig")); else g.rig.reset(new NCamera(id, g.T, cams, "a rig"));
  return g;
}
bool samePose(const Transformation& a, const Transformation& b) { return (a.getTransformationMatrix() - b.getTransformationMatrix()).cwiseAbs().maxCoeff() < 1e-12; }
// Every camera is under its id and index with its extrinsics.
void index(const NCamera& rig, size_t n, const TransformationVector& T, const std::string& how) {
  if (!VF_EXPECT(rig.numCameras() == n && rig.getNumCameras() == n && rig.getCameraVector().size() == n && rig.getTransformationVector().size() == n, how + ":count", "%zu cameras became %zu", n, rig.numCameras())) return;
  for (size_t i = 0; i < n; ++i) {
    const CameraId id = rig.getCamera(i).getId();
    int idx = -2; bool has = false, pose = false;
    const vf::Outcome o = vf::guarded([&] { idx = rig.getCameraIndex(id); has = rig.hasCameraWithId(id); pose = idx >= 0 && samePose(rig.get_T_C_B(id), T[i]); });
    VF_EXPECT(o == vf::kOk && idx == static_cast<int>(i) && has, how + ":index", "camera %zu is looked up by its id at index %d", i, idx);
    VF_EXPECT(pose && samePose(rig.get_T_C_B(i), T[i]), how + ":extrinsics", "camera %zu has other extrinsics", i);
    VF_EXPECT(rig.getCameraId(i) == id && rig.getCameraShared(i).get() == &rig.getCamera(i) && rig.getCameraVector()[i].get() == &rig.getCamera(i), how + ":access", "ways to get camera %zu disagree", i);
  }
  CameraId other; generateId(&other);
  VF_EXPECT(!rig.hasCameraWithId(other) && rig.getCameraIndex(other) == -1, how + ":unknown", "an id that is in no camera is found");
}
void covariance(const Rig& g, const NCamera& b, const std::string& how) {
  TransformationCovariance C; C.setConstant(-3);
  const bool has = b.get_T_G_B_fixed_localization_covariance(&C);
  VF_EXPECT(has == g.cov && b.has_T_G_B_fixed_localization_covariance() == g.cov && (!has || C == g.C), how + ":covariance", "the localization covariance changed");
}
void rigs(Rng& r, uint64_t) {
  Rig g = someRig(r);
  const size_t n = g.cams.size();
  NCamera& rig = *g.rig;
  std::string d = vf::fmt("rig of %zu:", n);
  for (const Cam& c : g.cams) d += " " + c.show();
  vf::detail(d);
  index(rig, n, g.T, "rig");
  covariance(g, rig, "rig");
  // Clones.
  std::unique_ptr<NCamera> copy(rig.clone());
  VF_EXPECT(*copy == rig && rig == *copy, "rig:clone", "a clone is not equal to the rig");
  index(*copy, n, g.T, "rig:clone");
  covariance(g, *copy, "rig:clone");
  for (size_t i = 0; i < n; ++i) {
    VF_EXPECT(&copy->getCamera(i) != &rig.getCamera(i), "rig:clone-shares", "a clone shares camera %zu", i);
    same(g.cams[i], rig.getCamera(i), copy->getCamera(i), "rig:clone");
  }
  NCamera::Ptr shared = rig.cloneToShared();
  Sensor::Ptr sensor = rig.cloneAsSensor();
  VF_EXPECT(*shared == rig && *sensor == rig, "rig:clone", "a shared clone is not equal to the rig");
  // With new ids.
  std::unique_ptr<NCamera> fresh(rig.cloneWithNewIds());
  index(*fresh, n, g.T, "rig:new-ids");
  covariance(g, *fresh, "rig:new-ids");
  VF_EXPECT(fresh->getId() != rig.getId(), "rig:new-ids", "the id of the rig is not new");
  for (size_t i = 0; i < n; ++i) {
    VF_EXPECT(!rig.hasCameraWithId(fresh->getCamera(i).getId()) && !fresh->hasCameraWithId(rig.getCamera(i).getId()), "rig:new-ids", "camera %zu did not get a new id", i);
    VF_EXPECT(fresh->getCamera(i).getParameters() == rig.getCamera(i).getParameters() && fresh->getCamera(i).getDistortion() == rig.getCamera(i).getDistortion(), "rig:new-ids", "camera %zu changed", i);
  }
  // Without distortion.
  NCamera::Ptr plain = rig.cloneRigWithoutDistortion();
  index(*plain, n, g.T, "rig:no-distortion");
  covariance(g, *plain, "rig:no-distortion");
  for (size_t i = 0; i < n; ++i) {
    VF_EXPECT(!plain->getCamera(i).hasDistortion() && plain->getCamera(i).getParameters() == rig.getCamera(i).getParameters(), "rig:no-distortion", "camera %zu still has distortion or other intrinsics", i);
    VF_EXPECT(!plain->hasCameraWithId(rig.getCamera(i).getId()), "rig:no-distortion-id", "a rig without distortion still answers to the id of the distorted camera %zu", i);
    VF_EXPECT(rig.getCamera(i).getDistortion().getParameters() == g.cams[i].k, "rig:no-distortion-original", "the original camera %zu lost its distortion", i);
  }
  // YAML, also into a rig that is in use.
  YAML::Node node;
  NCamera back;
  bool ok = false;
  std::string text;
  if (!vf::mustReturn("rig:yaml", "through text", [&] { rig.serialize(&node); std::stringstream ss; ss << node; text = ss.str(); ok = back.deserialize(YAML::Load(text)); })) return;
  if (VF_EXPECT(ok, "rig:yaml", "a rig is not read back")) {
    VF_EXPECT(back == rig && rig == back && back.getId() == rig.getId() && back.getDescription() == rig.getDescription(), "rig:yaml", "a rig read back is not equal");
    index(back, n, g.T, "rig:yaml");
    covariance(g, back, "rig:yaml");
  }
  {  // Extrinsics may be written the other way round.
    YAML::Node turned = YAML::Load(text);
    const size_t from = r.below(n);
    for (size_t i = from; i < n; ++i) {
      YAML::Node cam = turned["cameras"][i];
      cam.remove("T_B_C");
      cam["T_C_B"] = Eigen::Matrix4d(g.T[i].getTransformationMatrix());
    }
    NCamera other;
    if (vf::mustReturn("rig:yaml-turned", "from T_C_B", [&] { std::stringstream ss; ss << turned; ok = other.deserialize(YAML::Load(ss.str())); }) && VF_EXPECT(ok, "rig:yaml-turned", "a rig with T_C_B is not read")) {
      VF_EXPECT(other == rig, "rig:yaml-turned", "a rig with T_C_B from camera %zu on is read differently", from);
      index(other, n, g.T, "rig:yaml-turned");
    }
  }
  {
    Rig used = someRig(r);
    if (vf::mustReturn("rig:yaml-used", "into a used rig", [&] { ok = used.rig->deserialize(YAML::Load(text)); }) && VF_EXPECT(ok, "rig:yaml-used", "a rig is not read into a used one")) {
      VF_EXPECT(*used.rig == rig, "rig:yaml-used", "a rig read into a used one has %zu cameras instead of %zu", used.rig->numCameras(), n);
      index(*used.rig, n, g.T, "rig:yaml-used");
      covariance(g, *used.rig, "rig:yaml-used");
    }
  }
  // Changing the copies leaves the original alone; replacing a camera.
  const size_t w = r.below(n);
  const CameraId old = copy->getCamera(w).getId();
  Cam c = dressed(r);
  copy->setCamera(w, c.cam);
  TransformationVector T = g.T;
  T[w] = somePose(r);
  switch (r.below(3)) {
    case 0: copy->set_T_C_B(w, T[w]); break;
    case 1: copy->get_T_C_B_Mutable(w) = T[w]; break;
    default: copy->get_T_C_B_Mutable(c.cam->getId()) = T[w]; break;
  }
  index(*copy, n, T, "rig:set-camera");
  VF_EXPECT(!copy->hasCameraWithId(old), "rig:set-camera", "a replaced camera is still found");
  VF_EXPECT(!(*copy == rig), "rig:different", "a rig with another camera compares equal");
  index(rig, n, g.T, "rig:after");
  VF_EXPECT(rig.hasCameraWithId(old), "rig:after", "changing a clone changed the original");
  {
    std::unique_ptr<NCamera> e(rig.clone());
    Transformation t = e->get_T_C_B(w);
    t.getPosition()[r.below(3)] += 1e-3;
    e->set_T_C_B(w, t);
    VF_EXPECT(!(*e == rig), "rig:extrinsics-differ", "a rig with other extrinsics compares equal");
  }
  vf::evaluated(vf::hashStr(text), n > 1, text);
}
void makers33(Rng& r, uint64_t) {
  const size_t n = 1 + r.below(6);
  NCamera::Ptr a = createTestNCamera(n), b = createSurroundViewTestNCamera();
  NCamera c;
  CameraId id; generateId(&id);
  c.setId(id);
  if (!vf::mustReturn("rig:random", "making a random rig", [&] { c.setRandom(); })) return;
  vf::detail(vf::fmt("made rigs of %zu", n));
  index(*a, n, a->getTransformationVector(), "rig:test");
  index(*b, 4, b->getTransformationVector(), "rig:surround");
  index(c, c.numCameras(), c.getTransformationVector(), "rig:random");
  VF_EXPECT(c.numCameras() >= 1 && c.isValid() && a->isValid() && b->isValid(), "rig:valid", "a made rig is not valid");
  std::unique_ptr<NCamera> d(c.clone());
  VF_EXPECT(*d == c, "rig:random", "a clone of a random rig is not equal");
  PinholeCamera p; UnifiedProjectionCamera u; Camera3DLidar l;
  for (Camera* x : {static_cast<Camera*>(&p), static_cast<Camera*>(&u), static_cast<Camera*>(&l)}) {
    VF_EXPECT(x->getParameters().size() == x->getParameterSize(), "camera:default", "a default camera has %d of %d intrinsics", static_cast<int>(x->getParameters().size()), x->getParameterSize());
    if (!vf::mustReturn("camera:random", "making a random camera", [&] { x->setRandom(); })) continue;
    VF_EXPECT(x->isValid() && x->imageWidth() > 0, "camera:random", "a random camera is not valid");
  }
  vf::evaluated(n * 31 + c.numCameras(), true);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  const std::string& p = vf::opts().property;
  if (p == "C31") {
    vf::part("round trips", vf::scale(4000, 200000), roundTrip);
    vf::part("derivatives", vf::scale(3000, 150000), jacobians);
    vf::part("external lidar", vf::scale(500, 20000), externalLidar);
    vf::part("lists", vf::scale(1500, 50000), vectorised);
    vf::part("rim", vf::scale(1500, 50000), rim);
    vf::part("parameters from outside", vf::scale(1500, 50000), external);
    vf::part("makers", vf::scale(800, 20000), makers);
    vf::part("templated", vf::scale(800, 20000), templated);
  } else if (p == "C32") {
    vf::part("verdicts", vf::scale(6000, 300000), verdicts);
    vf::part("masks", vf::scale(500, 10000), masks);
    vf::part("refusals", vf::scale(40, 400), maskRefusals);
    vf::part("shutter", vf::scale(1500, 50000), shutter);
    vf::part("lists", vf::scale(500, 20000), vectorised);
    vf::part("rim", vf::scale(800, 30000), rim);
    vf::part("parameters from outside", vf::scale(500, 20000), external);
  } else {
    vf::part("cameras", vf::scale(1200, 40000), cameraCopies);
    vf::part("damaged", vf::scale(600, 20000), badCameras);
    vf::part("rigs", vf::scale(250, 8000), rigs);
    vf::part("made", vf::scale(60, 1000), makers33);
  }
  return vf::finish();
}
