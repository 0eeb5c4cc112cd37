// Random cameras of every model together with independent projections.
#ifndef VF_CAMERA_REF_H_
#define VF_CAMERA_REF_H_
#include "distortion_ref.h"
#include <aslam/cameras/camera.h>
#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/common/unique-id.h>

namespace {
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 2, 3> M23;
enum Lens { kPin, kUni, kLid };
const char* kLens[] = {"pinhole", "unified", "lidar"};

struct Cam {
  int lens, m;
  VX k, intr;   // distortion parameters, intrinsics
  uint32_t w, h;
  double rmax;  // working radius of the distortion on the undistorted plane
  Camera::Ptr cam;
  std::string show() const {
    std::string s = std::string(kLens[lens]) + "(" + ::show(intr) + ") " + kName[m] + "(" + ::show(k) + ") ";
    return s + vf::fmt("%ux%u", w, h);
  }
};

// Smallest value of 1 + (1 - xi^2) rho^2 is 0: the edge of the model.
double uniEdge(double xi) { return xi > 1 ? std::sqrt(1 / (xi * xi - 1)) : 1e9; }

Cam buildCam(int lens, int m, const VX& k, const VX& intr, uint32_t w, uint32_t h) {
  Cam c;
  c.lens = lens; c.m = lens == kLid ? static_cast<int>(kNull) : m; c.k = lens == kLid ? VX() : k; c.intr = intr; c.w = w; c.h = h;
  c.rmax = workingRadius(c.m, c.k);
  if (lens == kUni) c.rmax = std::min(c.rmax, 0.97 * uniEdge(intr[0]));
  Distortion::UniquePtr d(make(c.m, c.k).release());
  if (lens == kPin) c.cam.reset(new PinholeCamera(intr, w, h, d));
  else if (lens == kUni) c.cam.reset(new UnifiedProjectionCamera(intr, w, h, d));
  else c.cam.reset(new Camera3DLidar(intr, w, h));
  CameraId id;
  generateId(&id);
  c.cam->setId(id);
  return c;
}

Cam someCam(Rng& r, int lens = -1) {
  if (lens < 0) lens = r.chance(0.2) ? static_cast<int>(kLid) : static_cast<int>(r.below(2));
  uint32_t w, h;
  switch (r.below(4)) {
    case 0: w = 640; h = 480; break;
    case 1: w = 8 + static_cast<uint32_t>(r.below(40)); h = 8 + static_cast<uint32_t>(r.below(40)); break;
    case 2: w = 480; h = 752; break;
    default: w = 20 + static_cast<uint32_t>(r.below(2000)); h = 20 + static_cast<uint32_t>(r.below(2000)); break;
  }
  if (lens == kLid) {
    h = 4 + static_cast<uint32_t>(r.below(128));
    VX i(4);
    const bool full = r.chance(0.6);
    i[Camera3DLidar::kHorizontalResolutionRad] = full ? 2 * M_PI / w : r.uni(0.3, 0.95) * 2 * M_PI / w;
    const double vfov = r.uni(0.2, 2.6);
    i[Camera3DLidar::kVerticalResolutionRad] = vfov / h;
    i[Camera3DLidar::kVerticalCenterRad] = vfov * r.uni(0.42, 0.58);
    i[Camera3DLidar::kHorizontalCenterRad] = full ? (r.chance(0.3) ? 0 : r.uni(0, M_PI)) : r.uni(0, 1) * i[Camera3DLidar::kHorizontalResolutionRad] * w / 2;
    return buildCam(kLid, kNull, VX(), i, w, h);
  }
  const int m = static_cast<int>(r.below(4));
  const VX k = someParams(r, m);
  const double fu = w / (2 * r.uni(0.3, 1.6)), fv = fu * r.uni(0.8, 1.25);
  const double cu = r.chance(0.1) ? r.uni(0.01, 1.5) * w : r.uni(0.4, 0.6) * w, cv = r.chance(0.1) ? r.uni(0.01, 1.5) * h : r.uni(0.4, 0.6) * h;
  if (lens == kPin) return buildCam(kPin, m, k, Eigen::Vector4d(fu, fv, cu, cv), w, h);
  static const double xis[] = {0, 0.3, 0.9, 1, 1.2, 2};
  VX i(5);
  i << (r.chance(0.5) ? xis[r.below(6)] : r.uni(0, 2.5)), fu, fv, cu, cv;
  return buildCam(kUni, m, k, i, w, h);
}

// The published projections; false where the model is not defined.
bool refProject(const Cam& c, const VX& intr, const VX& k, ld x, ld y, ld z, ld* u, ld* v) {
  if (c.lens == kLid) {
    const ld n = std::sqrt(x * x + y * y + z * z);
    if (!(n > 0)) return false;
    const ld pi2 = 2 * std::acos(static_cast<ld>(-1)), hr = intr[Camera3DLidar::kHorizontalResolutionRad];
    ld a = std::atan2(x, z) + intr[Camera3DLidar::kHorizontalCenterRad];
    if (a < 0) a += pi2;
    *u = a / hr;
    *v = (std::asin(y / n) + intr[Camera3DLidar::kVerticalCenterRad]) / intr[Camera3DLidar::kVerticalResolutionRad];
    return true;
  }
  ld qx, qy;
  int o = 0;
  if (c.lens == kPin) {
    if (z == 0) return false;
    qx = x / z; qy = y / z;
  } else {
    o = 1;
    const ld xi = intr[0], d = std::sqrt(x * x + y * y + z * z);
    if (!(z > -(xi <= 1 ? xi : 1 / xi) * d)) return false;
    qx = x / (z + xi * d); qy = y / (z + xi * d);
  }
  ld dx, dy;
  formula(c.m, k, qx, qy, &dx, &dy);
  *u = intr[o] * dx + intr[o + 2];
  *v = intr[o + 1] * dy + intr[o + 3];
  return true;
}
// The viewing ray of a point of the undistorted normalized plane.
V3 refRay(const Cam& c, const V2& q) {
  if (c.lens == kPin) return V3(q[0], q[1], 1);
  const ld xi = c.intr[0], r2 = static_cast<ld>(q[0]) * q[0] + static_cast<ld>(q[1]) * q[1];
  const ld eta = (xi + std::sqrt(std::max(static_cast<ld>(0), 1 + (1 - xi * xi) * r2))) / (r2 + 1);
  return V3(static_cast<double>(eta * q[0]), static_cast<double>(eta * q[1]), static_cast<double>(eta - xi));
}
// A viewing ray (unit length) inside the working range and its image point.
bool someView(Rng& r, const Cam& c, V3* ray, V2* kp, V2* q_out = nullptr) {
  ld u, v;
  if (c.lens == kLid) {
    const double kx = r.uni(0.01, 0.99) * c.w, ky = r.uni(0.01, 0.99) * c.h;
    const double az = kx * c.intr[Camera3DLidar::kHorizontalResolutionRad] - c.intr[Camera3DLidar::kHorizontalCenterRad];
    const double el = ky * c.intr[Camera3DLidar::kVerticalResolutionRad] - c.intr[Camera3DLidar::kVerticalCenterRad];
    if (std::abs(el) > 1.5) return false;
    *ray = V3(std::sin(az) * std::cos(el), std::sin(el), std::cos(az) * std::cos(el));
    *kp = V2(kx, ky);
    return true;
  }
  // Radii inside both the working range and, mostly, the image.
  const int o = c.lens == kUni;
  const double rimg = 1.1 * std::hypot(c.w / c.intr[o], c.h / c.intr[o + 1]) / 2;
  const V2 q = somePoint(r, r.chance(0.2) ? std::min(c.rmax, 4.0) : std::min(c.rmax, rimg));
  if (q.norm() > c.rmax) return false;
  *ray = refRay(c, q).normalized();
  ld dx, dy;
  formula(c.m, c.k, q[0], q[1], &dx, &dy);
  u = c.intr[o] * dx + c.intr[o + 2];
  v = c.intr[o + 1] * dy + c.intr[o + 3];
  *kp = V2(static_cast<double>(u), static_cast<double>(v));
  if (q_out) *q_out = q;
  // The radial-tangential inversion starts at the distorted point.
  return !(c.m == kRad && std::hypot(static_cast<double>(dx), static_cast<double>(dy)) > c.rmax);
}
double focal(const Cam& c) {
  if (c.lens == kLid) return 1 / std::min(c.intr[Camera3DLidar::kHorizontalResolutionRad], c.intr[Camera3DLidar::kVerticalResolutionRad]);
  const int o = c.lens == kUni;
  return std::max(c.intr[o], c.intr[o + 1]);
}
bool inBox(const Cam& c, const V2& p) { return p[0] >= 0 && p[1] >= 0 && p[0] < c.w && p[1] < c.h; }
}  // namespace
#endif
