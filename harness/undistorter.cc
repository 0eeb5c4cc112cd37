// C34: undistorters.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <opencv2/imgproc/imgproc.hpp>
#include "camera_ref.h"
#include <aslam/common/memory.h>
#include <aslam/common/undistort-helpers.h>
#include <aslam/pipeline/undistorter-mapped.h>

namespace {
typedef aslam::InterpolationMethod Method;
const Method kMethods[] = {Method::Linear, Method::Cubic, Method::Lanczos, Method::NearestNeighbor, Method::Area};
const char* kMethod[] = {"linear", "cubic", "lanczos", "nearest", "area"};

Cam smallCam(Rng& r, int lens, bool vast = false) {
  const bool round = r.chance(0.3);  // Sizes that a decimal scale meets exactly.
  const bool wide = vast && r.chance(0.5), tall = vast && !wide;
  const uint32_t w = wide ? 800 + static_cast<uint32_t>(r.below(4000)) : round ? 10 * (2 + static_cast<uint32_t>(r.below(10))) : 16 + static_cast<uint32_t>(r.below(120));
  const uint32_t h = tall ? 800 + static_cast<uint32_t>(r.below(4000)) : round ? 10 * (2 + static_cast<uint32_t>(r.below(8))) : 16 + static_cast<uint32_t>(r.below(100));
  const int m = static_cast<int>(r.below(4));
  const VX k = someParams(r, m);
  const double fu = w / (2 * r.uni(0.3, 1.6)), fv = fu * r.uni(0.8, 1.25);
  const double cu = r.uni(0.4, 0.6) * w, cv = r.uni(0.4, 0.6) * h;
  if (lens == kPin) return buildCam(kPin, m, k, Eigen::Vector4d(fu, fv, cu, cv), w, h);
  static const double xis[] = {0, 0.3, 0.9, 1, 1.2, 2};
  VX i(5);
  i << (r.chance(0.5) ? xis[r.below(6)] : r.uni(0, 2.5)), fu, fv, cu, cv;
  return buildCam(kUni, m, k, i, w, h);
}
// The ray of a pixel of a camera without distortion; 0 none, 1 yes, -1 too close to the edge to tell.
int rayOf(const Camera& out, double x, double y, ld ray[3]) {
  const VX p = out.getParameters();
  if (out.getType() == Camera::Type::kPinhole) {
    ray[0] = (x - static_cast<ld>(p[2])) / p[0];
    ray[1] = (y - static_cast<ld>(p[3])) / p[1];
    ray[2] = 1;
    return 1;
  }
  const ld xi = p[0], qx = (x - static_cast<ld>(p[3])) / p[1], qy = (y - static_cast<ld>(p[4])) / p[2], r2 = qx * qx + qy * qy;
  const ld under = 1 + (1 - xi * xi) * r2;
  if (under < -1e-6) return 0;
  if (under < 1e-6) return -1;
  const ld eta = (xi + std::sqrt(under)) / (r2 + 1);
  ray[0] = eta * qx; ray[1] = eta * qy; ray[2] = eta - xi;
  return 1;
}
// Where an output pixel comes from; same results as rayOf.
int sourceOf(const Cam& in, const Camera& out, int x, int y, ld* u, ld* v) {
  ld ray[3];
  const int has = rayOf(out, x, y, ray);
  if (has <= 0) return has;
  const ld d = std::sqrt(ray[0] * ray[0] + ray[1] * ray[1] + ray[2] * ray[2]);
  const ld edge = in.lens == kPin ? 0 : -(in.intr[0] <= 1 ? in.intr[0] : 1 / in.intr[0]);
  if (std::abs(ray[2] / d - edge) < 1e-6) return -1;
  if (ray[2] / d < edge) return 0;
  if (!refProject(in, in.intr, in.k, ray[0], ray[1], ray[2], u, v)) return 0;
  if (!(std::abs(*u) < 1e15L && std::abs(*v) < 1e15L)) return -1;
  return 1;
}
bool outside(const Cam& c, double u, double v) { return u <= -1 || v <= -1 || u >= c.w || v >= c.h; }

void expectMaps(Rng& r, const Cam& in, const Camera& out, const cv::Mat& mu, const cv::Mat& mv) {
  const int w = static_cast<int>(out.imageWidth()), h = static_cast<int>(out.imageHeight());
  if (!VF_EXPECT(mu.cols == w && mu.rows == h, "map-size", "a map of %d x %d for an image of %d x %d", mu.cols, mu.rows, w, h)) return;
  size_t within = 0, none = 0;
  for (int e = 0; e < 300; ++e) {
    int x = static_cast<int>(r.below(w)), y = static_cast<int>(r.below(h));
    if (e < 4) { x = e & 1 ? w - 1 : 0; y = e & 2 ? h - 1 : 0; }
    ld u = 0, v = 0;
    const int has = sourceOf(in, out, x, y, &u, &v);
    if (has < 0) continue;
    double gu, gv, q = 1.0 / 64;
    if (mu.type() == CV_16SC2) {
      const cv::Vec2s a = mu.at<cv::Vec2s>(y, x);
      const int f = mv.at<unsigned short>(y, x);
      gu = a[0] + (f & 31) / 32.0;
      gv = a[1] + (f >> 5) / 32.0;
    } else if (mu.type() == CV_32FC1) {
      gu = mu.at<float>(y, x); gv = mv.at<float>(y, x); q = 0;
    } else {
      gu = mu.at<cv::Vec2f>(y, x)[0]; gv = mu.at<cv::Vec2f>(y, x)[1]; q = 0;
    }
    if (!has) {
      ++none;
      VF_EXPECT(outside(in, gu, gv), "map-none", "pixel (%d, %d) has no ray into the input image and is taken from (%.9g %.9g)", x, y, gu, gv);
      continue;
    }
    const double du = static_cast<double>(u), dv = static_cast<double>(v);
    if (du < -2 || dv < -2 || du > in.w + 1 || dv > in.h + 1) {
      VF_EXPECT(outside(in, gu, gv), "map-outside", "pixel (%d, %d) lies at (%.9g %.9g) outside the input image and is taken from (%.9g %.9g)", x, y, du, dv, gu, gv);
      continue;
    }
    ++within;
    const double tol = q + 1e-4 + 2e-7 * (std::abs(du) + std::abs(dv));
    VF_EXPECT(std::abs(gu - du) <= tol && std::abs(gv - dv) <= tol, "map", "pixel (%d, %d) is taken from (%.9g %.9g) instead of (%.9g %.9g)", x, y, gu, gv, du, dv);
  }
  vf::count("map entries inside the input image", within);
  vf::count("map entries without a ray", none);
}

cv::Mat someImage(Rng& r, int w, int h, int type) {
  cv::Mat m(h + 3, w + 4, type);
  const bool smooth = r.chance(0.5);
  const double a = r.uni(0.05, 0.6), b = r.uni(0.05, 0.6), p = r.uni(0, 6);
  const int ch = m.channels();
  const double full = m.depth() == CV_8U ? 255 : m.depth() == CV_16U ? 65535 : 1;
  for (int y = 0; y < m.rows; ++y)
    for (int x = 0; x < m.cols; ++x)
      for (int c = 0; c < ch; ++c) {
        const double v = full * (smooth ? 0.5 + 0.45 * std::sin(a * x + p + c) * std::cos(b * y) : r.uni(0, 1));
        if (m.depth() == CV_8U) m.ptr<unsigned char>(y)[x * ch + c] = static_cast<unsigned char>(v);
        else if (m.depth() == CV_16U) m.ptr<unsigned short>(y)[x * ch + c] = static_cast<unsigned short>(v);
        else m.ptr<float>(y)[x * ch + c] = static_cast<float>(v);
      }
  return r.chance(0.5) ? m(cv::Rect(2, 1, w, h)) : m(cv::Rect(2, 1, w, h)).clone();
}
double sampleAt(const cv::Mat& m, int x, int y, int c) {
  if (x < 0 || y < 0 || x >= m.cols || y >= m.rows) return 0;
  const int i = x * m.channels() + c;
  return m.depth() == CV_8U ? m.ptr<unsigned char>(y)[i] : m.depth() == CV_16U ? m.ptr<unsigned short>(y)[i] : m.ptr<float>(y)[i];
}

void expectImage(const Cam& in, const Camera& out, const cv::Mat& image, const cv::Mat& got, int method) {
  const int w = static_cast<int>(out.imageWidth()), h = static_cast<int>(out.imageHeight());
  if (!VF_EXPECT(got.cols == w && got.rows == h && got.type() == image.type(), "image-size", "an image of %d x %d, type %d, instead of %d x %d, type %d", got.cols, got.rows, got.type(), w, h, image.type())) return;
  const double full = image.depth() == CV_8U ? 255 : image.depth() == CV_16U ? 65535 : 1;
  cv::Mat fu(h, w, CV_32FC1), fv(h, w, CV_32FC1), want;
  cv::Mat usable(h, w, CV_8UC1, cv::Scalar(1));
  size_t inner = 0;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      ld u = -1000, v = -1000;
      const int has = sourceOf(in, out, x, y, &u, &v);
      if (has < 0) usable.at<unsigned char>(y, x) = 0;
      if (has <= 0) u = v = -1000;
      u = std::max(std::min(u, static_cast<ld>(30000)), static_cast<ld>(-30000));
      v = std::max(std::min(v, static_cast<ld>(30000)), static_cast<ld>(-30000));
      fu.at<float>(y, x) = static_cast<float>(u);
      fv.at<float>(y, x) = static_cast<float>(v);
      // Too close to the middle between two steps.
      const ld unit = method == 3 ? 1 : 32;
      for (ld t : {u, v}) {
        const ld f = t * unit - std::floor(t * unit);
        if (std::abs(f - 0.5L) < 2e-3L * unit / 32 + 1e-4L * unit) usable.at<unsigned char>(y, x) = 0;
      }
    }
  cv::remap(image, want, fu, fv, static_cast<int>(kMethods[method]));
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      if (!usable.at<unsigned char>(y, x)) continue;
      const double u = std::floor(fu.at<float>(y, x) * 32.0 + 0.5) / 32, v = std::floor(fv.at<float>(y, x) * 32.0 + 0.5) / 32;
      if (!outside(in, u, v)) ++inner;
      for (int c = 0; c < image.channels(); ++c) {
        const double g = sampleAt(got, x, y, c), e = sampleAt(want, x, y, c);
        if (!VF_EXPECT(std::abs(g - e) <= 0.012 * full, std::string("image-") + kMethod[method], "pixel (%d, %d) of the image is %.9g instead of %.9g, the value at (%.9g %.9g)", x, y, g, e, fu.at<float>(y, x), fv.at<float>(y, x))) return;
        double mine;
        if (method == 3) mine = sampleAt(image, static_cast<int>(std::floor(fu.at<float>(y, x) + 0.5)), static_cast<int>(std::floor(fv.at<float>(y, x) + 0.5)), c);
        else if (method == 0 || method == 4) {
          const int x0 = static_cast<int>(std::floor(u)), y0 = static_cast<int>(std::floor(v));
          const double a = u - x0, b = v - y0;
          mine = (1 - a) * (1 - b) * sampleAt(image, x0, y0, c) + a * (1 - b) * sampleAt(image, x0 + 1, y0, c) + (1 - a) * b * sampleAt(image, x0, y0 + 1, c) + a * b * sampleAt(image, x0 + 1, y0 + 1, c);
        } else continue;
        if (!VF_EXPECT(std::abs(g - mine) <= 0.012 * full, std::string("sample-") + kMethod[method], "pixel (%d, %d) of the image is %.9g; the input at (%.9g %.9g) is %.9g", x, y, g, fu.at<float>(y, x), fv.at<float>(y, x), mine)) return;
      }
    }
  vf::count("pixels sampled inside", inner);
}

// Where input image points lie on the plane the output camera scales; false where it cannot be told.
bool plane(const Cam& c, double x, double y, bool pinhole, V2* q) {
  const int o = c.lens == kUni;
  V2 p((x - c.intr[o + 2]) / c.intr[o], (y - c.intr[o + 3]) / c.intr[o + 1]);
  const V2 d = p;
  c.cam->getDistortion().undistort(&p);
  if (!(p.norm() < 0.95 * c.rmax)) return false;
  if (c.m == kRad && d.norm() > c.rmax) return false;
  ld bx, by;
  formula(c.m, c.k, p[0], p[1], &bx, &by);
  if (std::hypot(static_cast<double>(bx) - d[0], static_cast<double>(by) - d[1]) > 1e-5) return false;
  if (pinhole && c.lens == kUni) {
    const V3 ray = refRay(c, p).normalized();
    if (ray[2] < 0.25) return false;
    *q = V2(ray[0] / ray[2], ray[1] / ray[2]);
  } else {
    *q = p;
  }
  return true;
}
void expectFit(const Cam& c, bool pinhole, const Camera& out, double alpha) {
  const int n = 160;
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}, ilo[2] = {-1e300, -1e300}, ihi[2] = {1e300, 1e300};
  for (int e = 0; e <= n; ++e)
    for (int side = 0; side < 4; ++side) {
      const double t = static_cast<double>(e) / n;
      V2 q;
      if (!plane(c, side < 2 ? (side ? c.w : 0) : t * c.w, side < 2 ? t * c.h : (side == 3 ? c.h : 0), pinhole, &q)) { vf::count("images that reach beyond the distortion model"); return; }
      for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); }
      if (side == 0) ilo[0] = std::max(ilo[0], q[0]);
      if (side == 1) ihi[0] = std::min(ihi[0], q[0]);
      if (side == 2) ilo[1] = std::max(ilo[1], q[1]);
      if (side == 3) ihi[1] = std::min(ihi[1], q[1]);
    }
  V2 corner[4];
  for (int e = 0; e < 4; ++e) if (!plane(c, e & 1 ? c.w : 0, e & 2 ? c.h : 0, pinhole, &corner[e])) return;
  const VX p = out.getParameters();
  const int o = out.getType() == Camera::Type::kUnifiedProjection;
  const double size[2] = {out.imageWidth() - 1.0, out.imageHeight() - 1.0};
  for (int k = 0; k < 2; ++k) {
    const double a = alpha == 0 ? ilo[k] : lo[k], b = alpha == 0 ? ihi[k] : hi[k];
    if (b - a < 0.3 * (hi[k] - lo[k])) continue;
    // The first and the last pixel see the ends of the rectangle.
    const double first = (0 - p[o + 2 + k]) / p[o + k], last = (size[k] - p[o + 2 + k]) / p[o + k];
    const double tol = (c.m == kNull && !(pinhole && c.lens == kUni) ? 1e-5 : 0.03) * (hi[k] - lo[k]);
    VF_EXPECT(std::abs(first - a) <= tol && std::abs(last - b) <= tol, alpha == 0 ? "fit-inner" : "fit-outer", "alpha %g: the output's %s covers %.9g to %.9g of the plane, %s of the input image %.9g to %.9g", alpha, k ? "height" : "width", first, last, alpha == 0 ? "the valid part" : "all", a, b);
    // The corners of the input image bound the rectangle exactly.
    const double fine = 2e-4 * (hi[k] - lo[k]);
    for (int e = 0; e < 4; ++e) {
      const double x = corner[e][k];
      if (alpha == 1) VF_EXPECT(first <= x + fine && last >= x - fine, "fit-corner", "alpha 1: the output's %s covers %.9g to %.9g of the plane, without the corner %d at %.9g", k ? "height" : "width", first, last, e, x);
      else if (e & (1 << k)) VF_EXPECT(last <= x + fine, "fit-corner", "alpha 0: the output's %s ends at %.9g of the plane, beyond the corner %d at %.9g", k ? "height" : "width", last, e, x);
      else VF_EXPECT(first >= x - fine, "fit-corner", "alpha 0: the output's %s begins at %.9g of the plane, before the corner %d at %.9g", k ? "height" : "width", first, e, x);
    }
    vf::count(alpha == 0 ? "fits of the valid part" : "fits of everything");
  }
}

void mapped(Rng& r, uint64_t) {
  const int lens = static_cast<int>(r.below(2));
  const Cam c = smallCam(r, lens);
  const bool pinhole = lens == kUni && r.chance(0.4);
  const float alpha = r.chance(0.3) ? 0 : r.chance(0.4) ? 1 : static_cast<float>(r.uni(0, 1));
  static const float kScale[] = {1, 0.5f, 2, 0.7f, 0.3f, 0.1f};
  float scale = r.chance(0.7) ? kScale[r.below(6)] : static_cast<float>(r.uni(0.1, 2));
  while (scale * std::min(c.w, c.h) < 3) scale *= 2;
  const int method = static_cast<int>(r.below(5));
  vf::detail(c.show() + vf::fmt(" alpha %g scale %.9g %s%s", alpha, scale, kMethod[method], pinhole ? " to pinhole" : ""));
  auto make = [&](float a) -> std::unique_ptr<MappedUndistorter> {
    if (pinhole) return createMappedUndistorterToPinhole(static_cast<const UnifiedProjectionCamera&>(*c.cam), a, scale, kMethods[method]);
    if (method % 2 == 0) return createMappedUndistorter<Camera>(*c.cam, a, scale, kMethods[method]);
    if (lens == kPin) return createMappedUndistorter(static_cast<const PinholeCamera&>(*c.cam), a, scale, kMethods[method]);
    return createMappedUndistorter(static_cast<const UnifiedProjectionCamera&>(*c.cam), a, scale, kMethods[method]);
  };
  // A usable output camera needs a rectangle that is not empty.
  std::unique_ptr<MappedUndistorter> u;
  const vf::Outcome outcome = vf::guarded([&] { u = make(alpha); });
  bool representable = true;
  for (int e = 0; e < 4; ++e) { V2 q; representable &= plane(c, e & 1 ? c.w : 0, e & 2 ? c.h : 0, pinhole, &q); }
  if (outcome != vf::kOk) {
    // The valid part may be empty, then no camera shows it.
    VF_EXPECT(!representable || alpha < 1, "create", "an undistorter could not be made: %s", vf::outcomeName(outcome));
    vf::count("no output camera");
    return;
  }
  const Camera& out = u->getOutputCamera();
  const VX p = out.getParameters();
  VF_EXPECT(u->getInputCamera() == *c.cam && &u->getInputCamera() != c.cam.get() && u->getInputCameraShared().get() == &u->getInputCamera() && u->getOutputCameraShared().get() == &out, "input", "the input camera is another one");
  VF_EXPECT(out.getType() == (lens == kPin || pinhole ? Camera::Type::kPinhole : Camera::Type::kUnifiedProjection) && out.getDistortion().getType() == Distortion::Type::kNoDistortion, "output", "the output camera has type %d, distortion %d", static_cast<int>(out.getType()), static_cast<int>(out.getDistortion().getType()));
  if (lens == kUni && !pinhole) VF_EXPECT(p[0] == c.intr[0], "output-xi", "the output camera has xi %g instead of %g", p[0], c.intr[0]);
  for (int k = 0; k < 2; ++k) {
    const double want = static_cast<double>(scale) * (k ? c.h : c.w), got = k ? out.imageHeight() : out.imageWidth();
    VF_EXPECT(got <= want + 1e-4 && got > want - 1 - 1e-4, "output-size", "%g pixels for %g x %g", got, static_cast<double>(scale), static_cast<double>(k ? c.h : c.w));
  }
  const int o = out.getType() == Camera::Type::kUnifiedProjection;
  if (p[o] > 0 && p[o + 1] > 0 && representable) {
    if (alpha == 0 || alpha == 1) expectFit(c, pinhole, out, alpha);
    else {
      std::unique_ptr<MappedUndistorter> u0, u1;
      if (vf::guarded([&] { u0 = make(0); u1 = make(1); }) == vf::kOk) {
        const VX a = u0->getOutputCamera().getParameters(), b = u1->getOutputCamera().getParameters();
        for (int k = 0; k < p.size(); ++k) VF_EXPECT(std::abs(p[k] - ((1 - static_cast<double>(alpha)) * a[k] + static_cast<double>(alpha) * b[k])) <= 1e-6 * (1 + std::abs(a[k]) + std::abs(b[k])), "alpha", "parameter %d is %.9g for alpha %g, %.9g for 0 and %.9g for 1", k, p[k], alpha, a[k], b[k]);
        vf::count("interpolations between the rectangles");
      }
    }
  }
  if (!(std::abs(p[o]) > 1e-3 && std::abs(p[o]) < 1e6 && std::abs(p[o + 1]) > 1e-3 && std::abs(p[o + 1]) < 1e6)) return;
  expectMaps(r, c, out, u->getUndistortMapU(), u->getUndistortMapV());
  static const int kTypes[] = {CV_8UC1, CV_8UC1, CV_8UC3, CV_16UC1, CV_32FC1};
  cv::Mat image = someImage(r, c.w, c.h, kTypes[r.below(5)]), got;
  if (r.chance(0.3)) got = cv::Mat(3, 3, CV_8UC1);
  const cv::Mat original = image.clone();
  const bool in_place = r.chance(0.1);
  if (!vf::mustReturn("process", "undistorting an image", [&] { u->processImage(image, in_place ? &image : &got); })) return;
  if (in_place) got = image;
  expectImage(c, out, original, got, method);
  vf::evaluated(vf::hashBytes(p.data(), p.size() * 8, method), true, c.show());
}

// Maps between any two cameras, in all formats.
void maps(Rng& r, uint64_t) {
  const int lens = static_cast<int>(r.below(2));
  const Cam c = smallCam(r, lens, r.chance(0.1));
  const int w = 4 + static_cast<int>(r.below(60)), h = 4 + static_cast<int>(r.below(60));
  const double f = r.chance(0.3) ? std::pow(10, r.uni(-2, 3)) : w / (2 * r.uni(0.2, 3));
  Camera::Ptr out;
  if (r.chance(0.5)) out.reset(new PinholeCamera(f, f * r.uni(0.8, 1.2), r.uni(0.3, 0.7) * w, r.uni(0.3, 0.7) * h, w, h));
  else out.reset(new UnifiedProjectionCamera(r.chance(0.3) ? r.below(3) : r.uni(0, 2.5), f, f * r.uni(0.8, 1.2), r.uni(0.3, 0.7) * w, r.uni(0.3, 0.7) * h, w, h));
  static const int kTypes[] = {CV_16SC2, CV_32FC1, CV_32FC2};
  const int type = kTypes[r.below(3)];
  cv::Mat mu, mv;
  if (r.chance(0.3)) { mu = cv::Mat(2, 2, CV_8UC1); mv = cv::Mat(5, 5, CV_8UC1); }
  VX op = out->getParameters();
  vf::detail(c.show() + " -> " + (out->getType() == Camera::Type::kPinhole ? "pinhole " : "unified ") + ::show(op) + vf::fmt(" %dx%d type %d", w, h, type));
  if (!vf::mustReturn("maps-return", "building maps", [&] { common::buildUndistortMap(*c.cam, *out, type, mu, mv); })) return;
  VF_EXPECT(mu.type() == type && (type == CV_32FC2 ? mv.empty() : mv.type() == (type == CV_16SC2 ? CV_16UC1 : CV_32FC1) && mv.size() == mu.size()), "maps-type", "maps of types %d and %d", mu.type(), mv.type());
  expectMaps(r, c, *out, mu, mv);
  if (type == CV_16SC2) {
    // Through externally provided maps.
    const int method = static_cast<int>(r.below(3));
    MappedUndistorter u(c.cam, out, mu, mv, kMethods[method]);
    VF_EXPECT(u.getInputCameraShared() == c.cam && u.getOutputCameraShared() == out, "external-cameras", "other cameras");
    cv::Mat image = someImage(r, c.w, c.h, CV_8UC1), got;
    u.processImage(image, &got);
    expectImage(c, *out, image, got, method);
  }
  vf::evaluated(vf::hashBytes(op.data(), op.size() * 8, type), true, c.show());
}

void refusals(Rng& r, uint64_t i) {
  const Cam c = smallCam(r, kPin);
  const PinholeCamera& pin = static_cast<const PinholeCamera&>(*c.cam);
  cv::Mat a(c.h, c.w, CV_16SC2, cv::Scalar(0, 0)), b(c.h, c.w, CV_16UC1, cv::Scalar(0)), out;
  const Cam u = smallCam(r, kUni);
  const UnifiedProjectionCamera& uni = static_cast<const UnifiedProjectionCamera&>(*u.cam);
  const Cam l = someCam(r, kLid);
  static const float kBad[] = {-0.01f, 1.01f, -1, 2};
  const int kind = static_cast<int>(i % 8);
  const vf::Outcome o = vf::guarded([&] {
    switch (kind) {
      case 0: createMappedUndistorter(pin, kBad[r.below(4)], 1, Method::Linear); break;
      case 1: createMappedUndistorter(pin, 0, r.chance(0.5) ? 0 : -1, Method::Linear); break;
      case 2: createMappedUndistorterToPinhole(uni, kBad[r.below(4)], 1, Method::Linear); break;
      case 3: createMappedUndistorterToPinhole(uni, 0, r.chance(0.5) ? 0 : -1, Method::Linear); break;
      case 4: createMappedUndistorter<Camera>(*l.cam, 0, 1, Method::Linear); break;
      case 5: MappedUndistorter(c.cam, c.cam, r.chance(0.5) ? a.rowRange(0, c.h - 1) : a.colRange(0, c.w - 1), b, Method::Linear); break;
      case 6: MappedUndistorter(c.cam, c.cam, a, r.chance(0.5) ? b.rowRange(0, c.h - 1) : b.colRange(0, c.w - 1), Method::Linear); break;
      default: {
        MappedUndistorter m(c.cam, c.cam, a, b, Method::Linear);
        m.processImage(r.chance(0.5) ? cv::Mat(c.h, c.w + 1, CV_8UC1) : cv::Mat(c.h - 1, c.w, CV_8UC1), &out);
      }
    }
  });
  VF_EXPECT(o == vf::kFatal, vf::fmt("refused-%d", kind), "kind %d: %s", kind, vf::outcomeName(o));
  vf::evaluated(kind, true, vf::fmt("kind %d", kind));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("mapped", vf::scale(500, 15000), mapped);
  vf::part("maps", vf::scale(1500, 40000), maps);
  vf::part("refusals", vf::scale(64, 160), refusals);
  return vf::finish();
}
