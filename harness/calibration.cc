// C28: calibration targets.   C29: conversion of undistortion maps.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <opencv2/imgproc/imgproc.hpp>
#include <aslam/calibration/target-base.h>
#include <aslam/calibration/target-observation.h>
#include <aslam/pipeline/test/convert-maps-legacy.h>

using vf::Rng;
using cv::Mat;
using aslam::calibration::TargetBase;
using aslam::calibration::TargetObservation;

namespace {
class Target : public TargetBase {
 public:
  Target(size_t rows, size_t cols, const Eigen::Matrix3Xd& p) : TargetBase(rows, cols, p) {}
};

struct Grid { size_t rows, cols; Eigen::Matrix3Xd points; double dx, dy; };
// A regular grid with every point marked by a random height.
Grid someGrid(Rng& r) {
  Grid g;
  g.rows = 1 + r.below(r.chance(0.2) ? 40 : 9);
  g.cols = 1 + r.below(r.chance(0.2) ? 40 : 9);
  g.dx = r.uni(0.01, 0.2) * (r.chance(0.1) ? -1 : 1);
  g.dy = r.uni(0.01, 0.2) * (r.chance(0.1) ? -1 : 1);
  const double x0 = r.uni(-1, 1), y0 = r.uni(-1, 1);
  g.points.resize(3, g.rows * g.cols);
  for (size_t i = 0; i < g.rows; ++i)
    for (size_t j = 0; j < g.cols; ++j) g.points.col(i * g.cols + j) << x0 + j * g.dx, y0 + i * g.dy, r.uni(-1, 1);
  return g;
}

void targets(Rng& r, uint64_t index) {
  Grid g = someGrid(r);
  const size_t n = g.rows * g.cols;
  vf::detail(vf::fmt("target of %zu rows and %zu columns", g.rows, g.cols));
  std::shared_ptr<Target> t;
  if (!vf::mustReturn("target:create", "creating a target", [&] { t = std::make_shared<Target>(g.rows, g.cols, g.points); })) return;
  VF_EXPECT(t->rows() == g.rows && t->cols() == g.cols && t->size() == n, "target:counts", "%zu rows %zu columns %zu points", t->rows(), t->cols(), t->size());
  VF_EXPECT(t->points() == g.points, "target:points", "the points differ from those given");
  std::set<size_t> ids;
  if (!vf::mustReturn("target:query", "asking for points", [&] {
        for (size_t i = 0; i < g.rows; ++i)
          for (size_t j = 0; j < g.cols; ++j) {
            const size_t id = t->gridCoordinatesToPoint(i, j);
            VF_EXPECT(id < n, "target:id", "(%zu,%zu) has id %zu of %zu", i, j, id, n);
            ids.insert(id);
            // The grid is stored row by row.
            VF_EXPECT(id == i * g.cols + j, "target:order", "(%zu,%zu) has id %zu", i, j, id);
            const Eigen::Vector3d p = t->gridPoint(i, j), q = t->point(id), e = t->points().col(id);
            const double* m = t->pointMutable(id);
            VF_EXPECT(p == q && p == e && m[0] == e(0) && m[1] == e(1) && m[2] == e(2), "target:agree", "point (%zu,%zu) differs between ways of asking for it", i, j);
            VF_EXPECT(p == g.points.col(i * g.cols + j), "target:position", "point (%zu,%zu) is another one", i, j);
            const std::pair<size_t, size_t> rc = t->pointToGridCoordinates(id);  // (column, row)
            VF_EXPECT(rc.first == j && rc.second == i, "target:coordinates", "id %zu is at column %zu row %zu, expected %zu and %zu", id, rc.first, rc.second, j, i);
          }
      })) return;
  VF_EXPECT(ids.size() == n, "target:distinct", "%zu ids for %zu points", ids.size(), n);
  const double w = std::fabs(g.dx * (g.cols - 1.0)), h = std::fabs(g.dy * (g.rows - 1.0));
  VF_EXPECT(std::fabs(t->width() - w) < 1e-9, "target:width", "width %.9g, expected %.9g", t->width(), w);
  VF_EXPECT(std::fabs(t->height() - h) < 1e-9, "target:height", "height %.9g, expected %.9g", t->height(), h);
  // A moved point moves for everyone, and alone.
  const size_t id = r.below(n);
  double* m = t->pointMutable(id);
  for (int k = 0; k < 3; ++k) m[k] = r.uni(5, 9);
  Eigen::Matrix3Xd e = g.points;
  e.col(id) << m[0], m[1], m[2];
  VF_EXPECT(t->points() == e && t->point(id) == e.col(id) && t->gridPoint(id / g.cols, id % g.cols) == e.col(id), "target:move", "moving point %zu is not seen, or moved others", id);
  // The extent is that of the points as they are.
  const double fx = r.uni(0.5, 3), fy = r.uni(0.5, 3);
  for (size_t i = 0; i < n; ++i) { double* q = t->pointMutable(i); q[0] = g.points(0, i) * fx; q[1] = g.points(1, i) * fy; }
  VF_EXPECT(std::fabs(t->width() - w * fx) < 1e-9 && std::fabs(t->height() - h * fy) < 1e-9, "target:extent", "a target scaled by %g and %g has extent %.9g x %.9g", fx, fy, t->width(), t->height());
  // Everything outside is refused.
  VF_EXPECT(vf::guarded([&] { t->point(n); }) != vf::kOk, "target:outside", "point %zu of %zu was returned", n, n);
  VF_EXPECT(vf::guarded([&] { t->pointMutable(n + r.below(5)); }) != vf::kOk, "target:outside", "a pointer beyond the points was returned");
  VF_EXPECT(vf::guarded([&] { t->gridCoordinatesToPoint(g.rows, 0); }) != vf::kOk, "target:outside", "row %zu of %zu was accepted", g.rows, g.rows);
  VF_EXPECT(vf::guarded([&] { t->gridCoordinatesToPoint(0, g.cols); }) != vf::kOk, "target:outside", "column %zu of %zu was accepted", g.cols, g.cols);
  VF_EXPECT(vf::guarded([&] { t->gridPoint(0, g.cols); }) != vf::kOk, "target:outside", "a point in column %zu of %zu was returned", g.cols, g.cols);
  const Eigen::Matrix3Xd wrong = Eigen::Matrix3Xd::Zero(3, n + 1 - 2 * (n > 1 && r.chance(0.5)));
  VF_EXPECT(vf::guarded([&] { Target bad(g.rows, g.cols, wrong); }) != vf::kOk, "target:wrong count", "%d points were accepted for %zu", static_cast<int>(wrong.cols()), n);
  VF_EXPECT(vf::guarded([&] { Target bad(0, g.cols, Eigen::Matrix3Xd(3, 0)); }) != vf::kOk, "target:empty", "a target without rows was accepted");
  vf::evaluated(vf::hashBytes(e.data(), e.size() * 8), n > 1, index < 2 ? vf::fmt("%zux%zu", g.rows, g.cols) : "");
  vf::count("target points asked for", n);
}

void observations(Rng& r, uint64_t index) {
  Grid g = someGrid(r);
  const size_t n = g.rows * g.cols;
  TargetBase::Ptr t = std::make_shared<Target>(g.rows, g.cols, g.points);
  std::vector<int> all(n);
  for (size_t i = 0; i < n; ++i) all[i] = static_cast<int>(i);
  for (size_t i = n; i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
  const double kind = r.uni();
  const size_t k = kind < 0.2 ? n : kind < 0.3 ? 0 : kind < 0.5 ? 1 : r.below(n + 1);
  Eigen::VectorXi ids(k);
  Eigen::Matrix2Xd pts(2, k);
  std::map<int, Eigen::Vector2d> model;
  for (size_t i = 0; i < k; ++i) { ids(i) = all[i]; pts.col(i) << r.uni(0, 640), r.uni(0, 480); model[all[i]] = pts.col(i); }
  if (r.chance(0.3)) {  // in increasing order, as detectors report them
    size_t i = 0;
    for (auto& m : model) { ids(i) = m.first; pts.col(i++) = m.second; }
  }
  const uint32_t w = 1 + static_cast<uint32_t>(r.below(2000)), h = 1 + static_cast<uint32_t>(r.below(2000));
  vf::detail(vf::fmt("%zu of %zux%zu corners observed", k, g.rows, g.cols));
  std::shared_ptr<TargetObservation> o;
  if (!vf::mustReturn("observation:create", "creating an observation", [&] { o = std::make_shared<TargetObservation>(t, h, w, ids, pts); })) return;
  VF_EXPECT(o->getTarget() == t && static_cast<const TargetObservation&>(*o).getTarget() == t, "observation:target", "another target");
  VF_EXPECT(o->getImageWidth() == w && o->getImageHeight() == h, "observation:image", "image %ux%u, expected %ux%u", o->getImageWidth(), o->getImageHeight(), w, h);
  VF_EXPECT(o->numObservedCorners() == k && o->allCornersObservered() == (k == n), "observation:counts", "%zu corners, all: %d; expected %zu of %zu", o->numObservedCorners(), o->allCornersObservered(), k, n);
  VF_EXPECT(o->getObservedCorners() == pts && o->getObservedCornerIds() == ids, "observation:lists", "the lists differ from those given");
  Eigen::Matrix3Xd tp;
  if (vf::mustReturn("observation:target points", "corresponding target points", [&] { tp = o->getCorrespondingTargetPoints(); })) {
    VF_EXPECT(tp.cols() == static_cast<int>(k), "observation:target points", "%d points for %zu corners", static_cast<int>(tp.cols()), k);
    for (size_t i = 0; i < k && tp.cols() == static_cast<int>(k); ++i) VF_EXPECT(tp.col(i) == g.points.col(ids(i)), "observation:target points", "corner %zu with id %d has another target point", i, ids(i));
  }
  for (size_t i = 0; i < k; ++i) {
    Eigen::Vector2d p;
    size_t id = 0;
    if (!vf::mustReturn("observation:by index", "corner by index", [&] { p = o->getObservedCorner(i); id = o->getObservedCornerId(static_cast<int>(i)); })) break;
    VF_EXPECT(p == pts.col(i) && id == static_cast<size_t>(ids(i)), "observation:by index", "corner %zu: id %zu, expected %d", i, id, ids(i));
  }
  for (size_t id = 0; id < n; ++id) {
    Eigen::Vector2d p(-7, -8);
    bool seen = false, found = false;
    if (!vf::mustReturn("observation:by id", "corner by id", [&] { seen = o->observedCornerId(id); found = o->getObservedCornerById(static_cast<int>(id), &p); })) break;
    const bool expect = model.count(static_cast<int>(id)) == 1;
    VF_EXPECT(seen == expect, "observation:seen", "corner %zu: seen %d, expected %d", id, seen, expect);
    VF_EXPECT(found == expect, "observation:found", "corner %zu: found %d, expected %d", id, found, expect);
    if (expect && found) VF_EXPECT(p == model[static_cast<int>(id)], "observation:position", "corner %zu at (%g,%g), expected (%g,%g)", id, p(0), p(1), model[static_cast<int>(id)](0), model[static_cast<int>(id)](1));
    if (!expect && !found) VF_EXPECT(p == Eigen::Vector2d(-7, -8), "observation:untouched", "a missing corner %zu changed the output", id);
  }
  VF_EXPECT(vf::guarded([&] { o->observedCornerId(n); }) != vf::kOk, "observation:outside", "corner id %zu of %zu was accepted", n, n);
  VF_EXPECT(vf::guarded([&] { o->getObservedCorner(k); }) != vf::kOk, "observation:outside", "corner %zu of %zu was returned", k, k);
  VF_EXPECT(vf::guarded([&] { o->getObservedCornerId(static_cast<int>(k)); }) != vf::kOk, "observation:outside", "the id of corner %zu of %zu was returned", k, k);
  const Eigen::Matrix2Xd wrong = Eigen::Matrix2Xd::Zero(2, k + 1);
  VF_EXPECT(vf::guarded([&] { TargetObservation bad(t, h, w, ids, wrong); }) != vf::kOk, "observation:mismatch", "%zu ids with %zu corners were accepted", k, k + 1);
  VF_EXPECT(vf::guarded([&] { TargetObservation bad(TargetBase::Ptr(), h, w, ids, pts); }) != vf::kOk, "observation:no target", "an observation without a target was accepted");
  if (r.chance(0.1)) {
    Mat img(r.chance(0.2) ? 60 : 480, r.chance(0.2) ? 80 : 640, CV_8UC3, cv::Scalar(0, 0, 0));
    if (vf::mustReturn("observation:draw", "drawing corners", [&] { o->drawCornersIntoImage(&img); })) {
      // Red around every corner within the image, and nowhere else.
      Mat near(img.size(), CV_8U, cv::Scalar(0));
      for (size_t i = 0; i < k; ++i) {
        const int x = static_cast<int>(pts(0, i)), y = static_cast<int>(pts(1, i));
        bool marked = x >= img.cols || y >= img.rows;
        for (int v = y - 6; v <= y + 7; ++v)
          for (int u = x - 6; u <= x + 7; ++u) {
            if (u < 0 || v < 0 || u >= img.cols || v >= img.rows) continue;
            near.at<uchar>(v, u) = 1;
            marked = marked || (std::abs(u - x) <= 2 && std::abs(v - y) <= 2 && img.at<cv::Vec3b>(v, u)[2] > 200);
          }
        VF_EXPECT(marked, "observation:drawn", "corner %zu at (%g,%g) is not marked", i, pts(0, i), pts(1, i));
      }
      long astray = 0;
      for (int v = 0; v < img.rows; ++v)
        for (int u = 0; u < img.cols; ++u) astray += !near.at<uchar>(v, u) && img.at<cv::Vec3b>(v, u) != cv::Vec3b(0, 0, 0);
      VF_EXPECT(astray == 0, "observation:drawn", "%ld pixels away from all corners were drawn", astray);
      vf::count("corners drawn", k);
    }
  }
  vf::evaluated(vf::hashBytes(ids.data(), ids.size() * 4, vf::hashBytes(pts.data(), pts.size() * 8)), k > 0, index < 2 ? vf::fmt("%zu of %zu", k, n) : "");
  if (k > 0 && k < n) vf::count("partial observations");
}

// ---------------------------------------------------------------------------
// C29
const char* typeName(int t) { return t == CV_16SC2 ? "16SC2" : t == CV_16UC1 ? "16UC1" : t == CV_16SC1 ? "16SC1" : t == CV_32FC1 ? "32FC1" : t == CV_32FC2 ? "32FC2" : t == CV_8UC1 ? "8UC1" : t == CV_64FC1 ? "64FC1" : t == CV_32FC3 ? "32FC3" : t == CV_16UC2 ? "16UC2" : "other"; }
// A matrix of its own, or part of a larger one.
Mat place(Rng& r, int h, int w, int type) {
  if (r.chance(0.6)) return Mat(h, w, type, cv::Scalar(0, 0, 0, 0));
  Mat big(h + 2, w + 5, type, cv::Scalar(77, 77, 77, 77));
  return big(cv::Rect(3, 1, w, h));
}
struct Maps { Mat a, b; std::vector<double> x, y; };  // x, y: the coordinates as represented
double coordinate(Rng& r) {
  const double k = r.uni();
  if (k < 0.5) return r.uni(-20, 800);
  if (k < 0.7) return r.range(-20, 800) + r.range(0, 63) / 64.0;  // halfway between fixed-point values
  if (k < 0.85) return r.range(-40, 40);
  if (k < 0.9) return (r.chance(0.5) ? 1 : -1) * std::pow(10, r.uni(4.516, 7.8));  // too far out for a fixed-point map
  return r.uni(-32700, 32700);
}
Maps someMaps(Rng& r, int h, int w, int kind) {  // 0: two float maps, 1: one float map, 2: fixed point, 3: fixed point, swapped, 4: integers only
  Maps m;
  m.x.resize(h * w);
  m.y.resize(h * w);
  if (kind == 0) { m.a = place(r, h, w, CV_32FC1); m.b = place(r, h, w, CV_32FC1); }
  else if (kind == 1) m.a = place(r, h, w, CV_32FC2);
  else { m.a = place(r, h, w, CV_16SC2); if (kind != 4) m.b = place(r, h, w, r.chance(0.7) ? CV_16UC1 : CV_16SC1); }
  for (int i = 0; i < h; ++i)
    for (int j = 0; j < w; ++j) {
      double& x = m.x[i * w + j];
      double& y = m.y[i * w + j];
      if (kind < 2) {
        const float fx = static_cast<float>(coordinate(r)), fy = static_cast<float>(coordinate(r));
        x = fx;
        y = fy;
        if (kind == 0) { m.a.at<float>(i, j) = fx; m.b.at<float>(i, j) = fy; }
        else m.a.at<cv::Vec2f>(i, j) = cv::Vec2f(fx, fy);
      } else {
        const short ix = static_cast<short>(r.chance(0.2) ? r.range(-32768, 32767) : r.range(-30, 800)), iy = static_cast<short>(r.chance(0.2) ? r.range(-32768, 32767) : r.range(-30, 800));
        const int f = kind == 4 ? 0 : static_cast<int>(r.below(1024));
        m.a.at<cv::Vec2s>(i, j) = cv::Vec2s(ix, iy);
        if (kind != 4) m.b.at<ushort>(i, j) = static_cast<ushort>(f);
        x = ix + (f % 32) / 32.0;
        y = iy + (f / 32) / 32.0;
      }
    }
  if (kind == 3) std::swap(m.a, m.b);
  return m;
}
uint64_t hashMat(const Mat& m) { uint64_t h = static_cast<uint64_t>(m.rows) * 100003 + m.cols * 17 + m.type(); for (int i = 0; i < m.rows; ++i) h = vf::hashBytes(m.ptr(i), m.cols * m.elemSize(), h); return h; }

void conversions(Rng& r, uint64_t index) {
  const int h = r.chance(0.1) ? 1 : 1 + static_cast<int>(r.below(12)), w = r.chance(0.1) ? 1 : 1 + static_cast<int>(r.below(40));
  const bool nn = r.chance(0.3);
  const int kind = static_cast<int>(r.below(nn ? 5 : 4));
  static const int targets[] = {CV_16SC2, CV_32FC1, CV_32FC2, 0, -1};
  int target = targets[r.below(5)];
  // Two float maps of nearest-neighbour coordinates lose their second half or
  // crash: a recorded finding with cases of its own.
  if (nn && target == CV_32FC1) target = CV_32FC2;
  Maps m = someMaps(r, h, w, kind);
  const bool fixedIn = kind >= 2;
  const int m1 = fixedIn ? CV_16SC2 : kind == 0 ? CV_32FC1 : CV_32FC2;
  const int real = target > 0 ? target : fixedIn ? CV_32FC2 : CV_16SC2;
  const Mat& table = kind == 3 ? m.a : m.b;
  // Copying fixed-point maps with a signed table: another recorded finding.
  if (!nn && fixedIn && real == CV_16SC2 && !table.empty() && table.type() == CV_16SC1) return;
  const int reuse = static_cast<int>(r.below(4));
  Mat d1, d2;
  if (reuse == 1) { d1 = Mat(h, w, CV_8U, cv::Scalar(3)); d2 = Mat(2, 2, CV_8U, cv::Scalar(3)); }
  if (reuse == 2) { d1 = place(r, h, w, real); d2 = place(r, h, w, real == CV_16SC2 ? CV_16UC1 : CV_32FC1); }
  vf::detail(vf::fmt("%dx%d maps (%s, %s%s) to %s%s, outputs %d", h, w, m.a.empty() ? "-" : typeName(m.a.type()), m.b.empty() ? "-" : typeName(m.b.type()), kind == 3 ? ", swapped" : "", target > 0 ? typeName(target) : "default", nn ? ", nearest neighbour" : "", reuse));
  const uint64_t ha = hashMat(m.a), hb = hashMat(m.b);
  if (!vf::mustReturn("convert:returns", "converting maps", [&] { aslam::convertMapsLegacy(m.a, m.b, d1, d2, target, nn); })) return;
  VF_EXPECT(ha == hashMat(m.a) && hb == hashMat(m.b), "convert:input", "the given maps changed");
  const bool two = real == CV_32FC1 || (real == CV_16SC2 && !nn);
  bool ok = d1.size() == cv::Size(w, h) && d1.type() == real;
  VF_EXPECT(ok, "convert:first", "the first map is %dx%d of %s", d1.rows, d1.cols, typeName(d1.type()));
  const bool ok2 = two ? d2.size() == cv::Size(w, h) && d2.type() == (real == CV_32FC1 ? CV_32FC1 : CV_16UC1) : d2.empty();
  VF_EXPECT(ok2, "convert:second", "the second map is %dx%d of %s", d2.rows, d2.cols, typeName(d2.type()));
  if (!ok || !ok2) return;
  double worst = 0;
  for (int i = 0; i < h; ++i)
    for (int j = 0; j < w; ++j) {
      double x, y;
      if (real == CV_32FC1) { x = d1.at<float>(i, j); y = d2.at<float>(i, j); }
      else if (real == CV_32FC2) { x = d1.at<cv::Vec2f>(i, j)[0]; y = d1.at<cv::Vec2f>(i, j)[1]; }
      else {
        x = d1.at<cv::Vec2s>(i, j)[0];
        y = d1.at<cv::Vec2s>(i, j)[1];
        if (two) {
          const int f = d2.at<ushort>(i, j);
          VF_EXPECT(f < 1024, "convert:table", "table entry %d", f);
          x += (f % 32) / 32.0;
          y += (f / 32) / 32.0;
        }
      }
      // What each step may lose: half a fixed-point unit, half a pixel to the
      // nearest neighbour, the fraction when only whole coordinates are asked for.
      double tol = 1e-7 * 0;
      if (real == CV_16SC2 && m1 != CV_16SC2) tol = nn ? 0.5 : 1.0 / 64;
      const double ex = m.x[i * w + j], ey = m.y[i * w + j];
      const bool dropped = nn && fixedIn && (real == CV_32FC2 || real == CV_16SC2);
      const double rx = dropped ? std::floor(ex) : ex, ry = dropped ? std::floor(ey) : ey;
      // The whole part of fixed-point maps is stored separately.
      // What lies outside of a fixed-point map's range stays at its end.
      const bool fixedOut = real == CV_16SC2;
      const double dx = std::fabs(x - rx), dy = std::fabs(y - ry);
      const bool farX = fixedOut && std::fabs(rx) > 32700, farY = fixedOut && std::fabs(ry) > 32700;
      auto farOk = [](double got, double want) { return want > 0 ? got >= std::min(want, 32767.0) - 1 : got <= std::max(want, -32768.0) + 1; };
      if (!farX && !farY) worst = std::max(worst, std::max(dx, dy));
      else vf::count("coordinates beyond the fixed-point range");
      VF_EXPECT((farX ? farOk(x, rx) : dx <= tol + 1e-6) && (farY ? farOk(y, ry) : dy <= tol + 1e-6), "convert:coordinate", "pixel (%d,%d): (%.9g, %.9g) became (%.9g, %.9g)", j, i, rx, ry, x, y);
    }
  vf::maxOf("coordinate change", worst);
  vf::evaluated(hashMat(d1) * 31 + hashMat(d2), true, index < 3 ? vf::fmt("%dx%d %s to %s", h, w, typeName(m1), typeName(real)) : "");
  vf::count(std::string("conversions ") + typeName(m1) + " to " + typeName(real) + (nn ? " nearest" : ""));
}

// There and back: the values agree up to the resolution, and a second round changes nothing.
void roundTrips(Rng& r, uint64_t) {
  const int h = 1 + static_cast<int>(r.below(9)), w = 1 + static_cast<int>(r.below(30));
  Maps m = someMaps(r, h, w, static_cast<int>(r.below(2)));
  const int back = r.chance(0.5) ? CV_32FC1 : CV_32FC2;
  vf::detail(vf::fmt("%dx%d maps to fixed point and back to %s", h, w, typeName(back)));
  Mat f1, f2, b1, b2, g1, g2;
  if (!vf::mustReturn("round trip:returns", "converting maps", [&] { aslam::convertMapsLegacy(m.a, m.b, f1, f2, CV_16SC2, false); aslam::convertMapsLegacy(f1, f2, b1, b2, back, false); aslam::convertMapsLegacy(b1, b2, g1, g2, CV_16SC2, false); })) return;
  VF_EXPECT(hashMat(f1) == hashMat(g1) && hashMat(f2) == hashMat(g2), "round trip:stable", "converting back and forth again changes the fixed-point maps");
  for (int i = 0; i < h; ++i)
    for (int j = 0; j < w; ++j) {
      const double x = back == CV_32FC1 ? b1.at<float>(i, j) : b1.at<cv::Vec2f>(i, j)[0], y = back == CV_32FC1 ? b2.at<float>(i, j) : b1.at<cv::Vec2f>(i, j)[1];
      if (std::fabs(m.x[i * w + j]) > 32700 || std::fabs(m.y[i * w + j]) > 32700) continue;  // beyond the range
      VF_EXPECT(std::fabs(x - m.x[i * w + j]) <= 1.0 / 64 + 1e-6 && std::fabs(y - m.y[i * w + j]) <= 1.0 / 64 + 1e-6, "round trip:coordinate", "(%.9g, %.9g) came back as (%.9g, %.9g)", m.x[i * w + j], m.y[i * w + j], x, y);
    }
  vf::evaluated(hashMat(b1), true);
}

// Combinations outside the documented ones are refused.
void unsupported(Rng& r, uint64_t) {
  static const int ins[] = {CV_16SC2, CV_16UC1, CV_16SC1, CV_32FC1, CV_32FC2, CV_8UC1, CV_64FC1, CV_32FC3, CV_16UC2, -1};
  static const int outs[] = {CV_16SC2, CV_32FC1, CV_32FC2, 0, CV_8UC1, CV_64FC1, CV_16UC1, CV_16SC1, CV_32FC3};
  const int h = 1 + static_cast<int>(r.below(5)), w = 1 + static_cast<int>(r.below(9));
  const int t1 = ins[r.below(10)], t2 = ins[r.below(10)], out = outs[r.below(9)];
  Mat a, b;
  if (t1 >= 0) a = Mat(h, w, t1, cv::Scalar(1, 1, 1));
  if (t2 >= 0) b = Mat(h, w, t2, cv::Scalar(1, 1, 1));
  vf::detail(vf::fmt("%s and %s to type %d", t1 < 0 ? "-" : typeName(t1), t2 < 0 ? "-" : typeName(t2), out));
  auto table = [](int t) { return t == CV_16UC1 || t == CV_16SC1; };
  const bool inOk = (t1 == CV_16SC2 && table(t2)) || (t2 == CV_16SC2 && table(t1)) || (t1 == CV_32FC1 && t2 == CV_32FC1) || (t1 == CV_32FC2 && t2 < 0);
  const bool outOk = out == CV_16SC2 || out == CV_32FC1 || out == CV_32FC2 || out <= 0;
  // No first map at all with a fixed-point second one falls out of the type test.
  if (t1 < 0 || (t1 < 0 && t2 < 0)) return;
  Mat d1, d2;
  std::string ex;
  const vf::Outcome o = vf::guarded([&] { aslam::convertMapsLegacy(a, b, d1, d2, out, false); }, &ex);
  if (inOk && outOk) VF_EXPECT(o == vf::kOk, "unsupported:refused", "a supported combination was refused: %s", ex.c_str());
  else VF_EXPECT(o == vf::kThrew, "unsupported:accepted", "an unsupported combination: the call %s", vf::outcomeName(o));
  vf::evaluated(t1 * 4096 + t2 * 64 + out + h * 1000003 + w * 7919, true);
}

// Recorded findings, one fixed input each.
void signedTable(Rng&, uint64_t) {
  Mat a(2, 3, CV_16SC2, cv::Scalar(4, 5)), b(2, 3, CV_16SC1, cv::Scalar(33)), d1, d2(2, 3, CV_16UC1, cv::Scalar(999));
  vf::detail("2x3 maps 16SC2 with a 16SC1 table copied to 16SC2");
  if (!vf::mustReturn("signed table:returns", "copying maps", [&] { aslam::convertMapsLegacy(a, b, d1, d2, CV_16SC2, false); })) return;
  VF_EXPECT(d2.at<ushort>(1, 2) == 33, "finding:signed table not copied", "the table entry is %d, expected 33", d2.at<ushort>(1, 2));
  vf::evaluated(1);
}
void nearestTwoMaps(Rng&, uint64_t) {
  Mat a(2, 3, CV_32FC1, cv::Scalar(4)), b(2, 3, CV_32FC1, cv::Scalar(7)), d1, d2;
  vf::detail("2x3 maps of two 32FC1 to 32FC1, nearest neighbour");
  if (!vf::mustReturn("nearest:returns", "copying maps", [&] { aslam::convertMapsLegacy(a, b, d1, d2, CV_32FC1, true); })) return;
  VF_EXPECT(!d2.empty() && d2.at<float>(1, 2) == 7, "finding:nearest neighbour drops the second float map", "the second map is %s", d2.empty() ? "empty" : "wrong");
  vf::evaluated(2);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  if (vf::opts().property == "C28") {
    vf::part("targets", vf::scale(4000, 60000), targets);
    vf::part("observations", vf::scale(6000, 100000), observations);
  } else {
    vf::part("conversions", vf::scale(30000, 500000), conversions);
    vf::part("round trips", vf::scale(10000, 200000), roundTrips);
    vf::part("unsupported", vf::scale(5000, 30000), unsupported);
    vf::part("finding: signed table", 1, signedTable);
    vf::part("finding: nearest neighbour", 1, nearestTwoMaps);
  }
  return vf::finish();
}
