// C23: line segment detection.   C24: segment filters and comparisons.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <opencv2/imgproc/imgproc.hpp>
#include <aslam/detectors/line-segment-detector.h>
#include <map>
#include "lsd_ref.h"

using vf::Rng;
using cv::Mat;
using cv::Vec4i;
typedef std::vector<Vec4i> Segs;

namespace {
struct Setting { int refine; double scale, sigma, quant, ang, eps, density; int bins; };
std::string show(const Setting& s) { return vf::fmt("refine %d scale %g sigma %g quant %g angle %g eps %g density %g bins %d", s.refine, s.scale, s.sigma, s.quant, s.ang, s.eps, s.density, s.bins); }
cv::Ptr<aslamcv::LineSegmentDetector> make(const Setting& s) { return aslamcv::createLineSegmentDetectorPtr(s.refine, s.scale, s.sigma, s.quant, s.ang, s.eps, s.density, s.bins); }
const Setting kRepo = {1, 0.8, 0.6, 2.0, 16.5, 0.0, 0.65, 1024};
Setting someSetting(Rng& r) {
  if (r.chance(0.3)) return kRepo;
  static const double scales[] = {0.8, 1.0, 0.5, 0.33, 0.95, 0.8, 1.0, 1.5, 2.0};
  static const double angs[] = {22.5, 16.5, 10, 45, 5, 22.5};
  Setting s = {static_cast<int>(r.below(3)), scales[r.below(9)], r.uni(0.3, 1.2), r.chance(0.2) ? 0.0 : r.uni(0.5, 5), angs[r.below(6)], r.uni(-1, 2), r.chance(0.2) ? 0.0 : r.uni(0.3, 0.95), r.chance(0.3) ? static_cast<int>(1 + r.below(8)) : 1024};
  return s;
}
uint64_t hashMat(const Mat& m) { uint64_t h = static_cast<uint64_t>(m.rows) * 100003 + m.cols; for (int i = 0; i < m.rows; ++i) h = vf::hashBytes(m.ptr(i), m.cols * m.elemSize(), h); return h; }
std::string show(const Vec4i& s) { return vf::fmt("(%d,%d)-(%d,%d)", s[0], s[1], s[2], s[3]); }

// Images meant to provoke: noise, flat, stripes, checkers, single rows, saturated.
Mat hostileImage(Rng& r, std::string* what) {
  int w = 1 + static_cast<int>(r.below(60)), h = 1 + static_cast<int>(r.below(60));
  if (r.chance(0.15)) w = 1 + static_cast<int>(r.below(4));
  if (r.chance(0.15)) h = 1 + static_cast<int>(r.below(4));
  if (r.chance(0.1)) w += 150;
  Mat m(h, w, CV_8U);
  const int style = static_cast<int>(r.below(9));
  static const char* names[] = {"noise", "flat", "vertical stripes", "horizontal stripes", "checkers", "ramp", "disc", "salt", "walk"};
  *what = vf::fmt("%s %dx%d", names[style], w, h);
  const int period = 1 + static_cast<int>(r.below(12)), base = static_cast<int>(r.below(256)), other = r.chance(0.5) ? 255 - base : static_cast<int>(r.below(256));
  const double gx = r.uni(-6, 6), gy = r.uni(-6, 6), cx = r.uni(0, w), cy = r.uni(0, h), rad = r.uni(1, 30);
  int walk = base;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      int v = base;
      switch (style) {
        case 0: v = static_cast<int>(r.below(256)); break;
        case 1: break;
        case 2: v = (x / period) % 2 ? base : other; break;
        case 3: v = (y / period) % 2 ? base : other; break;
        case 4: v = (x / period + y / period) % 2 ? base : other; break;
        case 5: v = static_cast<int>(base + gx * x + gy * y); break;
        case 6: v = std::hypot(x - cx, y - cy) < rad ? base : other; break;
        case 7: v = r.chance(0.05) ? 255 : 0; break;
        default: walk += static_cast<int>(r.range(-20, 20)); v = walk; break;
      }
      m.at<uchar>(y, x) = cv::saturate_cast<uchar>(v);
    }
  return m;
}

Mat render(int w, int h, const std::vector<std::vector<cv::Point2d>>& polys, int dark, int light, Rng& r, double noise);
bool sameSegs(const Segs& a, const Segs& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }

// An end is the projection of a point of the region onto its main axis: it is
// off that point by at most the width of the region, before the refinement
// narrowed it (three times five steps of half a pixel).
double outside(const Setting& s, double width) { return 1 + width + (0.5 + (s.refine == 2 ? 7.5 : 0)) / s.scale; }

// Any image, any setting: no memory errors, repeatable, finite, inside.
void hostile(Rng& r, uint64_t) {
  std::string what;
  Mat m = hostileImage(r, &what);
  Setting s = someSetting(r);
  // A scale that leaves no pixel is refused by the image library.
  while (std::min(m.rows, m.cols) * s.scale < 1) s.scale = 1.0;
  vf::detail(what + ", " + show(s));
  Segs a, b, c, d;
  std::vector<double> w, p, n, w2;
  cv::Ptr<aslamcv::LineSegmentDetector> det;
  if (!vf::mustReturn("create", "creating the detector", [&] { det = make(s); })) return;
  if (!vf::mustReturn("detect", "detecting", [&] {
        if (s.refine == 2) det->detect(m, a, w, p, n); else det->detect(m, a, w, p);
      })) return;
  VF_EXPECT(w.size() == a.size() && p.size() == a.size(), "detect:extras", "%zu segments, %zu widths, %zu precisions", a.size(), w.size(), p.size());
  if (s.refine == 2) {
    VF_EXPECT(n.size() == a.size(), "detect:nfa", "%zu segments, %zu false alarm figures", a.size(), n.size());
    for (double v : n) VF_EXPECT(v > s.eps, "detect:nfa", "a figure of %g with threshold %g", v, s.eps);
  }
  for (double v : p) VF_EXPECT(v > 0 && v <= s.ang / 180 + 1e-12, "detect:precision", "precision %g with tolerance %g", v, s.ang / 180);
  for (double v : w) VF_EXPECT(std::isfinite(v) && v >= (s.refine == 2 ? 0.499 : 0.999) / s.scale && v <= 2 * (m.rows + m.cols) + 4, "detect:width", "width %g", v);
  // Again, on the same detector (after another image) and on a fresh one, and without extras.
  vf::mustReturn("detect:again", "detecting again", [&] {
    if (r.chance(0.5)) { std::string w3; Rng r2(r.next()); Mat o = hostileImage(r2, &w3); if (std::min(o.rows, o.cols) * s.scale >= 1) { Segs t; det->detect(o, t); } }
    det->detect(m, b);
    make(s)->detect(m, c, w2);
    // As part of a larger image.
    Mat big(m.rows + 5, m.cols + 7, CV_8U, cv::Scalar(77));
    m.copyTo(big(cv::Rect(3, 2, m.cols, m.rows)));
    make(s)->detect(big(cv::Rect(3, 2, m.cols, m.rows)), d);
  });
  VF_EXPECT(sameSegs(a, b), "repeat:same", "the same detector found %zu, then %zu segments", a.size(), b.size());
  VF_EXPECT(sameSegs(a, c), "repeat:fresh", "a fresh detector found %zu instead of %zu segments", c.size(), a.size());
  if (s.scale == 1) VF_EXPECT(sameSegs(a, d), "repeat:view", "%zu segments in a view, %zu in its copy", d.size(), a.size());
  VF_EXPECT(w.size() != w2.size() || w == w2, "repeat:width", "the widths differ");
  // Endpoints lie in the image, up to the width of the region they come from.
  for (size_t i = 0; i < a.size(); ++i) {
    const double margin = outside(s, i < w.size() ? w[i] : 0);
    const Vec4i& v = a[i];
    for (int e = 0; e < 2; ++e) {
      const double x = v[2 * e], y = v[2 * e + 1];
      vf::maxOf("pixels outside", std::max(std::max(-x, -y), std::max(x - m.cols + 1, y - m.rows + 1)));
      VF_EXPECT(x >= -margin && y >= -margin && x <= m.cols - 1 + margin && y <= m.rows - 1 + margin, "inside", "segment %s of width %g in %dx%d", show(v).c_str(), w[i], m.cols, m.rows);
    }
  }
  vf::count("segments in hostile images", a.size());
  vf::evaluated(hashMat(m) ^ vf::hashStr(show(s)), !a.empty(), what + ", " + show(s) + vf::fmt(": %zu segments", a.size()));
}

// A picture of the size cameras take, with many edges.
Mat largeImage(Rng& r, std::string* what) {
  const int w = 120 + static_cast<int>(r.below(500)), h = 100 + static_cast<int>(r.below(380));
  Mat m(h, w, CV_8U, cv::Scalar(static_cast<double>(r.below(256))));
  const int shapes = 1 + static_cast<int>(r.below(120));
  for (int i = 0; i < shapes; ++i) {
    const cv::Point a(static_cast<int>(r.range(-20, w + 20)), static_cast<int>(r.range(-20, h + 20))), b(a.x + static_cast<int>(r.range(-90, 90)), a.y + static_cast<int>(r.range(-90, 90)));
    const cv::Scalar v(static_cast<double>(r.below(256)));
    switch (r.below(4)) {
      case 0: cv::rectangle(m, a, b, v, -1); break;
      case 1: cv::line(m, a, b, v, 1 + static_cast<int>(r.below(9)), cv::LINE_8); break;
      case 2: { const cv::Point c(a.x + static_cast<int>(r.range(-90, 90)), a.y + static_cast<int>(r.range(-90, 90))); std::vector<cv::Point> t = {a, b, c}; cv::fillConvexPoly(m, t, v); break; }
      default: cv::circle(m, a, static_cast<int>(r.below(40)), v, r.chance(0.5) ? -1 : 2); break;
    }
  }
  if (r.chance(0.3)) cv::GaussianBlur(m, m, cv::Size(0, 0), r.uni(0.5, 2));
  *what = vf::fmt("%d shapes on %dx%d", shapes, w, h);
  return m;
}

// The method, written down once more, gives the same segments and figures.
void method(Rng& r, uint64_t index) {
  std::string what;
  Mat m = r.chance(0.5) ? hostileImage(r, &what) : largeImage(r, &what);
  if (m.cols > 260 || m.rows > 200) m = m(cv::Rect(0, 0, std::min(m.cols, 260), std::min(m.rows, 200))).clone();
  if (m.cols > 60 && r.chance(0.5)) for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) m.at<uchar>(y, x) = cv::saturate_cast<uchar>(m.at<uchar>(y, x) + r.uni(-1, 1) * static_cast<double>(index % 40));
  Setting s = someSetting(r);
  if (r.chance(0.4)) s.refine = 2;
  while (std::min(m.rows, m.cols) * s.scale < 1) s.scale = 1.0;
  vf::detail(what + ", " + show(s));
  Segs a;
  std::vector<double> w, p, n;
  if (!vf::mustReturn("detect", "detecting", [&] { if (s.refine == 2) make(s)->detect(m, a, w, p, n); else make(s)->detect(m, a, w, p); })) return;
  lsdref::Lsd ref({s.refine, s.scale, s.sigma, s.quant, s.ang, s.eps, s.density});
  const std::vector<lsdref::Found> f = ref.run(m);
  vf::maxOf("figure off the exact binomial tail beyond 6 %", ref.worst());
  bool same = f.size() == a.size() && w.size() == a.size() && p.size() == a.size() && (s.refine != 2 || n.size() == a.size());
  std::string first = same ? "" : vf::fmt("%zu segments instead of %zu", a.size(), f.size());
  for (size_t i = 0; i < std::min(a.size(), f.size()) && first.find("segment ") == std::string::npos; ++i) {
    const bool line = a[i] == f[i].line, figures = i < w.size() && i < p.size() && std::fabs(w[i] - f[i].width) <= 1e-6 * (1 + w[i]) && std::fabs(p[i] - f[i].p) <= 1e-9 && (s.refine != 2 || (i < n.size() && std::fabs(n[i] - f[i].nfa) <= 1e-6 * (1 + std::fabs(n[i]))));
    if (line && figures) continue;
    same = false;
    first += vf::fmt(" segment %zu: %s width %g precision %g figure %g, expected %s %g %g %g", i, show(a[i]).c_str(), i < w.size() ? w[i] : -1, i < p.size() ? p[i] : -1, i < n.size() ? n[i] : -1, show(f[i].line).c_str(), f[i].width, f[i].p, f[i].nfa);
  }
  // A decision may fall either way where two numbers are equal but for rounding: rarely.
  static int compared[3] = {0, 0, 0}, apart[3] = {0, 0, 0};
  ++compared[s.refine];
  if (!same) { ++apart[s.refine]; vf::count("pictures where rounding decided"); }
  VF_EXPECT(same || apart[s.refine] < 3 || apart[s.refine] * 30 < compared[s.refine], vf::fmt("method:%d", s.refine), "%d of %d pictures differ:%s", apart[s.refine], compared[s.refine], first.c_str());
  vf::count("segments recomputed", f.size());
  vf::evaluated(hashMat(m) ^ vf::hashStr(show(s)), !a.empty(), index < 2 ? what + vf::fmt(": %zu segments", a.size()) : "");
}

// One detector for a sequence of pictures of changing size: every answer is that of a fresh one.
void sequence(Rng& r, uint64_t) {
  Setting s = r.chance(0.5) ? kRepo : someSetting(r);
  std::string all = show(s) + ":";
  cv::Ptr<aslamcv::LineSegmentDetector> det;
  if (!vf::mustReturn("create", "creating the detector", [&] { det = make(s); })) return;
  const int n = 2 + static_cast<int>(r.below(4));
  std::vector<Mat> seen;
  size_t total = 0;
  uint64_t h = 0;
  for (int i = 0; i < n; ++i) {
    std::string what;
    Mat m = r.chance(0.6) ? largeImage(r, &what) : hostileImage(r, &what);
    if (i && r.chance(0.3)) { m = seen[r.below(i)].clone(); what = "an earlier one"; }
    else if (i && r.chance(0.3)) { Mat t; cv::resize(m, t, seen[i - 1].size()); m = t; what += " resized"; }
    seen.push_back(m);
    if (std::min(m.rows, m.cols) * s.scale < 1) continue;
    all += " " + what;
    vf::detail(all);
    const Mat keep = m.clone();
    Segs a(r.below(4), Vec4i(1, 2, 3, 4)), b;
    std::vector<double> wa(r.below(3), 7.0), pa, na, wb, pb, nb;
    if (!vf::mustReturn("sequence", "detecting in a sequence", [&] {
          if (s.refine == 2) { det->detect(m, a, wa, pa, na); make(s)->detect(m, b, wb, pb, nb); }
          else { det->detect(m, a, wa, pa); make(s)->detect(m, b, wb, pb); }
        })) return;
    VF_EXPECT(sameSegs(a, b), "sequence:segments", "picture %d: %zu segments, a fresh detector finds %zu", i, a.size(), b.size());
    VF_EXPECT(wa == wb && pa == pb && na == nb && wa.size() == a.size(), "sequence:extras", "picture %d: %zu segments with %zu and %zu widths", i, a.size(), wa.size(), wb.size());
    VF_EXPECT(cv::norm(m, keep, cv::NORM_INF) == 0, "sequence:input", "the picture changed");
    for (size_t k = 0; k < a.size(); ++k)
      for (int e = 0; e < 2; ++e) {
        const double margin = outside(s, k < wa.size() ? wa[k] : 0), x = a[k][2 * e], y = a[k][2 * e + 1];
        VF_EXPECT(x >= -margin && y >= -margin && x <= m.cols - 1 + margin && y <= m.rows - 1 + margin, "inside", "segment %s of width %g in %dx%d", show(a[k]).c_str(), wa[k], m.cols, m.rows);
      }
    total += a.size();
    vf::maxOf("segments in one picture", a.size());
    h = h * 31 + hashMat(m);
  }
  vf::evaluated(h ^ vf::hashStr(show(s)), total > 0, all + vf::fmt(" %zu segments", total));
}

// What is seen does not depend on where in an evenly lit picture it is.
void moved(Rng& r, uint64_t) {
  Setting s = r.chance(0.4) ? kRepo : someSetting(r);
  static const double scales[] = {1.0, 0.8, 0.5, 1.0};
  s.scale = scales[r.below(4)];
  const int unit = s.scale == 0.8 ? 5 : s.scale == 0.5 ? 2 : 1;
  std::string what;
  Mat small;
  if (r.chance(0.6)) {
    std::vector<std::vector<cv::Point2d>> polys;
    for (size_t i = 1 + r.below(3); i; --i) {
      const cv::Point2d c(r.uni(12, 60), r.uni(12, 60));
      const double a = r.uni(0, 6.28), la = r.uni(5, 25), lb = r.uni(4, 20);
      const cv::Point2d u(std::cos(a), std::sin(a)), v(-u.y, u.x);
      polys.push_back({c + u * la + v * lb, c + u * la - v * lb, c - u * la - v * lb, c - u * la + v * lb});
    }
    small = render(72, 72, polys, 20, 220, r, 0);
    what = "rectangles";
  } else small = hostileImage(r, &what);
  const int base = static_cast<int>(r.below(256)), border = 14;
  const int mx = unit * static_cast<int>(r.below(12)), my = unit * static_cast<int>(r.below(12));
  // The size leaves room for both.
  Mat first(small.rows + 2 * border + my + 10, small.cols + 2 * border + mx + 10, CV_8U, cv::Scalar(base)), second = first.clone();
  const int ox = 15, oy = 15;
  small.copyTo(first(cv::Rect(ox - 1, oy - 1, small.cols, small.rows)));
  small.copyTo(second(cv::Rect(ox - 1 + mx, oy - 1 + my, small.cols, small.rows)));
  vf::detail(what + vf::fmt(" %dx%d on %d moved by (%d, %d), ", small.cols, small.rows, base, mx, my) + show(s));
  Segs p, q;
  std::vector<double> wp, wq;
  if (!vf::mustReturn("moved", "detecting", [&] { make(s)->detect(first, p, wp); make(s)->detect(second, q, wq); })) return;
  // Rescaling rounds differently in other places, and near ties may be decided
  // differently; the whole picture may not.
  auto missing = [](const Segs& from, const Segs& in, int dx, int dy) {
    size_t n = 0;
    for (const Vec4i& v : from) {
      bool ok = false;
      for (const Vec4i& w : in) { bool e = true; for (int k = 0; k < 4; ++k) e = e && std::abs(v[k] + (k % 2 ? dy : dx) - w[k]) <= 1; ok = ok || e; }
      n += !ok;
    }
    return n;
  };
  const size_t apart = missing(p, q, mx, my) + missing(q, p, -mx, -my), most = s.scale == 1 && s.refine < 2 ? s.refine : 2 + (p.size() + q.size()) / 3;
  VF_EXPECT(apart <= most, s.scale == 1 ? "moved:same" : "moved:rescaled", "%zu segments, %zu after moving the content by (%d, %d), %zu are not found again (allowed %zu)", p.size(), q.size(), mx, my, apart, most);
  vf::count("segments moved", p.size());
  vf::count("segments not found again", apart);
  vf::evaluated(hashMat(first) ^ hashMat(second) * 3 ^ vf::hashStr(show(s)), !p.empty() && (mx || my), what + vf::fmt(" moved by (%d, %d): %zu segments", mx, my, p.size()));
}

// ---- synthetic edges ---------------------------------------------------------
struct Edge { double x0, y0, x1, y1; };  // in the direction in which it is reported
struct Scene { std::vector<std::vector<cv::Point2d>> polys; std::vector<bool> bright; std::vector<Edge> edges; Mat img; };
bool insideConvex(const std::vector<cv::Point2d>& p, double x, double y) {
  bool pos = true, neg = true;
  for (size_t i = 0; i < p.size(); ++i) {
    const cv::Point2d& a = p[i]; const cv::Point2d& b = p[(i + 1) % p.size()];
    const double c = (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x);
    if (c < 0) pos = false;
    if (c > 0) neg = false;
  }
  return pos || neg;
}
// Pixel (x, y) covers the unit square around (x, y).
Mat render(int w, int h, const std::vector<std::vector<cv::Point2d>>& polys, int dark, int light, Rng& r, double noise) {
  Mat m(h, w, CV_8U);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      int cover = 0;
      for (int sy = 0; sy < 4; ++sy)
        for (int sx = 0; sx < 4; ++sx) {
          bool in = false;
          for (const auto& p : polys) in = in || insideConvex(p, x + (sx - 1.5) / 4, y + (sy - 1.5) / 4);
          cover += in;
        }
      const double v = dark + (light - dark) * cover / 16.0 + (noise > 0 ? noise * r.gauss() : 0);
      m.at<uchar>(y, x) = cv::saturate_cast<uchar>(v);
    }
  return m;
}
double pointLine(double px, double py, const Edge& e, double* along) {
  const double dx = e.x1 - e.x0, dy = e.y1 - e.y0, l = std::hypot(dx, dy);
  *along = ((px - e.x0) * dx + (py - e.y0) * dy) / l;
  return std::fabs((px - e.x0) * dy - (py - e.y0) * dx) / l;
}

// Where segments are found relative to their edges: sums over all edges for a
// least-squares estimate of the displacement, by scale.
struct Offset { double xx = 0, xy = 0, yy = 0, x = 0, y = 0; size_t n = 0; };
std::map<double, Offset> offsets[2];  // of either end

void edgesFound(Rng& r, uint64_t) {
  const int w = 90 + static_cast<int>(r.below(60)), h = 90 + static_cast<int>(r.below(60));
  const bool invert = r.chance(0.5);
  const int dark = static_cast<int>(r.below(60)), light = 170 + static_cast<int>(r.below(80));
  std::vector<std::vector<cv::Point2d>> polys;
  std::vector<Edge> edges;
  double ang = r.uni(0, 2 * M_PI);
  if (r.chance(0.3)) ang = static_cast<double>(r.below(8)) * M_PI / 4;
  if (r.chance(0.1)) ang = static_cast<double>(r.below(8)) * M_PI / 4 + r.uni(-0.05, 0.05);
  const cv::Point2d u(std::cos(ang), std::sin(ang)), v(-u.y, u.x);
  const int style = static_cast<int>(r.below(3));
  cv::Point2d c(w / 2.0 + r.uni(-8, 8), h / 2.0 + r.uni(-8, 8));
  auto quad = [&](double a0, double a1, double b0, double b1) {
    std::vector<cv::Point2d> p = {c + u * a0 + v * b0, c + u * a1 + v * b0, c + u * a1 + v * b1, c + u * a0 + v * b1};
    polys.push_back(p);
    return p;
  };
  if (style == 0) {  // a half plane
    quad(-400, 400, 0, 400);
    edges.push_back({c.x - 400 * u.x, c.y - 400 * u.y, c.x + 400 * u.x, c.y + 400 * u.y});
  } else {
    const double la = style == 1 ? r.uni(22, 34) : r.uni(24, 36), lb = style == 1 ? r.uni(22, 34) : r.uni(5, 9);
    std::vector<cv::Point2d> p = quad(-la, la, -lb, lb);
    for (int i = 0; i < 4; ++i) edges.push_back({p[i].x, p[i].y, p[(i + 1) % 4].x, p[(i + 1) % 4].y});
  }
  const double noise = r.chance(0.4) ? r.uni(0, 2.5) : 0;
  Mat m = invert ? render(w, h, polys, light, dark, r, noise) : render(w, h, polys, dark, light, r, noise);
  // A segment runs so that turning its direction (x, y) to (y, -x) points to
  // the brighter side; the polygons above run the other way.
  if (!invert) for (Edge& e : edges) { std::swap(e.x0, e.x1); std::swap(e.y0, e.y1); }
  Setting s = kRepo;
  if (r.chance(0.6)) {
    static const double scales[] = {1.0, 0.5, 0.8, 0.6};
    s.refine = static_cast<int>(r.below(3));
    s.scale = scales[r.below(4)];
    s.ang = r.chance(0.5) ? 22.5 : 16.5;
    s.density = r.uni(0.5, 0.7);
    s.bins = r.chance(0.3) ? 16 : 1024;
    s.eps = 0;
  }
  vf::detail(vf::fmt("style %d %dx%d angle %.6g noise %.2g %s, ", style, w, h, ang * 180 / M_PI, noise, invert ? "inverted" : "") + show(s));
  Segs found;
  std::vector<double> widths;
  if (!vf::mustReturn("detect", "detecting", [&] { make(s)->detect(m, found, widths); })) return;
  const double tol = 1.6 + 0.9 / s.scale;
  for (const Edge& e : edges) {
    // The visible part of the edge, by samples.
    const double len = std::hypot(e.x1 - e.x0, e.y1 - e.y0), ux = (e.x1 - e.x0) / len, uy = (e.y1 - e.y0) / len;
    int visible = 0, covered = 0;
    double near = 1e9;
    std::vector<std::pair<double, double>> spans;
    for (const Vec4i& f : found) {
      double t0, t1;
      // Truncation to whole pixels moves the ends by half a pixel on average.
      const double d0 = pointLine(f[0] + 0.0, f[1] + 0.0, e, &t0), d1 = pointLine(f[2] + 0.0, f[3] + 0.0, e, &t1);
      if (d0 > tol || d1 > tol || std::max(t0, t1) < -4 || std::min(t0, t1) > len + 4) continue;
      if (std::fabs(t1 - t0) < 6) continue;
      near = std::min(near, std::max(d0, d1));
      if (noise == 0) {
        for (int end = 0; end < 2; ++end) {
          Offset& o = offsets[end][s.scale];
          const double nx = -(e.y1 - e.y0) / len, ny = (e.x1 - e.x0) / len, d = (f[2 * end] - e.x0) * nx + (f[2 * end + 1] - e.y0) * ny;
          o.xx += nx * nx; o.xy += nx * ny; o.yy += ny * ny; o.x += nx * d; o.y += ny * d; ++o.n;
        }
      }
      vf::maxOf(vf::fmt("distance at scale %g", s.scale), std::max(d0, d1));
      spans.push_back(std::make_pair(std::min(t0, t1), std::max(t0, t1)));
      // A short region may be turned: its main axis is uncertain by more than the angle tolerance.
      if (std::fabs(t1 - t0) >= 20) VF_EXPECT(t1 > t0, vf::fmt("direction:%d", s.refine), "segment %s runs against its edge (%.1f,%.1f)-(%.1f,%.1f)", show(f).c_str(), e.x0, e.y0, e.x1, e.y1);
    }
    for (double t = 4; t < len - 4; t += 0.5) {
      const double x = e.x0 + ux * t, y = e.y0 + uy * t;
      if (x < 4 || y < 4 || x > w - 5 || y > h - 5) continue;
      ++visible;
      for (const auto& sp : spans) if (t >= sp.first - 1.5 / s.scale && t <= sp.second + 1.5 / s.scale) { ++covered; break; }
    }
    if (visible < 60) continue;  // 30 pixels
    const double part = static_cast<double>(covered) / visible;
    vf::count(part >= 0.95 ? "edges fully covered" : part >= 0.7 ? "edges mostly covered" : part > 0.3 ? "edges partly covered" : "edges missed");
    vf::maxOf("edge share not covered", 1 - part);
    VF_EXPECT(part >= 0.6, vf::fmt("found:%d", s.refine), "edge (%.1f,%.1f)-(%.1f,%.1f) is covered to %.0f%% by %zu of %zu segments", e.x0, e.y0, e.x1, e.y1, part * 100, spans.size(), found.size());
    vf::evaluated(hashMat(m) ^ vf::mix(static_cast<uint64_t>(static_cast<int64_t>(e.x0 * 1000))) ^ vf::hashStr(show(s)), true, vf::fmt("edge of %d half pixels, angle %.3g: %.0f%% covered at distance %.2f", visible, ang * 180 / M_PI, part * 100, near));
  }
  // Nothing long is reported where there is no edge.
  if (noise == 0)
    for (const Vec4i& f : found) {
      const double fl = std::hypot(f[2] - f[0], f[3] - f[1]);
      if (fl < 14) continue;
      bool ok = false;
      for (const Edge& e : edges) { double t0, t1; if (pointLine(f[0], f[1], e, &t0) < 1.5 * tol + 1 && pointLine(f[2], f[3], e, &t1) < 1.5 * tol + 1) ok = true; }
      VF_EXPECT(ok, vf::fmt("spurious:%d", s.refine), "segment %s is not near any edge", show(f).c_str());
      vf::count("long segments checked");
    }
}

// Segments lie on their edges on average: cutting off to whole pixels moves
// them by half a pixel, reading the pixel of the reduced picture by up to
// another half of its pixels.
void position(Rng&, uint64_t) {
  for (int end = 0; end < 2; ++end) for (const auto& p : offsets[end]) {
    const Offset& o = p.second;
    const double det = o.xx * o.yy - o.xy * o.xy;
    if (o.n < 60 || det < 0.01 * o.n * o.n) continue;
    const double x = (o.yy * o.x - o.xy * o.y) / det, y = (o.xx * o.y - o.xy * o.x) / det, scale = p.first;
    vf::detail(vf::fmt("%zu segments at scale %g", o.n, scale));
    vf::maxOf("mean displacement off the expected one, in pixels of the reduced picture", scale * std::max(std::fabs(x + 0.5 / scale), std::fabs(y + 0.5 / scale)));
    VF_EXPECT(std::fabs(x + 0.5 / scale) <= 0.25 / scale && std::fabs(y + 0.5 / scale) <= 0.25 / scale, "position", "the %s of %zu segments at scale %g are displaced by (%.3f, %.3f) on average", end ? "ends" : "starts", o.n, scale, x, y);
    vf::evaluated(o.n * 31 + static_cast<uint64_t>(scale * 10) + end * 1000003, true, vf::fmt("scale %g: (%.3f, %.3f) over %zu segments", scale, x, y, o.n));
  }
}

// The detector class built on it.
void detectorClass(Rng& r, uint64_t) {
  std::string what;
  Mat m;
  if (r.chance(0.5)) {
    std::vector<std::vector<cv::Point2d>> polys;
    for (int i = 0; i < 3; ++i) {
      const cv::Point2d c(r.uni(0, 120), r.uni(0, 100));
      const double a = r.uni(0, 6.28), la = r.uni(5, 50), lb = r.uni(4, 30);
      const cv::Point2d u(std::cos(a), std::sin(a)), v(-u.y, u.x);
      polys.push_back({c + u * la + v * lb, c + u * la - v * lb, c - u * la - v * lb, c - u * la + v * lb});
    }
    m = render(120, 100, polys, 20, 220, r, r.chance(0.3) ? 2 : 0);
    what = "rectangles";
  } else m = hostileImage(r, &what);
  aslam::LineSegmentDetector::Options o;
  if (r.chance(0.6)) o.min_segment_length_px = r.below(60);
  vf::detail(what + vf::fmt(", at least %zu px", o.min_segment_length_px));
  aslam::Lines lines, again, stale, none;
  Segs raw;
  if (!vf::mustReturn("class:detect", "detecting", [&] {
        aslam::LineSegmentDetector d(o);
        d.detect(m, &lines);
        stale.emplace_back(1, 2, 3, 4);
        d.detect(m, &stale);
        aslam::LineSegmentDetector e(o);
        e.detect(m, &again);
        make(kRepo)->detect(m, raw);
      })) return;
  Segs want;
  for (const Vec4i& v : raw) if (std::hypot(static_cast<double>(v[0] - v[2]), static_cast<double>(v[1] - v[3])) >= static_cast<double>(o.min_segment_length_px)) want.push_back(v);
  auto same = [](const aslam::Lines& a, const Segs& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].start_point != Eigen::Vector2d(b[i][0], b[i][1]) || a[i].end_point != Eigen::Vector2d(b[i][2], b[i][3])) return false;
    return true;
  };
  VF_EXPECT(same(lines, want), "class:lines", "%zu lines, expected %zu of %zu", lines.size(), want.size(), raw.size());
  VF_EXPECT(same(stale, want), "class:stale", "%zu lines on the second call, expected %zu", stale.size(), want.size());
  VF_EXPECT(same(again, want), "class:again", "%zu lines by a second detector, expected %zu", again.size(), want.size());
  for (const aslam::Line& l : lines) VF_EXPECT((l.end_point - l.start_point).norm() >= static_cast<double>(o.min_segment_length_px), "class:length", "a line of length %g", (l.end_point - l.start_point).norm());
  // Drawing touches only the image it is given.
  Mat color(m.rows, m.cols, CV_8UC3, cv::Scalar(1, 2, 3)), before = color.clone();
  vf::mustReturn("class:draw", "drawing", [&] { aslam::LineSegmentDetector d(o); d.drawLines(lines, &color); });
  VF_EXPECT(color.size() == before.size() && color.type() == CV_8UC3, "class:draw", "drawing changed the image's size");
  if (lines.empty()) VF_EXPECT(cv::norm(color, before, cv::NORM_INF) == 0, "class:draw", "drawing nothing changed the image");
  vf::count("lines of the detector class", lines.size());
  vf::evaluated(hashMat(m) ^ o.min_segment_length_px, !raw.empty(), what + vf::fmt(" at least %zu px: %zu of %zu segments", o.min_segment_length_px, lines.size(), raw.size()));
}

// ---- C24 ---------------------------------------------------------------------
Segs someSegs(Rng& r, int range) {
  Segs s;
  const int n = r.chance(0.1) ? 0 : static_cast<int>(r.below(r.chance(0.01) ? 700 : 14));
  for (int i = 0; i < n; ++i) {
    Vec4i v(static_cast<int>(r.below(range)), static_cast<int>(r.below(range)), static_cast<int>(r.below(range)), static_cast<int>(r.below(range)));
    switch (r.below(8)) {
      case 0: v[3] = v[1]; break;              // horizontal
      case 1: v[2] = v[0]; break;              // vertical
      case 2: v[2] = v[0]; v[3] = v[1]; break; // a point
      case 3: { const int k = static_cast<int>(r.range(-20, 20)); v[2] = v[0] + 3 * k; v[3] = v[1] + 4 * k; break; }  // whole length
      case 4: if (!s.empty()) v = s[r.below(s.size())]; break;
      case 5: for (int k = 0; k < 4; ++k) v[k] -= range / 2; break;
      default: break;
    }
    s.push_back(v);
  }
  return s;
}
uint64_t hashSegs(const Segs& s) { uint64_t h = s.size() + 99; for (const Vec4i& v : s) h = vf::hashBytes(&v[0], 16, h); return h; }
std::string showSegs(const Segs& s) { std::string o; for (const Vec4i& v : s) o += show(v) + " "; return o; }

// How the segments are passed in and out.
enum Pass { kVector, kColumn, kRow };
cv::Mat asMat(const Segs& s, int pass) {
  Mat m = Mat(s, true);
  return pass == kRow ? m.reshape(4, 1).clone() : m;
}
void filters(Rng& r, uint64_t) {
  const Segs in = someSegs(r, r.chance(0.5) ? 60 : r.chance(0.2) ? 70000 : 2000);
  cv::Ptr<aslamcv::LineSegmentDetector> det = make(kRepo);
  const int pass = in.empty() ? kVector : static_cast<int>(r.below(3));
  const bool inplace = r.chance(0.3);
  const int what = static_cast<int>(r.below(3));
  float lo, hi;
  if (what == 0) {
    static const float lens[] = {0, 1, 5, 10, 25, 50, 100, -1};
    lo = r.chance(0.5) ? lens[r.below(8)] : static_cast<float>(r.uni(0, 80));
    hi = r.chance(0.3) ? -1 : r.chance(0.5) ? lens[r.below(8)] : static_cast<float>(lo + r.uni(0, 1000));
    if (!in.empty() && r.chance(0.3)) { const Vec4i& v = in[r.below(in.size())]; const float l = static_cast<float>(std::hypot(static_cast<double>(v[0]) - v[2], static_cast<double>(v[1]) - v[3])); (r.chance(0.5) ? lo : hi) = l; }
  } else {
    static const float angs[] = {0, 90, 180, 45, 10, 170, 89, 91, 135};
    lo = r.chance(0.5) ? angs[r.below(9)] : static_cast<float>(r.uni(0, 180));
    hi = r.chance(0.5) ? angs[r.below(9)] : static_cast<float>(r.uni(0, 180));
    if (hi < lo && r.chance(0.9)) std::swap(lo, hi);
  }
  vf::detail(vf::fmt("%s [%g, %g], passed as %d%s: ", what == 0 ? "length" : what == 1 ? "retain angle" : "filter out angle", lo, hi, pass, inplace ? " in place" : "") + showSegs(in));
  Segs out(static_cast<size_t>(r.below(3)));
  int removed = -1;
  Segs vin = in;
  Mat min_ = pass == kVector ? Mat() : asMat(in, pass);
  bool ok = vf::mustReturn("filter", "filtering", [&] {
    if (pass == kVector) {
      Segs& o = inplace ? vin : out;
      removed = what == 0 ? det->filterSize(vin, o, lo, hi) : what == 1 ? det->retainAngle(vin, o, lo, hi) : det->filterOutAngle(vin, o, lo, hi);
      if (inplace) out = vin;
    } else {
      removed = what == 0 ? det->filterSize(min_, out, lo, hi) : what == 1 ? det->retainAngle(min_, out, lo, hi) : det->filterOutAngle(min_, out, lo, hi);
    }
  });
  if (!ok) return;
  const std::string key = std::string(what == 0 ? "length" : what == 1 ? "retain" : "filter-out") + (pass == kVector ? "" : ":matrix");
  VF_EXPECT(removed == static_cast<int>(in.size()) - static_cast<int>(out.size()), key + ":count", "says it removed %d of %zu and returned %zu", removed, in.size(), out.size());
  // Every segment is kept or not; those within rounding of a limit may go either way.
  size_t o = 0;
  bool bad = false;
  int undecided = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    const Vec4i& v = in[i];
    bool keep, doubt = false;
    if (what == 0) {
      const double l2 = std::pow(static_cast<double>(v[0]) - v[2], 2) + std::pow(static_cast<double>(v[1]) - v[3], 2);
      const float l = static_cast<float>(std::sqrt(l2));
      keep = (lo == -1 || l >= lo) && (hi == -1 || l < hi);
    } else {
      const int dx = v[2] - v[0], dy = v[3] - v[1];
      double a = std::atan2(static_cast<double>(dy), static_cast<double>(dx)) * 180 / M_PI;
      if (a < 0) a += 180;
      if (a >= 180) a -= 180;
      const bool exact = dx == 0 || dy == 0;
      const bool in_range = a >= lo && a <= hi;
      keep = what == 1 ? in_range : !in_range;
      if (!exact) {
        auto far = [&](double lim) { double d = std::fabs(a - lim); d = std::min(d, 180 - std::min(d, 180.0)); return d > 0.4; };
        // Angles close to 180 may be taken for 0.
        if (!far(lo) || !far(hi) || a > 179.6 || a < 0.4) doubt = true;
      }
    }
    const bool here = o < out.size() && out[o] == v;
    if (doubt) { ++undecided; if (here) { // might be a later equal one; prefer to consume
        ++o; } continue; }
    if (keep) { if (here) ++o; else { bad = true; break; } }
    else if (here) {
      // An equal segment that should be dropped can only follow from a wrong answer.
      bad = true; break;
    }
  }
  if (o != out.size()) bad = true;
  VF_EXPECT(!bad, key, "kept %s", showSegs(out).c_str());
  vf::count("segments filtered", in.size());
  vf::count("segments close to a limit", undecided);
  vf::evaluated(hashSegs(in) ^ vf::hashBytes(&lo, 4) ^ vf::hashBytes(&hi, 4, 7) ^ what, !in.empty(), vf::fmt("%s [%g, %g]: %zu of %zu", key.c_str(), lo, hi, out.size(), in.size()));
}

void intersections(Rng& r, uint64_t) {
  const int range = r.chance(0.4) ? 30 : r.chance(0.5) ? 800 : 4000;
  Vec4i a, b;
  for (int k = 0; k < 4; ++k) { a[k] = static_cast<int>(r.below(range)); b[k] = static_cast<int>(r.below(range)); }
  switch (r.below(7)) {
    case 0: { const int d = static_cast<int>(r.range(-20, 20)), e = static_cast<int>(r.range(-20, 20)); b = Vec4i(a[0] + d, a[1] + e, a[2] + d, a[3] + e); break; }  // parallel
    case 1: a[2] = a[0]; break;
    case 2: a[3] = a[1]; break;
    case 3: a[2] = a[0]; b[3] = b[1]; break;
    case 4: b[0] = a[0]; b[1] = a[1]; break;  // common end
    case 5: { const int d = static_cast<int>(r.range(-20, 20)); b = Vec4i(a[0] + d, a[1], a[2] + d, a[3] + static_cast<int>(r.range(-1, 1))); break; }  // nearly parallel
    default: break;
  }
  vf::detail("lines " + show(a) + " and " + show(b));
  const __int128 a1 = a[3] - a[1], b1 = a[0] - a[2], a2 = b[3] - b[1], b2 = b[0] - b[2];
  const __int128 c1 = a1 * a[0] + b1 * a[1], c2 = a2 * b[0] + b2 * b[1];
  const __int128 det = a1 * b2 - a2 * b1;
  long double x = 0, y = 0;
  if (det != 0) {
    x = static_cast<long double>(b2 * c1 - b1 * c2) / static_cast<long double>(det);
    y = static_cast<long double>(a1 * c2 - a2 * c1) / static_cast<long double>(det);
    if (std::fabs(x) > 2e9L || std::fabs(y) > 2e9L) { vf::count("intersections beyond the integer range"); return; }
  }
  cv::Point p(-99, -99), q(-99, -99);
  bool hit = false, hit2 = false;
  cv::Ptr<aslamcv::LineSegmentDetector> d = make(kRepo);
  if (!vf::mustReturn("intersection", "intersecting", [&] {
        hit = d->intersection(Segs(1, a), Segs(1, b), p);
        hit2 = d->intersection(Segs(1, b), Segs(1, a), q);
      })) return;
  VF_EXPECT(hit == (det != 0) && hit2 == hit, "intersection:parallel", "lines reported %s and %s, they are %s", hit ? "crossing" : "parallel", hit2 ? "crossing" : "parallel", det != 0 ? "crossing" : "parallel");
  if (det != 0 && hit && hit2) {
    const long double e = std::max(std::fabs(x - p.x), std::fabs(y - p.y)), f = std::max(std::fabs(x - q.x), std::fabs(y - q.y));
    vf::maxOf("intersection error", static_cast<double>(e));
    VF_EXPECT(e < 1.001L && f < 1.001L, "intersection:point", "meet at (%.4Lf, %.4Lf), reported (%d, %d) and (%d, %d)", x, y, p.x, p.y, q.x, q.y);
    vf::count("crossings");
  }
  vf::evaluated(vf::hashBytes(&a[0], 16, vf::hashBytes(&b[0], 16)), true, show(a) + " and " + show(b) + (det != 0 ? vf::fmt(" meet at (%.2Lf, %.2Lf)", x, y) : std::string(" are parallel")));
}

void drawing(Rng& r, uint64_t) {
  const bool big = r.chance(0.02);
  const int w = 1 + static_cast<int>(r.below(big ? 700 : 50)), h = 1 + static_cast<int>(r.below(big ? 700 : 50)), range = big ? 800 : 60;
  const Segs a = someSegs(r, range);
  Segs b = r.chance(0.5) ? someSegs(r, range) : a;
  if (!b.empty() && r.chance(0.3)) b.pop_back();
  const int pass = a.empty() || b.empty() ? kVector : static_cast<int>(r.below(3));
  vf::detail(vf::fmt("%dx%d, passed as %d, ", w, h, pass) + showSegs(a) + " and " + showSegs(b));
  cv::Ptr<aslamcv::LineSegmentDetector> det = make(kRepo);
  auto mask = [&](const Segs& s, int ww, int hh) {
    Mat m = Mat::zeros(hh, ww, CV_8U);
    for (const Vec4i& v : s) cv::line(m, cv::Point(v[0], v[1]), cv::Point(v[2], v[3]), cv::Scalar(255), 1);
    return m;
  };
  const Mat ma = mask(a, w, h), mb = mask(b, w, h);
  int want = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) want += ma.at<uchar>(y, x) != mb.at<uchar>(y, x);
  int n = -1, n2 = -1, n3 = -1;
  Mat canvas(h, w, CV_8UC3, cv::Scalar(9, 8, 7));
  if (!vf::mustReturn("compare", "comparing", [&] {
        if (pass == kVector) { n = det->compareSegments(cv::Size(w, h), a, b); n2 = det->compareSegments(cv::Size(w, h), b, a); n3 = det->compareSegments(cv::Size(w, h), a, b, canvas); }
        else { n = det->compareSegments(cv::Size(w, h), asMat(a, pass), asMat(b, pass)); n2 = det->compareSegments(cv::Size(w, h), asMat(b, pass), asMat(a, pass)); n3 = det->compareSegments(cv::Size(w, h), asMat(a, pass), asMat(b, pass), canvas); }
      })) return;
  const std::string key = pass == kVector ? "" : ":matrix";
  VF_EXPECT(n == want && n2 == want && n3 == want, "compare" + key, "%d, %d and %d pixels differ, should be %d", n, n2, n3, want);
  int bad = 0;
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
    const cv::Vec3b c = canvas.at<cv::Vec3b>(y, x);
    const bool ia = ma.at<uchar>(y, x), ib = mb.at<uchar>(y, x);
    const cv::Vec3b e = ia || ib ? cv::Vec3b(ia ? 255 : 0, 0, ib ? 255 : 0) : cv::Vec3b(9, 8, 7);
    bad += c != e;
  }
  VF_EXPECT(bad == 0, "compare:canvas" + key, "%d pixels of the canvas are wrong", bad);
  // Drawing on grey and coloured images.
  const bool grey = r.chance(0.5);
  Mat img(h, w, grey ? CV_8U : CV_8UC3);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w * img.channels(); ++x) img.ptr(y)[x] = static_cast<uchar>(r.below(256));
  Mat gray;
  if (grey) gray = img.clone(); else cv::cvtColor(img, gray, cv::COLOR_BGR2GRAY);
  if (!vf::mustReturn("draw", "drawing", [&] { if (pass == kVector) det->drawSegments(img, a); else det->drawSegments(img, asMat(a, pass)); })) return;
  VF_EXPECT(img.type() == CV_8UC3 && img.rows == h && img.cols == w, "draw:shape", "the drawing is of type %d, %dx%d", img.type(), img.cols, img.rows);
  if (img.type() == CV_8UC3 && img.rows == h && img.cols == w) {
    bad = 0;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
      const uchar g = gray.at<uchar>(y, x);
      const cv::Vec3b e = ma.at<uchar>(y, x) ? cv::Vec3b(0, 0, 255) : cv::Vec3b(g, g, g);
      bad += img.at<cv::Vec3b>(y, x) != e;
    }
    VF_EXPECT(bad == 0, "draw:pixels" + key, "%d pixels are wrong", bad);
  }
  vf::evaluated(hashSegs(a) ^ (hashSegs(b) * 3) ^ static_cast<uint64_t>(w * 1000 + h), !a.empty() || !b.empty(), vf::fmt("%dx%d: %zu and %zu segments, %d pixels differ", w, h, a.size(), b.size(), n));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  cv::setNumThreads(1);
  const std::string p = vf::opts().property;
  if (p == "C23") {
    vf::part("hostile", vf::scale(2500, 120000), hostile);
    vf::part("edges", vf::scale(700, 30000), edgesFound);
    vf::part("method", vf::scale(600, 30000), method);
    vf::part("position", 1, position);
    vf::part("sequence", vf::scale(160, 6000), sequence);
    vf::part("moved", vf::scale(700, 20000), moved);
    vf::part("class", vf::scale(400, 15000), detectorClass);
  } else {
    vf::part("filters", vf::scale(60000, 1000000), filters);
    vf::part("intersections", vf::scale(100000, 2000000), intersections);
    vf::part("drawing", vf::scale(10000, 200000), drawing);
  }
  return vf::finish();
}
