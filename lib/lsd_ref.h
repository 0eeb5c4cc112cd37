// The line segment method (Grompone von Gioi et al., in the variant of OpenCV):
// level-line angles, growing of support regions, rectangle fit, refinement and
// a-contrario validation, written down once more.  Only Gaussian smoothing,
// resizing and fastAtan2 are taken from the image library.
#pragma once
#include <algorithm>
#include <array>
#include <cfloat>
#include <cmath>
#include <vector>
#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>

namespace lsdref {
struct Rect { double x1, y1, x2, y2, width, theta, dx, dy, prec, p; };
struct Found { cv::Vec4i line; double width, p, nfa; };
struct Setting { int refine; double scale, sigma, quant, ang, eps, density; };

class Lsd {
 public:
  explicit Lsd(const Setting& s) : s_(s) {}

  std::vector<Found> run(const cv::Mat& image) {
    std::vector<Found> out;
    cv::Mat img;
    image.convertTo(img, CV_64F);
    if (s_.scale != 1) {
      const double sigma = s_.scale < 1 ? s_.sigma / s_.scale : s_.sigma;
      const int h = static_cast<int>(std::ceil(sigma * std::sqrt(6 * std::log(10.0))));
      cv::Mat smooth;
      cv::GaussianBlur(img, smooth, cv::Size(2 * h + 1, 2 * h + 1), sigma);
      cv::resize(smooth, img, cv::Size(), s_.scale, s_.scale);
    }
    const double prec = CV_PI * s_.ang / 180, p = s_.ang / 180;
    gradients(img, s_.quant / std::sin(prec));
    const double logNT = 5 * (std::log10(double(w_)) + std::log10(double(h_))) / 2 + std::log10(11.0);
    logNT_ = logNT;
    const size_t least = static_cast<size_t>(std::max(2, static_cast<int>(-logNT / std::log10(p))));
    used_.assign(static_cast<size_t>(w_) * h_, 0);
    for (int y = 0; y + 1 < h_; ++y)
      for (int x = 0; x + 1 < w_; ++x) {
        if (used_[at(x, y)] || !defined(x, y)) continue;
        double angle = 0;
        std::vector<cv::Point> region = grow(x, y, prec, &angle);
        if (region.size() < least) continue;
        Rect rec = fit(region, angle, prec, p);
        double nfa = -1;
        if (s_.refine >= 1 && !refine(&region, angle, prec, p, &rec)) continue;
        if (s_.refine >= 2) {
          nfa = improve(&rec);
          if (nfa <= s_.eps) continue;
        }
        Found f;
        f.line = cv::Vec4i(static_cast<int>((rec.x1 + 0.5) / s_.scale), static_cast<int>((rec.y1 + 0.5) / s_.scale), static_cast<int>((rec.x2 + 0.5) / s_.scale), static_cast<int>((rec.y2 + 0.5) / s_.scale));
        f.width = rec.width / s_.scale;
        f.p = rec.p;
        f.nfa = nfa;
        out.push_back(f);
      }
    return out;
  }

  double worst() const { return worst_; }

 private:
  size_t at(int x, int y) const { return static_cast<size_t>(y) * w_ + x; }
  bool defined(int x, int y) const { return angle_[at(x, y)] >= 0; }

  void gradients(const cv::Mat& m, double threshold) {
    w_ = m.cols;
    h_ = m.rows;
    angle_.assign(static_cast<size_t>(w_) * h_, -1);
    norm_.assign(static_cast<size_t>(w_) * h_, 0);
    for (int y = 0; y + 1 < h_; ++y)
      for (int x = 0; x + 1 < w_; ++x) {
        const double da = m.at<double>(y + 1, x + 1) - m.at<double>(y, x), bc = m.at<double>(y, x + 1) - m.at<double>(y + 1, x);
        const double gx = da + bc, gy = da - bc, n = std::sqrt((gx * gx + gy * gy) / 4);
        norm_[at(x, y)] = n;
        if (n > threshold) angle_[at(x, y)] = cv::fastAtan2(float(gx), float(-gy)) * (CV_PI / 180);
      }
  }

  bool aligned(int x, int y, double theta, double prec) const {
    if (!defined(x, y)) return false;
    double d = std::fabs(theta - angle_[at(x, y)]);
    if (d > 1.5 * CV_PI) d = std::fabs(d - 2 * CV_PI);
    return d <= prec;
  }

  std::vector<cv::Point> grow(int x0, int y0, double prec, double* angle) {
    std::vector<cv::Point> r(1, cv::Point(x0, y0));
    used_[at(x0, y0)] = 1;
    *angle = angle_[at(x0, y0)];
    float c = float(std::cos(*angle)), s = float(std::sin(*angle));
    for (size_t i = 0; i < r.size(); ++i) {
      const cv::Point q = r[i];
      for (int y = std::max(q.y - 1, 0); y <= std::min(q.y + 1, h_ - 1); ++y)
        for (int x = std::max(q.x - 1, 0); x <= std::min(q.x + 1, w_ - 1); ++x) {
          if (used_[at(x, y)] || !aligned(x, y, *angle, prec)) continue;
          used_[at(x, y)] = 1;
          r.push_back(cv::Point(x, y));
          c += std::cos(float(angle_[at(x, y)]));
          s += std::sin(float(angle_[at(x, y)]));
          *angle = cv::fastAtan2(s, c) * (CV_PI / 180);
        }
    }
    return r;
  }

  Rect fit(const std::vector<cv::Point>& region, double angle, double prec, double p) const {
    double x = 0, y = 0, sum = 0;
    for (const cv::Point& q : region) { const double g = norm_[at(q.x, q.y)]; x += q.x * g; y += q.y * g; sum += g; }
    x /= sum;
    y /= sum;
    double xx = 0, yy = 0, xy = 0;
    for (const cv::Point& q : region) {
      const double g = norm_[at(q.x, q.y)], dx = q.x - x, dy = q.y - y;
      xx += dy * dy * g;
      yy += dx * dx * g;
      xy -= dx * dy * g;
    }
    const double least = 0.5 * (xx + yy - std::sqrt((xx - yy) * (xx - yy) + 4 * xy * xy));
    double theta = (std::fabs(xx) > std::fabs(yy) ? cv::fastAtan2(float(least - xx), float(xy)) : cv::fastAtan2(float(xy), float(least - yy))) * (CV_PI / 180);
    if (std::fabs(difference(theta, angle)) > prec) theta += CV_PI;
    Rect r;
    r.theta = theta;
    r.dx = std::cos(theta);
    r.dy = std::sin(theta);
    double l0 = 0, l1 = 0, w0 = 0, w1 = 0;
    for (const cv::Point& q : region) {
      const double l = (q.x - x) * r.dx + (q.y - y) * r.dy, w = -(q.x - x) * r.dy + (q.y - y) * r.dx;
      l0 = std::min(l0, l);
      l1 = std::max(l1, l);
      w0 = std::min(w0, w);
      w1 = std::max(w1, w);
    }
    r.x1 = x + l0 * r.dx;
    r.y1 = y + l0 * r.dy;
    r.x2 = x + l1 * r.dx;
    r.y2 = y + l1 * r.dy;
    r.width = std::max(w1 - w0, 1.0);
    r.prec = prec;
    r.p = p;
    return r;
  }

  static double difference(double a, double b) {
    double d = a - b;
    while (d <= -CV_PI) d += 2 * CV_PI;
    while (d > CV_PI) d -= 2 * CV_PI;
    return d;
  }
  static double dist2(double ax, double ay, double bx, double by) { return (bx - ax) * (bx - ax) + (by - ay) * (by - ay); }
  static double density(size_t n, const Rect& r) { return n / (std::sqrt(dist2(r.x1, r.y1, r.x2, r.y2)) * r.width); }

  bool refine(std::vector<cv::Point>* region, double angle, double prec, double p, Rect* rec) {
    if (density(region->size(), *rec) >= s_.density) return true;
    // Once more, with the spread of the angles near the start as tolerance.
    const cv::Point c = region->front();
    double sum = 0, squares = 0;
    int n = 0;
    for (const cv::Point& q : *region) {
      used_[at(q.x, q.y)] = 0;
      if (std::sqrt(dist2(c.x, c.y, q.x, q.y)) < rec->width) {
        const double d = difference(angle_[at(q.x, q.y)], angle_[at(c.x, c.y)]);
        sum += d;
        squares += d * d;
        ++n;
      }
    }
    const double mean = sum / n, tau = 2 * std::sqrt((squares - 2 * mean * sum) / n + mean * mean);
    *region = grow(c.x, c.y, tau, &angle);
    if (region->size() < 2) return false;
    *rec = fit(*region, angle, prec, p);
    // Then drop what is far from the start, until the rest is dense.
    double radius2 = std::max(dist2(c.x, c.y, rec->x1, rec->y1), dist2(c.x, c.y, rec->x2, rec->y2));
    while (density(region->size(), *rec) < s_.density) {
      radius2 *= 0.75 * 0.75;
      for (size_t i = 0; i < region->size();) {
        const cv::Point q = (*region)[i];
        if (dist2(c.x, c.y, q.x, q.y) > radius2) {
          used_[at(q.x, q.y)] = 0;
          (*region)[i] = region->back();
          region->pop_back();
        } else ++i;
      }
      if (region->size() < 2) return false;
      *rec = fit(*region, angle, prec, p);
    }
    return true;
  }

  double improve(Rect* rec) const {
    double best = falseAlarms(*rec);
    Rect r;
    auto keep = [&] { const double v = falseAlarms(r); if (v > best) { best = v; *rec = r; } };
    auto finer = [&] { r.p /= 2; r.prec = r.p * CV_PI; };
    for (int step = 0; step < 5 && best <= s_.eps; ++step) {
      r = *rec;
      for (int n = 0; n < 5; ++n) {
        if (step > 0 && !(r.width - 0.5 >= 0.5)) continue;
        const double side = step == 2 ? 0.25 : step == 3 ? -0.25 : 0;
        if (step == 0 || step == 4) finer();
        else {
          r.x1 -= r.dy * side;
          r.y1 += r.dx * side;
          r.x2 -= r.dy * side;
          r.y2 += r.dx * side;
          r.width -= 0.5;
        }
        keep();
      }
    }
    return best;
  }

  double falseAlarms(const Rect& r) const {
    const double wx = r.dy * r.width / 2, wy = r.dx * r.width / 2;
    std::array<cv::Point, 4> c = {{cv::Point(int(r.x1 - wx), int(r.y1 + wy)), cv::Point(int(r.x2 - wx), int(r.y2 + wy)), cv::Point(int(r.x2 + wx), int(r.y2 - wy)), cv::Point(int(r.x1 + wx), int(r.y1 - wy))}};
    std::sort(c.begin(), c.end(), [](const cv::Point& a, const cv::Point& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; });
    int bottom = c[0].y;
    size_t top = 0;
    for (size_t i = 1; i < 4; ++i) { if (c[i].y < c[top].y) top = i; bottom = std::max(bottom, c[i].y); }
    // Of the other three, in their order, the leftmost and the rightmost (the first of equal ones), and the one left.
    std::vector<cv::Point> rest;
    for (size_t i = 0; i < 4; ++i) if (i != top) rest.push_back(c[i]);
    const cv::Point t = c[top], left = rest[0];
    rest.erase(rest.begin());
    const size_t k = rest[1].x > rest[0].x ? 1 : 0;
    const cv::Point right = rest[k], tail = rest[1 - k];
    auto slope = [](const cv::Point& a, const cv::Point& b) { return a.y != b.y ? double(a.x - b.x) / (a.y - b.y) : 0.0; };
    double lx = t.y != left.y ? t.x : left.x, rx = t.y != right.y ? t.x : right.x, ls = slope(t, left), rs = slope(t, right);
    int total = 0, agree = 0;
    for (int y = t.y; y <= bottom; ++y) {
      if (y < 0 || y >= h_) continue;
      for (int x = int(lx); x <= int(rx); ++x) {
        if (x < 0 || x >= w_) continue;
        ++total;
        agree += aligned(x, y, r.theta, r.prec);
      }
      if (y >= left.y) ls = slope(left, tail);
      if (y >= right.y) rs = slope(right, tail);
      lx += ls;
      rx += rs;
    }
    return logNfa(total, agree, r.p);
  }

  static bool vanishes(double v) { return v == 0 || std::fabs(v) / std::max(std::fabs(v), DBL_MIN) <= 100 * DBL_EPSILON; }
  static double logGamma(double x) {
    if (x > 15) return 0.918938533204673 + (x - 0.5) * std::log(x) - x + 0.5 * x * std::log(x * std::sinh(1 / x) + 1 / (810.0 * std::pow(x, 6.0)));
    return std::lgamma(x);
  }
  // The figure is -log10 of the number of tests times the binomial tail.
  double logNfa(int n, int k, double p) const {
    const double v = approximateLogNfa(n, k, p);
    double sum = 0, top = -1e300;
    std::vector<double> terms;
    for (int i = k; i <= n && n > 0 && k > 0; ++i) {
      terms.push_back(std::lgamma(n + 1.0) - std::lgamma(i + 1.0) - std::lgamma(n - i + 1.0) + i * std::log(p) + (n - i) * std::log1p(-p));
      top = std::max(top, terms.back());
      if (terms.back() < top - 40) break;
    }
    for (double t : terms) sum += std::exp(t - top);
    const double exact = (terms.empty() ? 0 : -(top + std::log(sum)) / std::log(10.0)) - logNT_;
    worst_ = std::max(worst_, std::fabs(exact - v) - 0.06 * std::fabs(exact));
    return v;
  }
  double approximateLogNfa(int n, int k, double p) const {
    if (n == 0 || k == 0) return -logNT_;
    if (n == k) return -logNT_ - n * std::log10(p);
    const double odds = p / (1 - p);
    const double first = logGamma(double(n) + 1) - logGamma(double(k) + 1) - logGamma(double(n - k) + 1) + k * std::log(p) + (n - k) * std::log(1.0 - p);
    double term = std::exp(first), tail = term;
    if (vanishes(term)) return k > n * p ? -first / 2.30258509299404568402 - logNT_ : -logNT_;
    for (int i = k + 1; i <= n; ++i) {
      const double ratio = double(n - i + 1) / i, factor = ratio * odds;
      term *= factor;
      tail += term;
      if (ratio < 1) {
        const double err = term * ((1 - std::pow(factor, double(n - i + 1))) / (1 - factor) - 1);
        if (err < 0.1 * std::fabs(-std::log10(tail) - logNT_) * tail) break;
      }
    }
    return -std::log10(tail) - logNT_;
  }

  Setting s_;
  int w_ = 0, h_ = 0;
  double logNT_ = 0;
  mutable double worst_ = 0;  // of the approximation of the tail, beyond 6 %
  std::vector<double> angle_, norm_;
  std::vector<char> used_;
};
}  // namespace lsdref
