// C18: time conversions are exact.
// C19: comparing images within a tolerance is sound.
#include "vf.h"
#include <opencv2/core/core.hpp>
#include <aslam/common/time.h>
#include <aslam/common/opencv-predicates.h>
#include <regex>

using vf::Rng;
namespace at = aslam::time;

namespace {
int64_t someTime(Rng& r) {
  static const int64_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000,
                                1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000};
  int64_t t = 0;
  switch (r.below(9)) {
    case 0: t = static_cast<int64_t>(r.next()); break;
    case 1: t = static_cast<int64_t>(r.next() >> r.below(64)); break;
    case 2: t = p10[r.below(19)] + r.range(-2, 2); break;
    case 3: t = p10[9 + r.below(10)] * r.range(1, 9) / (r.chance(0.5) ? 1 : 10) + p10[r.below(9)]; break;
    case 4: t = r.range(-3, 3); break;
    case 5: t = INT64_MAX - static_cast<int64_t>(r.below(3)); break;
    case 6: t = INT64_MIN + static_cast<int64_t>(r.below(3)); break;
    case 7: t = static_cast<int64_t>(1511111111) * 1000000000 + r.range(0, 999999999); break;
    default: t = r.range(-1000000000000ll, 1000000000000ll); break;
  }
  if (t != INT64_MIN && r.chance(0.4)) t = -t;
  return t;
}

// The time a text denotes; false if it is not in the documented form.
bool denotes(const std::string& s, __int128* out) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && s[i] == '-') { neg = true; ++i; }
  auto digits = [&](unsigned __int128* v) {
    size_t n = 0; *v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9' && n < 25) { *v = *v * 10 + static_cast<unsigned>(s[i] - '0'); ++i; ++n; }
    return n;
  };
  unsigned __int128 a = 0, b = 0;
  if (!digits(&a)) return false;
  if (s.compare(i, std::string::npos, "ns") == 0) {
    if (a >= 1000000000u) return false;  // seconds are named from one second on
    *out = neg ? -static_cast<__int128>(a) : static_cast<__int128>(a);
    return true;
  }
  if (s.compare(i, 2, "s ") != 0) return false;
  i += 2;
  if (a == 0 || digits(&b) != 9) return false;
  if (s.compare(i, std::string::npos, "ns") != 0) return false;
  const __int128 t = static_cast<__int128>(a) * 1000000000 + static_cast<__int128>(b);
  *out = neg ? -t : t;
  return true;
}

void timeText(Rng& r, uint64_t) {
  for (int k = 0; k < 20; ++k) {
    const int64_t t = someTime(r);
    vf::detail(vf::fmt("time %lld", (long long)t));
    std::string s;
    if (!vf::mustReturn("text", vf::fmt("printing %lld", (long long)t), [&] { s = at::timeNanosecondsToString(t); })) continue;
    __int128 v = 0;
    const bool ok = denotes(s, &v);
    VF_EXPECT(ok, "text:form", "%lld printed as '%s'", (long long)t, s.c_str());
    if (ok) VF_EXPECT(v == t, "text:value", "%lld printed as '%s'", (long long)t, s.c_str());
    vf::evaluated(vf::mix(static_cast<uint64_t>(t)), true, k ? "" : s);
    vf::count(t < 0 ? "texts of negative times" : "texts of other times");
  }
}

struct Unit { const char* name; int64_t ns; double (*to)(int64_t); int64_t (*from)(double); };
const Unit kUnits[] = {{"seconds", 1000000000, at::to_seconds, at::from_seconds},
                       {"milliseconds", 1000000, at::to_milliseconds, at::from_milliseconds},
                       {"microseconds", 1000, at::to_microseconds, at::from_microseconds},
                       {"seconds (named)", 1000000000, at::nanoSecondsToSeconds, at::secondsToNanoSeconds}};

void timeConvert(Rng& r, uint64_t) {
  const long double eps = std::ldexp(1.0L, -53);
  for (const Unit& u : kUnits) {
    const int64_t t = someTime(r);
    vf::detail(vf::fmt("time %lld in %s", (long long)t, u.name));
    const double x = u.to(t);
    const long double exact = static_cast<long double>(t) / static_cast<long double>(u.ns);
    VF_EXPECT(std::fabs(static_cast<long double>(x) - exact) <= 2.01L * eps * std::fabs(exact), "to:" + std::string(u.name), "%lld ns is %.17g, not %.21Lg", (long long)t, x, exact);
    // Back again, where the type can hold the result.
    if (std::fabs(static_cast<double>(t)) < 9.2e18) {
      const int64_t b = u.from(x);
      const long double err = std::fabs(static_cast<long double>(b) - static_cast<long double>(t));
      VF_EXPECT(err <= 0.5L + 3.1L * eps * std::fabs(static_cast<long double>(t)), "roundtrip:" + std::string(u.name), "%lld became %.17g became %lld", (long long)t, x, (long long)b);
      if (std::llabs(t) <= (1ll << 50)) VF_EXPECT(b == t, "roundtrip-exact:" + std::string(u.name), "%lld became %.17g became %lld", (long long)t, x, (long long)b);
    }
    // Any value of the unit.
    double v;
    switch (r.below(4)) {
      case 0: v = r.uni(-10, 10); break;
      case 1: v = static_cast<double>(r.range(-1000000, 1000000)) / 1000.0; break;
      case 2: v = static_cast<double>(r.range(-2000000000000000000ll, 2000000000000000000ll)) / static_cast<double>(u.ns) / std::pow(10.0, static_cast<double>(r.below(10))); break;
      default: v = static_cast<double>(r.range(-5, 5)) / static_cast<double>(u.ns) + (r.chance(0.5) ? 0.3 : -0.4) / static_cast<double>(u.ns); break;
    }
    const int64_t n = u.from(v);
    const long double want = static_cast<long double>(v) * static_cast<long double>(u.ns);
    VF_EXPECT(std::fabs(static_cast<long double>(n) - want) <= 0.5L + 1.01L * eps * std::fabs(want) + 1e-18L, "from:" + std::string(u.name), "%.17g is %lld ns, not %.21Lg", v, (long long)n, want);
    // Order is kept.
    const int64_t t2 = someTime(r);
    VF_EXPECT((t <= t2) ? u.to(t) <= u.to(t2) : u.to(t) >= u.to(t2), "order:" + std::string(u.name), "%lld and %lld change places", (long long)t, (long long)t2);
    // Whole numbers of the unit are exact.
    const int64_t whole = r.range(-4000000, 4000000);
    VF_EXPECT(u.from(static_cast<double>(whole)) == whole * u.ns, "whole:" + std::string(u.name), "%lld is %lld ns", (long long)whole, (long long)u.from(static_cast<double>(whole)));
    VF_EXPECT(u.to(whole * u.ns) == static_cast<double>(whole), "whole-to:" + std::string(u.name), "%lld whole units read %.17g", (long long)whole, u.to(whole * u.ns));
    uint64_t h[3] = {static_cast<uint64_t>(t), static_cast<uint64_t>(n), static_cast<uint64_t>(u.ns)};
    vf::evaluated(vf::hashBytes(h, sizeof h));
  }
  const int64_t w = r.chance(0.5) ? r.range(-9000000000ll, 9000000000ll) : r.range(-100, 100);
  volatile int64_t wv = w;
  VF_EXPECT(at::seconds(wv) == w * 1000000000, "constant:seconds", "seconds(%lld) is %lld", (long long)w, (long long)at::seconds(wv));
  VF_EXPECT(at::milliseconds(wv) == w * 1000000, "constant:milliseconds", "milliseconds(%lld)", (long long)w);
  VF_EXPECT(at::microseconds(wv) == w * 1000, "constant:microseconds", "microseconds(%lld)", (long long)w);
  VF_EXPECT(at::nanoseconds(wv) == w, "constant:nanoseconds", "nanoseconds(%lld)", (long long)w);
  // Validity.
  const int64_t t = someTime(r);
  VF_EXPECT(at::isValidTime(t) == (t != INT64_MIN), "valid", "isValidTime(%lld) is %d", (long long)t, at::isValidTime(t));
  VF_EXPECT(at::getInvalidTime() == INT64_MIN && !at::isValidTime(at::getInvalidTime()), "valid:invalid", "the invalid time is %lld", (long long)at::getInvalidTime());
  // The clock.
  timespec a, b;
  clock_gettime(CLOCK_REALTIME, &a);
  const int64_t now = at::nanoSecondsSinceEpoch();
  clock_gettime(CLOCK_REALTIME, &b);
  const int64_t na = a.tv_sec * 1000000000ll + a.tv_nsec, nb = b.tv_sec * 1000000000ll + b.tv_nsec;
  if (nb >= na && nb - na < 1000000000)  // the clock was not set meanwhile
    VF_EXPECT(now >= na && now <= nb, "clock", "now is %lld, between %lld and %lld", (long long)now, (long long)na, (long long)nb);
}

static_assert(at::seconds(3) == 3000000000ll && at::milliseconds(-7) == -7000000 && at::microseconds(9) == 9000 && at::nanoseconds(4) == 4 && at::getInvalidTime() == INT64_MIN, "constants");

// ---- C19 -------------------------------------------------------------------
double fit(double v, int depth) {  // as a value of that depth
  switch (depth) {
    case CV_8U: return std::min(255.0, std::max(0.0, std::floor(v)));
    case CV_8S: return std::min(127.0, std::max(-128.0, std::floor(v)));
    case CV_16U: return std::min(65535.0, std::max(0.0, std::floor(v)));
    case CV_16S: return std::min(32767.0, std::max(-32768.0, std::floor(v)));
    case CV_32S: return std::min(2147483647.0, std::max(-2147483648.0, std::floor(v)));
    case CV_32F: return static_cast<float>(v);
    default: return v;
  }
}
double readEntry(const cv::Mat& m, int r, int c) {  // c counts channels
  const unsigned char* p = m.ptr(r);
  switch (m.depth()) {
    case CV_8U: return p[c];
    case CV_8S: return reinterpret_cast<const signed char*>(p)[c];
    case CV_16U: return reinterpret_cast<const uint16_t*>(p)[c];
    case CV_16S: return reinterpret_cast<const int16_t*>(p)[c];
    case CV_32S: return reinterpret_cast<const int32_t*>(p)[c];
    case CV_32F: return reinterpret_cast<const float*>(p)[c];
    default: return reinterpret_cast<const double*>(p)[c];
  }
}
void writeEntry(cv::Mat& m, int r, int c, double v) {
  unsigned char* p = m.ptr(r);
  switch (m.depth()) {
    case CV_8U: p[c] = static_cast<unsigned char>(v); break;
    case CV_8S: reinterpret_cast<signed char*>(p)[c] = static_cast<signed char>(v); break;
    case CV_16U: reinterpret_cast<uint16_t*>(p)[c] = static_cast<uint16_t>(v); break;
    case CV_16S: reinterpret_cast<int16_t*>(p)[c] = static_cast<int16_t>(v); break;
    case CV_32S: reinterpret_cast<int32_t*>(p)[c] = static_cast<int32_t>(v); break;
    case CV_32F: reinterpret_cast<float*>(p)[c] = static_cast<float>(v); break;
    default: reinterpret_cast<double*>(p)[c] = v; break;
  }
}
// An image over its own exactly sized heap block, with a given row pitch.
struct Img {
  std::unique_ptr<unsigned char[]> mem;
  cv::Mat m;
  Img(int rows, int cols, int type, int pad) {
    const size_t es = CV_ELEM_SIZE(type), es1 = CV_ELEM_SIZE1(type), step = cols * es + pad * es1;
    const size_t bytes = rows && cols ? step * (rows - 1) + cols * es : 0;
    mem.reset(new unsigned char[bytes ? bytes : 1]);
    for (size_t i = 0; i < bytes; ++i) mem[i] = static_cast<unsigned char>(i * 37 + pad);
    if (bytes) m = rows == 1 && pad == 0 ? cv::Mat(rows, cols, type, mem.get()) : cv::Mat(rows, cols, type, mem.get(), step);
    else m.create(rows, cols, type);
  }
};

double someEntry(Rng& r, int depth) {
  static const double lo[] = {0, -128, 0, -32768, -2147483648.0, -1e30, -1e300}, hi[] = {255, 127, 65535, 32767, 2147483647.0, 1e30, 1e300};
  switch (r.below(5)) {
    case 0: return lo[depth];
    case 1: return hi[depth];
    case 2: return 0;
    case 3: return fit(r.uni(-100, 100), depth);
    default: return depth < CV_32F ? fit(r.uni(lo[depth], hi[depth]), depth) : fit(r.uni(-1, 1) * std::pow(10.0, r.uni(-12, 6)), depth);
  }
}

void images(Rng& r, uint64_t) {
  const int depth = static_cast<int>(r.below(7));
  static const int chans[] = {1, 1, 2, 3, 4, 5, 7, 16, 64, 512};
  const int ch = chans[r.below(r.chance(0.1) ? 10 : 7)];
  const int type = CV_MAKETYPE(depth, ch);
  const int rows = r.chance(0.2) ? 1 : static_cast<int>(r.below(9)), cols = r.chance(0.2) ? 1 : static_cast<int>(r.below(9));
  Img a(rows, cols, type, static_cast<int>(r.below(3) ? 0 : r.below(7))), b(rows, cols, type, static_cast<int>(r.below(3) ? 0 : r.below(7)));
  const int tolstyle = static_cast<int>(r.below(5));
  double tol = -1;
  if (tolstyle == 1) tol = 0;
  else if (tolstyle == 2) tol = depth < CV_32F ? static_cast<double>(r.below(200)) : r.uni(0, 1e-3);
  else if (tolstyle == 3) tol = depth < CV_32F ? r.uni(0, 5) : r.uni(0, 1e-9);
  else if (tolstyle == 4) tol = -r.uni(0.1, 5);
  const double efftol = tol >= 0 ? tol : depth == CV_32F ? static_cast<double>(1e-8f) : depth == CV_64F ? 1e-15 : 0.0;
  const int style = static_cast<int>(r.below(6));
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols * ch; ++j) {
      const double v = style == 5 ? fit(r.uni(-1, 1), depth) : someEntry(r, depth);
      writeEntry(a.m, i, j, v);
      writeEntry(b.m, i, j, fit(style == 1 ? v + r.uni(-1, 1) * efftol : v, depth));
    }
  // Change one or several entries, anywhere, biased to the last ones.
  std::string what = style == 1 ? "perturbed" : "same";
  const int total = rows * cols * ch;
  if (total && style >= 2) {
    const int changes = r.chance(0.7) ? 1 : static_cast<int>(r.below(4));
    for (int k = 0; k < changes; ++k) {
      const int at = r.chance(0.3) ? total - 1 : r.chance(0.1) ? 0 : static_cast<int>(r.below(total));
      const int i = at / (cols * ch), j = at % (cols * ch);
      double v = readEntry(a.m, i, j), w = v;
      switch (r.below(depth >= CV_32F ? 6 : 4)) {
        case 0: w = fit(v + efftol * (r.chance(0.5) ? 1 : -1), depth); break;  // about at the tolerance
        case 1: w = fit(v + (efftol * (r.chance(0.5) ? 1.01 : 0.99) + (depth < CV_32F ? 0.9 : 0)) * (r.chance(0.5) ? 1 : -1), depth); break;
        case 2: w = someEntry(r, depth); break;
        case 3: w = fit(v + (r.chance(0.5) ? 1 : -1) * (efftol * 2 + 1), depth); break;
        case 4: w = std::numeric_limits<double>::quiet_NaN(); break;
        default: w = std::numeric_limits<double>::infinity() * (r.chance(0.5) ? 1 : -1); break;
      }
      if (r.chance(0.1) && !std::isfinite(w)) writeEntry(a.m, i, j, w);
      writeEntry(b.m, i, j, w);
      what = "changed";
    }
  }
  bool same = true, doubtful = false;
  double worst = 0;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols * ch; ++j) {
      const double x = readEntry(a.m, i, j), y = readEntry(b.m, i, j);
      if (!std::isfinite(x) || !std::isfinite(y)) { same = false; continue; }
      const long double d = std::fabs(static_cast<long double>(x) - static_cast<long double>(y));
      if (d > efftol) same = false;
      // A difference of floating point numbers rounds.
      if (d != 0 && std::fabs(d - efftol) <= 1e-6L * efftol * (depth == CV_32F ? 1 : 1e-9L)) doubtful = true;
      if (depth == CV_32F && d != 0 && std::fabs(d - efftol) <= 1e-7L * std::max(std::fabs(static_cast<long double>(x)), std::fabs(static_cast<long double>(y)))) doubtful = true;
      worst = std::max(worst, static_cast<double>(d));
    }
  vf::detail(vf::fmt("%dx%d depth %d, %d channels, tolerance %.17g, %s, worst difference %.17g", rows, cols, depth, ch, tol, what.c_str(), worst));
  bool fwd = false, back = false;
  std::string msg;
  if (!vf::mustReturn("images", "comparing", [&] {
        if (tolstyle == 0) { fwd = static_cast<bool>(gtest_catkin::ImagesEqual(a.m, b.m)); back = static_cast<bool>(gtest_catkin::ImagesEqual(b.m, a.m)); }
        else {
          testing::AssertionResult res = gtest_catkin::ImagesEqual(a.m, b.m, tol);
          fwd = static_cast<bool>(res); msg = res.message();
          back = static_cast<bool>(gtest_catkin::ImagesEqual(b.m, a.m, tol));
        }
      })) return;
  const std::string key = vf::fmt("images:depth%d%s", depth, ch > 1 ? ":channels" : "");
  if (!doubtful) {
    VF_EXPECT(fwd == same, key, "images reported %s, should be %s", fwd ? "equal" : "different", same ? "equal" : "different");
    VF_EXPECT(back == same, key + ":swapped", "swapped images reported %s, should be %s", back ? "equal" : "different", same ? "equal" : "different");
  }
  bool self = false;
  bool finite = true;
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols * ch; ++j) finite = finite && std::isfinite(readEntry(a.m, i, j));
  if (vf::mustReturn("images:self", "comparing with itself", [&] { self = static_cast<bool>(gtest_catkin::ImagesEqual(a.m, a.m, tol)); }))
    VF_EXPECT(self == finite, key + ":self", "an image is %s to itself", self ? "equal" : "different");
  vf::count(same ? "equal pairs" : "different pairs");
  uint64_t h[6] = {static_cast<uint64_t>(depth), static_cast<uint64_t>(ch), static_cast<uint64_t>(rows), static_cast<uint64_t>(cols), 0, same};
  memcpy(&h[4], &worst, 8);
  vf::evaluated(vf::hashBytes(h, sizeof h), total > 0, vf::fmt("%dx%d depth %d x%d tol %g worst %g -> %s", rows, cols, depth, ch, tol, worst, fwd ? "equal" : "different"));
}

void mismatched(Rng& r, uint64_t) {
  int d1 = static_cast<int>(r.below(7)), c1 = 1 + static_cast<int>(r.below(4)), r1 = 1 + static_cast<int>(r.below(6)), k1 = 1 + static_cast<int>(r.below(6));
  int d2 = d1, c2 = c1, r2 = r1, k2 = k1;
  const int style = static_cast<int>(r.below(6));
  switch (style) {
    case 0: d2 = (d1 + 1 + static_cast<int>(r.below(6))) % 7; break;
    case 1: c2 = c1 + 1; break;
    case 2: r2 = r1 + 1; break;
    case 3: k2 = k1 + 1; break;
    case 4: std::swap(r2, k2); break;
    default: c2 = c1 * 2; k1 *= 2; r2 = r1; k2 = k1 / 2; break;  // same number of entries
  }
  const bool same = d1 == d2 && c1 == c2 && r1 == r2 && k1 == k2;
  Img a(r1, k1, CV_MAKETYPE(d1, c1), 0), b(r2, k2, CV_MAKETYPE(d2, c2), 0);
  for (cv::Mat* m : {&a.m, &b.m}) for (int i = 0; i < m->rows; ++i) for (int j = 0; j < m->cols * m->channels(); ++j) writeEntry(*m, i, j, 1);
  vf::detail(vf::fmt("%dx%dx%d depth %d against %dx%dx%d depth %d", r1, k1, c1, d1, r2, k2, c2, d2));
  bool e = false, f = false;
  if (!vf::mustReturn("mismatch", "comparing", [&] { e = static_cast<bool>(gtest_catkin::ImagesEqual(a.m, b.m, 1e9)); f = static_cast<bool>(gtest_catkin::ImagesEqual(b.m, a.m)); })) return;
  VF_EXPECT(e == same && f == same, "mismatch:" + std::to_string(style), "answered %d and %d, should be %d", e, f, same);
  int h[8] = {r1, k1, c1, d1, r2, k2, c2, d2};
  vf::evaluated(vf::hashBytes(h, sizeof h), !same);
}

// Views into a larger image: only the view counts.
void views(Rng& r, uint64_t) {
  const int depth = static_cast<int>(r.below(7)), ch = 1 + static_cast<int>(r.below(4)), type = CV_MAKETYPE(depth, ch);
  const int R = 4 + static_cast<int>(r.below(8)), C = 4 + static_cast<int>(r.below(8));
  cv::Mat big(R, C, type), other(R, C, type);
  for (int i = 0; i < R; ++i) for (int j = 0; j < C * ch; ++j) { const double v = fit(r.uni(0, 100), depth); writeEntry(big, i, j, v); writeEntry(other, i, j, v); }
  const int x = static_cast<int>(r.below(C - 1)), y = static_cast<int>(r.below(R - 1)), w = 1 + static_cast<int>(r.below(C - x)), h = 1 + static_cast<int>(r.below(R - y));
  const int ci = static_cast<int>(r.below(R)), cj = static_cast<int>(r.below(C)), cc = static_cast<int>(r.below(ch));
  const double ov = readEntry(other, ci, cj * ch + cc);
  writeEntry(other, ci, cj * ch + cc, ov >= 50 ? fit(ov - 20, depth) : fit(ov + 20, depth));
  const bool inside = ci >= y && ci < y + h && cj >= x && cj < x + w;
  vf::detail(vf::fmt("view %d,%d %dx%d of %dx%d depth %d x%d, change at %d,%d", x, y, w, h, C, R, depth, ch, cj, ci));
  bool e = false, copy = false;
  if (!vf::mustReturn("views", "comparing views", [&] {
        e = static_cast<bool>(gtest_catkin::ImagesEqual(big(cv::Rect(x, y, w, h)), other(cv::Rect(x, y, w, h))));
        copy = static_cast<bool>(gtest_catkin::ImagesEqual(big(cv::Rect(x, y, w, h)), big(cv::Rect(x, y, w, h)).clone()));
      })) return;
  VF_EXPECT(e == !inside, "views", "views reported %s, the change is %s", e ? "equal" : "different", inside ? "inside" : "outside");
  VF_EXPECT(copy, "views:copy", "a view differs from its copy");
  int hh[10] = {x, y, w, h, C, R, depth, ch, ci, cj};
  vf::evaluated(vf::hashBytes(hh, sizeof hh));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  const std::string p = vf::opts().property;
  if (p == "C18") {
    vf::part("text", vf::scale(20000, 2000000), timeText);
    vf::part("convert", vf::scale(100000, 5000000), timeConvert);
  } else {
    vf::part("images", vf::scale(40000, 1500000), images);
    vf::part("mismatched", vf::scale(6000, 60000), mismatched);
    vf::part("views", vf::scale(10000, 300000), views);
  }
  return vf::finish();
}
