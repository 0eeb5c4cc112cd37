// C25: nonlinear diffusion.   C26: KAZE features.   C27: KAZE utilities.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <opencv2/calib3d/calib3d.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include <opencv2/opencv.hpp>
#include <fstream>
#include "kaze/KAZE.h"

using vf::Rng;
using cv::Mat;
typedef std::vector<cv::KeyPoint> Kpts;

// Access to the private state of the extractor, without touching its source.
namespace {
template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct EvolutionTag { typedef std::vector<TEvolution> libKAZE::KAZE::*type; friend type get(EvolutionTag); };
struct TstepsTag { typedef std::vector<std::vector<float>> libKAZE::KAZE::*type; friend type get(TstepsTag); };
struct NstepsTag { typedef std::vector<int> libKAZE::KAZE::*type; friend type get(NstepsTag); };
struct AosTag { typedef void (libKAZE::KAZE::*type)(Mat&, const Mat&, const Mat&, const float); friend type get(AosTag); };
template struct Rob<EvolutionTag, &libKAZE::KAZE::evolution_>;
template struct Rob<TstepsTag, &libKAZE::KAZE::tsteps_>;
template struct Rob<NstepsTag, &libKAZE::KAZE::nsteps_>;
template struct Rob<AosTag, &libKAZE::KAZE::AOS_Step_Scalar>;

uint64_t hashMat(const Mat& m) { uint64_t h = static_cast<uint64_t>(m.rows) * 100003 + m.cols * 17 + m.type(); for (int i = 0; i < m.rows; ++i) h = vf::hashBytes(m.ptr(i), m.cols * m.elemSize(), h); return h; }
bool sameMat(const Mat& a, const Mat& b) {
  if (a.size() != b.size() || a.type() != b.type()) return false;
  for (int i = 0; i < a.rows; ++i) if (memcmp(a.ptr(i), b.ptr(i), a.cols * a.elemSize())) return false;
  return true;
}

// Grey images in [0, 1] meant to provoke; as part of a larger matrix or not.
Mat image(Rng& r, int minSide, int maxSide, std::string* what) {
  int w = minSide + static_cast<int>(r.below(maxSide - minSide + 1)), h = minSide + static_cast<int>(r.below(maxSide - minSide + 1));
  if (r.chance(0.15)) w = minSide + static_cast<int>(r.below(3));
  if (r.chance(0.15)) h = minSide + static_cast<int>(r.below(3));
  if (r.chance(0.2)) h = w;
  Mat m(h, w, CV_32F);
  const int style = static_cast<int>(r.below(9));
  static const char* names[] = {"noise", "flat", "stripes", "checkers", "ramp", "blobs", "salt", "half", "smooth"};
  *what = vf::fmt("%s %dx%d (%d wide)", names[style], h, w, w);
  const int period = 1 + static_cast<int>(r.below(10));
  const float base = static_cast<float>(r.uni()), other = r.chance(0.5) ? 1.f - base : static_cast<float>(r.uni());
  const int nb = 1 + static_cast<int>(r.below(6));
  std::vector<double> bx, by, bs, ba;
  for (int i = 0; i < nb; ++i) { bx.push_back(r.uni(-2, w + 2)); by.push_back(r.uni(-2, h + 2)); bs.push_back(r.uni(0.8, 8)); ba.push_back(r.uni(-1, 1)); }
  const double gx = r.uni(-0.05, 0.05), gy = r.uni(-0.05, 0.05);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double v = base;
      switch (style) {
        case 0: v = r.uni(); break;
        case 1: break;
        case 2: v = ((period % 2 ? x : y) / period) % 2 ? base : other; break;
        case 3: v = (x / period + y / period) % 2 ? base : other; break;
        case 4: v = base + gx * x + gy * y; break;
        case 5: v = 0.5; for (int i = 0; i < nb; ++i) v += ba[i] * std::exp(-((x - bx[i]) * (x - bx[i]) + (y - by[i]) * (y - by[i])) / (2 * bs[i] * bs[i])); break;
        case 6: v = r.chance(0.05) ? 1 : 0; break;
        case 7: v = gx * (x - w / 2) + gy * (y - h / 2) > 0 ? base : other; break;
        default: v = 0.5 + 0.4 * std::sin(x * 0.4 + bx[0]) * std::cos(y * 0.3 + by[0]); break;
      }
      m.at<float>(y, x) = static_cast<float>(std::min(1.0, std::max(0.0, v)));
    }
  return m;
}
Mat positive(Rng& r, int h, int w, double lo, double hi) {
  Mat m(h, w, CV_32F);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at<float>(y, x) = static_cast<float>(r.uni(lo, hi));
  return m;
}
double at(const Mat& m, int y, int x) { return m.at<float>(y, x); }

// ---------------------------------------------------------------------------
// C25: schedule.
void schedule(Rng& r, uint64_t index) {
  const int n0 = static_cast<int>(index % 60) + 1;
  float T = r.chance(0.5) ? static_cast<float>(r.uni(0.001, 40)) : static_cast<float>(std::exp(r.uni(-8, 9)));
  float tau_max = r.chance(0.6) ? 0.25f : static_cast<float>(r.uni(0.05, 2));
  const int M = r.chance(0.6) ? 1 : 1 + static_cast<int>(r.below(12));
  if (r.chance(0.3)) T = static_cast<float>(n0 * (n0 + 1) * tau_max / 3.0 * M * (r.chance(0.5) ? 1.0 : r.uni(0.999, 1.001)));  // at the edge of a step count
  vf::detail(vf::fmt("T %.9g over %d cycles, largest stable step %g", T, M, tau_max));
  std::vector<float> plain, mixed, cycle, junk(7, -1.f);
  int n = 0, n2 = 0, n3 = 0;
  if (!vf::mustReturn("fed:returns", "computing steps", [&] {
        n = fed_tau_by_process_time(T, M, tau_max, false, plain);
        n2 = fed_tau_by_process_time(T, M, tau_max, true, mixed);
        n3 = fed_tau_by_cycle_time(T / M, tau_max, true, junk);
      })) return;
  VF_EXPECT(n == static_cast<int>(plain.size()) && n2 == static_cast<int>(mixed.size()) && n == n2, "fed:count", "%d steps for %zu entries, reordered %d for %zu", n, plain.size(), n2, mixed.size());
  VF_EXPECT(n3 == n2 && junk == mixed, "fed:cycle", "one cycle asked for directly gives %d steps, as part of a process %d", n3, n2);
  // The fewest steps whose longest admissible total reaches the cycle's time.
  const double t = static_cast<double>(T) / M, ideal = std::sqrt(3.0 * t / tau_max + 0.25) - 0.5;
  const double reach = tau_max * static_cast<double>(n) * (n + 1) / 3.0, below = tau_max * static_cast<double>(n - 1) * n / 3.0;
  VF_EXPECT(reach >= t * (1 - 1e-5) - 1e-7, "fed:fewest", "%d steps reach only %.9g of %.9g (ideal %.9g)", n, reach, t, ideal);
  VF_EXPECT(n <= 1 || below <= t * (1 + 1e-5) + 1e-7, "fed:fewest", "%d steps although %d reach %.9g >= %.9g", n, n - 1, below, t);
  double sum = 0, sum2 = 0, lo = 1e300;
  for (float v : plain) { sum += v; lo = std::min<double>(lo, v); }
  for (float v : mixed) sum2 += v;
  const double tol = 1e-4 * t * (1 + n / 100.0) + 1e-12;
  if (n > 0) {
    VF_EXPECT(std::fabs(sum - t) <= tol, "fed:sum", "the steps add up to %.9g, not %.9g", sum, t);
    VF_EXPECT(std::fabs(sum2 - t) <= tol, "fed:sum", "the reordered steps add up to %.9g, not %.9g", sum2, t);
    VF_EXPECT(lo > 0, "fed:positive", "a step of %.9g", lo);
    for (float v : mixed) VF_EXPECT(v > 0 && std::isfinite(v), "fed:positive", "a reordered step of %.9g", v);
    vf::maxOf("steps", n);
    vf::maxOf("relative sum error", std::fabs(sum - t) / t);
    // Each step as published.
    const double scale = t * 3.0 / (tau_max * n * (n + 1.0));
    for (int k = 0; k < n && k < static_cast<int>(plain.size()); ++k) {
      const double h = std::cos(M_PI * (2.0 * k + 1) / (4.0 * n + 2)), e = scale * tau_max / (2 * h * h);
      VF_EXPECT(std::fabs(plain[k] - e) <= 1e-3 * (1 + n / 50.0) * e, "fed:formula", "step %d of %d is %.9g, expected %.9g", k, n, plain[k], e);
    }
  } else VF_EXPECT(t <= 1e-6, "fed:none", "no steps for a time of %.9g", t);
  std::vector<float> a = plain, b = mixed;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  VF_EXPECT(a == b, "fed:permutation", "the %zu reordered steps are not the %zu computed ones", b.size(), a.size());
  vf::evaluated(vf::hashBytes(mixed.data(), mixed.size() * 4), n > 0, index < 2 ? vf::fmt("T %g M %d: %d steps adding up to %.7g", T, M, n, sum) : "");
  vf::count("step sequences", 2);
}
void primes(Rng& r, uint64_t index) {
  const int v = index < 3000 ? static_cast<int>(index) - 20 : static_cast<int>(r.below(4000000));
  vf::detail(vf::fmt("is %d prime", v));
  bool expect = v > 1, got = false;
  for (int d = 2; static_cast<int64_t>(d) * d <= v && expect; ++d) if (v % d == 0) expect = false;
  if (!vf::mustReturn("prime:returns", "prime test", [&] { got = fed_is_prime_internal(v); })) return;
  VF_EXPECT(got == expect, "prime", "%d reported as %s", v, got ? "prime" : "not prime");
  vf::evaluated(v, true);
}

// One explicit step against the equation with zero flux across the border.
void step(Rng& r, uint64_t index) {
  std::string what;
  Mat L = image(r, 1, 24, &what);
  const int w = L.cols, h = L.rows;
  if (r.chance(0.3)) L = L * r.uni(-300, 300) + r.uni(-100, 100);
  Mat c = r.chance(0.3) ? Mat(h, w, CV_32F, cv::Scalar(r.uni())) : positive(r, h, w, 0, 1);
  const float tau = r.chance(0.3) ? 0.25f : static_cast<float>(r.uni(0, 0.25));
  vf::detail(what + vf::fmt(", one step of %g", tau));
  // Exactly sized copies, so that a stray read or write is noticed.
  Mat Ld = L.clone(), Lstep(h, w, CV_32F, cv::Scalar(42)), c0 = c.clone();
  double lo, hi;
  cv::minMaxLoc(L, &lo, &hi);
  if (!vf::mustReturn("step:returns", "diffusion step", [&] { nld_step_scalar(Ld, c, Lstep, tau); })) return;
  VF_EXPECT(sameMat(c, c0), "step:conductivity", "the conductivity changed");
  const double range = std::max(1e-6, std::max(std::fabs(lo), std::fabs(hi)));
  double sum0 = 0, sum1 = 0, worst = 0;
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double flux = 0;
      const int dx[] = {1, -1, 0, 0}, dy[] = {0, 0, 1, -1};
      for (int k = 0; k < 4; ++k) {
        const int xx = x + dx[k], yy = y + dy[k];
        if (xx < 0 || yy < 0 || xx >= w || yy >= h) continue;
        flux += 0.5 * (at(c, y, x) + at(c, yy, xx)) * (at(L, yy, xx) - at(L, y, x));
      }
      const double e = at(L, y, x) + tau * flux;
      worst = std::max(worst, std::fabs(at(Ld, y, x) - e));
      VF_EXPECT(std::fabs(at(Ld, y, x) - e) <= 2e-6 * range, "step:equation", "pixel (%d,%d) of %dx%d is %.9g, expected %.9g", x, y, w, h, at(Ld, y, x), e);
      VF_EXPECT(at(Ld, y, x) >= lo - 2e-6 * range && at(Ld, y, x) <= hi + 2e-6 * range, "step:range", "pixel (%d,%d) is %.9g, outside [%.9g, %.9g]", x, y, at(Ld, y, x), lo, hi);
      sum0 += at(L, y, x);
      sum1 += at(Ld, y, x);
    }
  VF_EXPECT(std::fabs(sum0 - sum1) <= 2e-6 * range * w * h, "step:total", "the total changed from %.9g to %.9g", sum0, sum1);
  vf::maxOf("step error", worst / range);
  vf::evaluated(hashMat(Ld), hi > lo, index < 2 ? what : "");
  vf::count("pixels diffused", w * h);
}

// A semi-implicit step: both one-dimensional systems are solved.
void aosStep(Rng& r, uint64_t index) {
  std::string what;
  Mat L = image(r, 2, 24, &what);
  const int w = L.cols, h = L.rows;
  Mat c = positive(r, h, w, 0, 1);
  const float tau = r.chance(0.3) ? static_cast<float>(r.uni(0, 0.25)) : static_cast<float>(r.uni(0.25, 60));
  vf::detail(what + vf::fmt(", a semi-implicit step of %g", tau));
  KAZEOptions o;
  o.img_width = w; o.img_height = h; o.use_fed = false; o.omax = 1; o.nsublevels = 2;
  Mat Ld(h, w, CV_32F, cv::Scalar(7)), L0 = L.clone();
  if (!vf::mustReturn("aos:returns", "semi-implicit step", [&] { libKAZE::KAZE k(o); (k.*get(AosTag()))(Ld, L, c, tau); })) return;
  VF_EXPECT(sameMat(L, L0), "aos:input", "the previous image changed");
  if (Ld.size() != L.size() || Ld.type() != CV_32F) { vf::violation("aos:size", vf::fmt("a %dx%d image became %dx%d", w, h, Ld.cols, Ld.rows)); return; }
  // Reference: Gaussian elimination in double for every row and column.
  Mat ref(h, w, CV_64F, cv::Scalar(0));
  auto solve = [&](int n, const std::function<double(int)>& cc, const std::function<double(int)>& dd, const std::function<void(int, double)>& out) {
    std::vector<double> a(n, 1.0), b(n, 0.0), d(n);
    for (int i = 0; i < n; ++i) d[i] = dd(i);
    for (int i = 0; i + 1 < n; ++i) { const double q = tau * (cc(i) + cc(i + 1)); a[i] += q; a[i + 1] += q; b[i] = -q; }
    for (int i = 1; i < n; ++i) { const double m = b[i - 1] / a[i - 1]; a[i] -= m * b[i - 1]; d[i] -= m * d[i - 1]; }
    for (int i = n - 1; i >= 0; --i) { d[i] = (d[i] - (i + 1 < n ? b[i] * d[i + 1] : 0)) / a[i]; out(i, d[i]); }
  };
  for (int y = 0; y < h; ++y) solve(w, [&](int i) { return at(c, y, i); }, [&](int i) { return at(L, y, i); }, [&](int i, double v) { ref.at<double>(y, i) += 0.5 * v; });
  for (int x = 0; x < w; ++x) solve(h, [&](int i) { return at(c, i, x); }, [&](int i) { return at(L, i, x); }, [&](int i, double v) { ref.at<double>(i, x) += 0.5 * v; });
  double lo, hi, sum0 = 0, sum1 = 0, worst = 0;
  cv::minMaxLoc(L, &lo, &hi);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      worst = std::max(worst, std::fabs(at(Ld, y, x) - ref.at<double>(y, x)));
      VF_EXPECT(std::fabs(at(Ld, y, x) - ref.at<double>(y, x)) <= 2e-4, "aos:equation", "pixel (%d,%d) of %dx%d is %.9g, expected %.9g", x, y, w, h, at(Ld, y, x), ref.at<double>(y, x));
      VF_EXPECT(at(Ld, y, x) >= lo - 1e-4 && at(Ld, y, x) <= hi + 1e-4, "aos:range", "pixel (%d,%d) is %.9g, outside [%.9g, %.9g]", x, y, at(Ld, y, x), lo, hi);
      sum0 += at(L, y, x);
      sum1 += at(Ld, y, x);
    }
  VF_EXPECT(std::fabs(sum0 - sum1) <= 2e-4 * w * h, "aos:total", "the total changed from %.9g to %.9g", sum0, sum1);
  vf::maxOf("semi-implicit error", worst);
  vf::evaluated(hashMat(Ld), hi > lo, index < 2 ? what : "");
  vf::count("pixels diffused", w * h);
}

void conductivities(Rng& r, uint64_t index) {
  const int w = 1 + static_cast<int>(r.below(20)), h = 1 + static_cast<int>(r.below(20));
  const double amp = std::exp(r.uni(-6, 3));
  Mat Lx = positive(r, h, w, -amp, amp), Ly = positive(r, h, w, -amp, amp);
  if (r.chance(0.2)) Ly = cv::Scalar(0);
  for (int i = 0; i < 3; ++i) { const int y = static_cast<int>(r.below(h)), x = static_cast<int>(r.below(w)); Lx.at<float>(y, x) = 0; Ly.at<float>(y, x) = 0; }
  const float k = static_cast<float>(amp * std::exp(r.uni(-2.5, 2.5)));
  vf::detail(vf::fmt("%dx%d gradients up to %g, contrast %g", w, h, amp, k));
  typedef void (*Fn)(const Mat&, const Mat&, Mat&, const float);
  struct { Fn f; const char* name; } fs[] = {{&pm_g1, "g1"}, {&pm_g2, "g2"}, {&weickert_diffusivity, "weickert"}, {&charbonnier_diffusivity, "charbonnier"}};
  uint64_t hash = 0;
  for (int f = 0; f < 4; ++f) {
    Mat d(h, w, CV_32F, cv::Scalar(9));
    if (!vf::mustReturn("conductivity:returns", fs[f].name, [&] { fs[f].f(Lx, Ly, d, k); })) continue;
    for (int y = 0; y < h; ++y)
      for (int x = 0; x < w; ++x) {
        const double s = (at(Lx, y, x) * at(Lx, y, x) + at(Ly, y, x) * at(Ly, y, x)) / (static_cast<double>(k) * k);
        const double e = f == 0 ? std::exp(-s) : f == 1 ? 1 / (1 + s) : f == 2 ? 1 - std::exp(-3.315 / (s * s * s * s)) : 1 / std::sqrt(1 + s);
        const double g = at(d, y, x);
        VF_EXPECT(std::fabs(g - e) <= 2e-5, std::string("conductivity:") + fs[f].name, "%s at gradient (%g, %g) with contrast %g is %.9g, expected %.9g", fs[f].name, at(Lx, y, x), at(Ly, y, x), k, g, e);
        VF_EXPECT(g >= 0 && g <= 1, std::string("conductivity:range:") + fs[f].name, "%s at gradient (%g, %g) is %.9g", fs[f].name, at(Lx, y, x), at(Ly, y, x), g);
      }
    hash = hash * 31 + hashMat(d);
  }
  vf::evaluated(hash, true, index < 1 ? vf::fmt("%dx%d contrast %g", w, h, k) : "");
  vf::count("conductivities", 4 * w * h);
}

void derivatives(Rng& r, uint64_t index) {
  std::string what;
  Mat L = image(r, 1, 26, &what);
  const int w = L.cols, h = L.rows;
  const size_t xo = r.below(2), yo = 1 - xo, scale = r.chance(0.3) ? 1 : 1 + r.below(9);
  vf::detail(what + vf::fmt(", derivative (%zu,%zu) at scale %zu", xo, yo, scale));
  Mat a, b, L0 = L.clone();
  if (!vf::mustReturn("derivative:returns", "image derivative", [&] { compute_scharr_derivatives(L, a, xo, yo, scale); image_derivatives_scharr(L, b, xo, yo); })) return;
  VF_EXPECT(sameMat(L, L0), "derivative:input", "the image changed");
  if (a.size() != L.size() || b.size() != L.size() || a.type() != CV_32F || b.type() != CV_32F) { vf::violation("derivative:size", "a derivative has another size or type"); return; }
  const int s = static_cast<int>(scale);
  const double wgt = 10.0 / 3.0, norm = 1.0 / (2.0 * s * (wgt + 2.0));
  auto px = [&](int y, int x) { return at(L, cv::borderInterpolate(y, h, cv::BORDER_REFLECT_101), cv::borderInterpolate(x, w, cv::BORDER_REFLECT_101)); };
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double e = 0, u = 0;
      for (int t = -1; t <= 1; ++t) {
        const double smooth = t ? norm : wgt * norm, raw = t ? 3 : 10;
        e += smooth * (xo ? px(y + t * s, x + s) - px(y + t * s, x - s) : px(y + s, x + t * s) - px(y - s, x + t * s));
        u += raw * (xo ? px(y + t, x + 1) - px(y + t, x - 1) : px(y + 1, x + t) - px(y - 1, x + t));
      }
      VF_EXPECT(std::fabs(at(a, y, x) - e) <= 1e-5, "derivative:scaled", "scale %d derivative (%zu,%zu) at (%d,%d) is %.9g, expected %.9g", s, xo, yo, x, y, at(a, y, x), e);
      VF_EXPECT(std::fabs(at(b, y, x) - u) <= 1e-4, "derivative:plain", "derivative (%zu,%zu) at (%d,%d) is %.9g, expected %.9g", xo, yo, x, y, at(b, y, x), u);
    }
  vf::evaluated(hashMat(a) * 31 + hashMat(b), true, index < 1 ? what : "");
}
// Any scale a scale space can ask for; a linear ramp has a constant derivative.
void kernels(Rng& r, uint64_t index) {
  const size_t scale = index < 64 ? index + 1 : 1 + r.below(index % 4 ? 200 : 1500), dx = r.below(3), dy = dx == 0 ? 1 : r.below(2);
  const size_t xo = dx > 1 ? 1 : dx, yo = dx > 1 ? 0 : dy;
  vf::detail(vf::fmt("kernels of order (%zu,%zu) at scale %zu", xo, yo, scale));
  Mat kx, ky;
  if (xo == 1 && yo == 1 && scale == 1) return;
  if (!vf::mustReturn("kernel:returns", "derivative kernels", [&] { compute_derivative_kernels(kx, ky, xo, yo, scale); })) return;
  const int n = 2 * static_cast<int>(scale) + 1;
  VF_EXPECT(static_cast<int>(kx.total()) == n && static_cast<int>(ky.total()) == n, "kernel:size", "kernels of %zu and %zu entries at scale %zu", kx.total(), ky.total(), scale);
  if (static_cast<int>(kx.total()) != n || static_cast<int>(ky.total()) != n) return;
  const double norm = 1.0 / (2.0 * scale * (10.0 / 3.0 + 2.0));
  for (int k = 0; k < 2; ++k) {
    const size_t order = k ? yo : xo;
    for (int i = 0; i < n; ++i) {
      const double v = (k ? ky : kx).at<float>(i);
      const double e = order == 1 ? (i == 0 ? -1 : i == n - 1 ? 1 : 0) : (i == 0 || i == n - 1 ? norm : i == n / 2 ? norm * 10.0 / 3.0 : 0);
      VF_EXPECT(std::fabs(v - e) <= 1e-6 + 1e-6 * std::fabs(e), "kernel:entry", "entry %d of %d of the order %zu kernel is %g, expected %g", i, n, order, v, e);
    }
  }
  vf::evaluated(scale * 9 + xo * 3 + yo, true);
}

void blur(Rng& r, uint64_t index) {
  std::string what;
  Mat L = image(r, 1, 26, &what);
  const int w = L.cols, h = L.rows;
  const float sigma = static_cast<float>(r.uni(0.55, 4));
  const bool sized = r.chance(0.4);
  size_t kx = sized ? 1 + r.below(15) : 0, ky = sized ? 1 + r.below(15) : 0;
  vf::detail(what + vf::fmt(", blur %g, kernel %zux%zu", sigma, kx, ky));
  Mat d, L0 = L.clone(), inPlace = L.clone();
  if (!vf::mustReturn("blur:returns", "Gaussian convolution", [&] { gaussian_2D_convolution(L, d, kx, ky, sigma); gaussian_2D_convolution(inPlace, inPlace, kx, ky, sigma); })) return;
  VF_EXPECT(sameMat(L, L0), "blur:input", "the image changed");
  VF_EXPECT(sameMat(d, inPlace), "blur:inplace", "in place and into another image differ");
  if (!sized || sigma > kx || sigma > ky) kx = ky = static_cast<size_t>(std::ceil(2.0 * (1.0 + (sigma - 0.8) / 0.3)));
  kx |= 1;
  ky |= 1;
  auto gk = [&](int n) { std::vector<double> k(n); double t = 0; for (int i = 0; i < n; ++i) { const double u = i - n / 2; k[i] = std::exp(-u * u / (2.0 * sigma * sigma)); t += k[i]; } for (double& v : k) v /= t; return k; };
  std::vector<double> gx = gk(static_cast<int>(kx)), gy = gk(static_cast<int>(ky));
  for (int rep = 0; rep < 40; ++rep) {
    const int y = static_cast<int>(r.below(h)), x = static_cast<int>(r.below(w));
    double e = 0;
    for (size_t j = 0; j < ky; ++j) for (size_t i = 0; i < kx; ++i)
      e += gx[i] * gy[j] * at(L, std::min(h - 1, std::max(0, y + static_cast<int>(j) - static_cast<int>(ky / 2))), std::min(w - 1, std::max(0, x + static_cast<int>(i) - static_cast<int>(kx / 2))));
    VF_EXPECT(std::fabs(at(d, y, x) - e) <= 1e-5, "blur:value", "blurred pixel (%d,%d) is %.9g, expected %.9g (kernel %zux%zu)", x, y, at(d, y, x), e, kx, ky);
  }
  vf::evaluated(hashMat(d), true, index < 1 ? what : "");
}

// The contrast lies where the stated share of the gradients is below it.
void percentile(Rng& r, uint64_t index) {
  std::string what;
  Mat L = image(r, 1, 40, &what);
  const int w = L.cols, h = L.rows;
  const float perc = r.chance(0.3) ? 0.7f : static_cast<float>(r.uni(0.05, 1)), gscale = static_cast<float>(r.uni(0.6, 2));
  const size_t nbins = r.chance(0.3) ? 300 : 1 + r.below(400);
  vf::detail(what + vf::fmt(", percentile %g of %zu bins, scale %g", perc, nbins, gscale));
  float k = -1;
  if (!vf::mustReturn("percentile:returns", "contrast percentile", [&] { k = compute_k_percentile(L, perc, gscale, nbins, 0, 0); })) return;
  Mat g;
  gaussian_2D_convolution(L, g, 0, 0, gscale);
  std::vector<double> mags;
  double hmax = 0;
  auto px = [&](int y, int x) { return at(g, cv::borderInterpolate(y, h, cv::BORDER_REFLECT_101), cv::borderInterpolate(x, w, cv::BORDER_REFLECT_101)); };
  int uncertain = 0;
  for (int y = 1; y + 1 < h; ++y)
    for (int x = 1; x + 1 < w; ++x) {
      double gx = 0, gy = 0;
      for (int t = -1; t <= 1; ++t) { const double c = t ? 3 : 10; gx += c * (px(y + t, x + 1) - px(y + t, x - 1)); gy += c * (px(y + 1, x + t) - px(y - 1, x + t)); }
      const double m = std::hypot(gx, gy);
      if (m < 2e-5) { if (m > 0) ++uncertain; continue; }  // rounding decides whether it counts
      mags.push_back(m);
      hmax = std::max(hmax, m);
    }
  const double n = static_cast<double>(mags.size()), need = std::floor(n * perc);
  vf::evaluated(vf::hashBytes(&k, 4, hashMat(L)), mags.size() > 10, index < 2 ? what + vf::fmt(": %g of at most %g", k, hmax) : "");
  VF_EXPECT(k >= 0 && k <= hmax + 1e-3, "percentile:range", "contrast %.9g with gradients up to %.9g", k, hmax);
  if (mags.size() < 20 || hmax < 1e-3) return;
  const double eps = 1e-4 * hmax + 1e-5;
  double below = 0, inside = 0;
  for (double m : mags) { if (m <= k + eps) ++below; if (m < k - hmax / nbins - eps) ++inside; }
  const double slack = 1 + 0 * uncertain + uncertain;
  VF_EXPECT(below + slack >= need, "percentile:low", "contrast %.9g: only %g of %g gradients lie below, needed %g", k, below, n, need);
  VF_EXPECT(inside <= need + slack, "percentile:high", "contrast %.9g: %g gradients lie more than a bin below, needed %g of %g", k, inside, need, n);
  vf::count("percentiles decided");
}

void maxima(Rng& r, uint64_t) {
  const int w = 1 + static_cast<int>(r.below(8)), h = 1 + static_cast<int>(r.below(8));
  Mat m(h, w, CV_32F);
  const int levels = 2 + static_cast<int>(r.below(20));
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at<float>(y, x) = static_cast<float>(r.below(levels)) - 3;
  const int row = static_cast<int>(r.below(h)), col = static_cast<int>(r.below(w)), d = 1 + static_cast<int>(r.below(3));
  const bool same = r.chance(0.5);
  const float v = same ? m.at<float>(row, col) : static_cast<float>(r.below(levels)) - 3;
  vf::detail(vf::fmt("%g at (%d,%d) of %dx%d within %d", v, col, row, w, h, d));
  bool got = false, e = true;
  if (!vf::mustReturn("maximum:returns", "neighbourhood test", [&] { got = check_maximum_neighbourhood(m, d, v, row, col, same); })) return;
  for (int y = std::max(0, row - d); y <= std::min(h - 1, row + d); ++y)
    for (int x = std::max(0, col - d); x <= std::min(w - 1, col + d); ++x)
      if (!(same && y == row && x == col) && at(m, y, x) > v) e = false;
  VF_EXPECT(got == e, "maximum", "%g at (%d,%d) %s a maximum", v, col, row, got ? "reported as" : "not reported as");
  vf::evaluated(hashMat(m) * 31 + row * 8 + col, true);
}

// ---------------------------------------------------------------------------
// C26
std::string show(const KAZEOptions& o) {
  return vf::fmt("descriptor %d diffusivity %d %s soffset %g omax %d sublevels %d threshold %g sderivatives %g percentile %g bins %zu", o.descriptor, o.diffusivity, o.use_fed ? "FED" : "AOS", o.soffset, o.omax, o.nsublevels, o.dthreshold, o.sderivatives, o.kcontrast_percentile, o.kcontrast_nbins);
}
KAZEOptions someOptions(Rng& r, uint64_t index) {
  KAZEOptions o;
  o.descriptor = static_cast<DESCRIPTOR_TYPE>(index % 12);
  o.diffusivity = static_cast<DIFFUSIVITY_TYPE>((index / 12) % 4);
  o.use_fed = (index / 48) % 2 == 0;
  if (r.chance(0.4)) {
    o.soffset = static_cast<float>(r.uni(0.8, 2.5));
    o.omax = 1 + static_cast<int>(r.below(4));
    o.nsublevels = 1 + static_cast<int>(r.below(6));
    o.sderivatives = static_cast<float>(r.uni(0.6, 2));
    o.kcontrast_percentile = static_cast<float>(r.uni(0.3, 0.95));
    o.kcontrast_nbins = 1 + r.below(400);
  }
  o.dthreshold = r.chance(0.3) ? 0.001f : static_cast<float>(std::exp(r.uni(-12, -4)));
  return o;
}
struct Features { int rc; Kpts kpts; Mat desc; };
bool sameKpts(const Kpts& a, const Kpts& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!vf::sameBits(a[i].pt.x, b[i].pt.x) || !vf::sameBits(a[i].pt.y, b[i].pt.y) || !vf::sameBits(a[i].size, b[i].size) || !vf::sameBits(a[i].angle, b[i].angle) || !vf::sameBits(a[i].response, b[i].response) || a[i].octave != b[i].octave || a[i].class_id != b[i].class_id) return false;
  return true;
}
bool extract(libKAZE::KAZE* k, const Mat& img, Features* f, const char* how) {
  return vf::mustReturn("extract:returns", how, [&] {
    f->rc = k->Create_Nonlinear_Scale_Space(img);
    if (f->rc != 0) { f->kpts.clear(); f->desc.release(); return; }
    k->Feature_Detection(f->kpts);
    k->Compute_Descriptors(f->kpts, f->desc);
  });
}
bool extended(int d) { return d == SURF_EXTENDED || d == SURF_EXTENDED_UPRIGHT || d == MSURF_EXTENDED || d == MSURF_EXTENDED_UPRIGHT || d == GSURF_EXTENDED || d == GSURF_EXTENDED_UPRIGHT; }

void wellFormed(const KAZEOptions& o, const Mat& img, const Features& f) {
  const int len = extended(o.descriptor) ? 128 : 64;
  VF_EXPECT(f.desc.rows == static_cast<int>(f.kpts.size()) && (f.kpts.empty() || (f.desc.cols == len && f.desc.type() == CV_32F)), "descriptor:shape", "%zu features, descriptors %dx%d", f.kpts.size(), f.desc.rows, f.desc.cols);
  for (size_t i = 0; i < f.kpts.size(); ++i) {
    const cv::KeyPoint& p = f.kpts[i];
    VF_EXPECT(p.pt.x >= 0 && p.pt.y >= 0 && p.pt.x <= img.cols - 1 && p.pt.y <= img.rows - 1, "feature:inside", "feature at (%g,%g) in an image of %dx%d", p.pt.x, p.pt.y, img.cols, img.rows);
    VF_EXPECT(p.response > o.dthreshold, "feature:response", "response %g with threshold %g", p.response, o.dthreshold);
    VF_EXPECT(p.size > 0 && std::isfinite(p.size) && std::isfinite(p.angle), "feature:fields", "size %g angle %g", p.size, p.angle);
    VF_EXPECT(p.class_id >= 1 && p.class_id < o.omax * o.nsublevels - 1, "feature:level", "level %d of %d", p.class_id, o.omax * o.nsublevels);
    if (static_cast<int>(i) >= f.desc.rows || f.desc.cols != len) continue;
    double n2 = 0;
    bool finite = true;
    for (int j = 0; j < len; ++j) { const double v = f.desc.at<float>(static_cast<int>(i), j); finite = finite && std::isfinite(v); n2 += v * v; }
    VF_EXPECT(finite, "descriptor:finite", "descriptor %zu of feature (%g,%g) size %g is not finite", i, p.pt.x, p.pt.y, p.size);
    if (finite) VF_EXPECT(std::fabs(n2 - 1) <= 1e-3, "descriptor:length", "descriptor %zu of feature (%g,%g) has squared length %.9g", i, p.pt.x, p.pt.y, n2);
  }
  vf::count("features", f.kpts.size());
}

void features(Rng& r, uint64_t index) {
  std::string what;
  KAZEOptions o = someOptions(r, index);
  Mat img = image(r, r.chance(0.1) ? 1 : 2, r.chance(0.8) ? 40 : 72, &what);
  o.img_width = img.cols;
  o.img_height = img.rows;
  vf::detail(what + ", " + show(o));
  Mat img0 = img.clone();
  std::unique_ptr<libKAZE::KAZE> k, k2;
  if (!vf::mustReturn("construct", "creating an extractor", [&] { k.reset(new libKAZE::KAZE(o)); })) return;
  Features a, b, c, d;
  if (!extract(k.get(), img, &a, "extracting")) return;
  VF_EXPECT(sameMat(img, img0), "extract:input", "the image changed");
  VF_EXPECT(a.rc == 0 || img.rows < 2 || img.cols < 2, "extract:code", "an image of %dx%d was refused", img.cols, img.rows);
  if (a.rc == 0) wellFormed(o, img, a);
  // Again: with the same lists, the same extractor, a used and a fresh one.
  b = a;
  b.desc = a.desc.clone();
  if (extract(k.get(), img, &b, "extracting again into the same lists")) VF_EXPECT(sameKpts(a.kpts, b.kpts) && sameMat(a.desc, b.desc), "repeat:reused lists", "%zu features, then %zu, when the lists are used again", a.kpts.size(), b.kpts.size());
  std::string w2;
  Mat other = image(r, 2, 30, &w2);
  Mat otherSized;
  cv::resize(other, otherSized, img.size());
  if (!extract(k.get(), otherSized, &d, "extracting another image")) return;
  if (extract(k.get(), img, &c, "extracting after another image")) VF_EXPECT(sameKpts(a.kpts, c.kpts) && sameMat(a.desc, c.desc), "repeat:used extractor", "%zu features, %zu after another image (%s)", a.kpts.size(), c.kpts.size(), w2.c_str());
  KAZEOptions o2 = o;
  if (!vf::mustReturn("construct", "creating an extractor", [&] { k2.reset(new libKAZE::KAZE(o2)); })) return;
  Features e;
  if (extract(k2.get(), img, &e, "extracting with a fresh extractor")) VF_EXPECT(sameKpts(a.kpts, e.kpts) && sameMat(a.desc, e.desc), "repeat:fresh extractor", "%zu features, %zu from a fresh extractor", a.kpts.size(), e.kpts.size());
  vf::evaluated(hashMat(a.desc) ^ hashMat(img), !a.kpts.empty(), index < 2 ? what + vf::fmt(": %zu features", a.kpts.size()) : "");
  if (!a.kpts.empty()) vf::count(vf::fmt("with features: descriptor %d", o.descriptor));
  if (!a.kpts.empty()) vf::count(vf::fmt("with features: diffusivity %d %s", o.diffusivity, o.use_fed ? "FED" : "AOS"));
}

// Features and descriptors against their definitions, on the scale space the
// extractor built: every step of the chain is recomputed from the one before.
struct Peak { int level, y, x; double v, d[3]; bool solved, kept; };
double interp(const Mat& m, int y1, int x1, int y2, int x2, float fx, float fy) {
  return (1.0 - fx) * (1.0 - fy) * at(m, y1, x1) + fx * (1.0 - fy) * at(m, y1, x2) + (1.0 - fx) * fy * at(m, y2, x1) + fx * fy * at(m, y2, x2);
}
int rnd(float f) { return static_cast<int>(f + 0.5f); }
int fit(int v, int n) { return std::min(n - 1, std::max(0, v)); }
// The sums of derivatives a descriptor holds; returns its length before normalising.
double referenceDescriptor(const TEvolution& e, const cv::KeyPoint& kp, int type, std::vector<double>* out, double* doubtful) {
  *doubtful = 0;
  const bool ext = extended(type);
  const bool upright = type == SURF_UPRIGHT || type == SURF_EXTENDED_UPRIGHT || type == MSURF_UPRIGHT || type == MSURF_EXTENDED_UPRIGHT || type == GSURF_UPRIGHT || type == GSURF_EXTENDED_UPRIGHT;
  const bool m = type == MSURF || type == MSURF_UPRIGHT || type == MSURF_EXTENDED || type == MSURF_EXTENDED_UPRIGHT;
  const bool g = type == GSURF || type == GSURF_UPRIGHT || type == GSURF_EXTENDED || type == GSURF_EXTENDED_UPRIGHT;
  const bool axes = upright && type != GSURF_UPRIGHT;  // rows of the pattern along the image's rows
  const int s = rnd(kp.size / 2.0f), w = e.Lx.cols, h = e.Lx.rows;
  const float co = upright ? 1.f : static_cast<float>(cos(kp.angle)), si = upright ? 0.f : static_cast<float>(sin(kp.angle)), xf = kp.pt.x, yf = kp.pt.y;
  out->clear();
  for (int bi = 0; bi < 4; ++bi)
    for (int bj = 0; bj < 4; ++bj) {
      const int i0 = m ? -12 + 5 * bi : -10 + 5 * bi, j0 = m ? -12 + 5 * bj : -10 + 5 * bj, n = m ? 9 : 5;
      double sums[8] = {0};
      auto place = [&](int k, int l, float* x, float* y) {
        if (axes) { *y = k * s + yf; *x = l * s + xf; }
        else { *y = yf + (l * s * co + k * s * si); *x = xf + (-l * s * si + k * s * co); }
      };
      float cx, cy;
      place(i0 + 5, j0 + 5, &cx, &cy);
      for (int k = i0; k < i0 + n; ++k)
        for (int l = j0; l < j0 + n; ++l) {
          float x, y;
          place(k, l, &x, &y);
          const bool whole = m && !upright;
          const int y1 = fit(whole ? rnd(static_cast<float>(y - .5)) : static_cast<int>(y - .5), h), x1 = fit(whole ? rnd(static_cast<float>(x - .5)) : static_cast<int>(x - .5), w);
          const int y2 = fit(static_cast<int>(y + .5), h), x2 = fit(static_cast<int>(x + .5), w);
          const float fx = x - x1, fy = y - y1;
          auto of = [&](const Mat& a) { return static_cast<double>(static_cast<float>(interp(a, y1, x1, y2, x2, fx, fy))); };
          const double rx = of(e.Lx), ry = of(e.Ly);
          double a, b;  // first and second figure of this sample
          // What rounding may put elsewhere: directions without a gradient, and signs of nothing.
          double mag = std::hypot(rx, ry);
          const bool nowhere = g && mag < 3e-5;
          if (g) {
            const double q = rx * rx + ry * ry;
            if (q > 0) {
              const double rxx = of(e.Lxx), rxy = of(e.Lxy), ryy = of(e.Lyy);
              a = (rx * rx * rxx + 2 * rx * rxy * ry + ry * ry * ryy) / q;
              b = (-2 * rx * rxy * ry + rxx * ry * ry + rx * rx * ryy) / q;
              mag = std::fabs(rxx) + std::fabs(rxy) + std::fabs(ryy);
              if (nowhere) *doubtful += mag;
            } else a = b = 0;
            if (ext) std::swap(a, b);
          } else if (upright) { a = rx; b = ry; }
          else { a = -rx * si + ry * co; b = rx * co + ry * si; }
          if (m) { const double t = std::exp(-((cx - x) * (cx - x) + (cy - y) * (cy - y)) / (2.0 * 2.5 * s * 2.5 * s)); a *= t; b *= t; }
          if (ext && ((a != 0 && std::fabs(a) < 1e-5 * mag) || (b != 0 && std::fabs(b) < 1e-5 * mag))) *doubtful += std::fabs(a) + std::fabs(b);
          if (!ext) { sums[0] += a; sums[1] += b; sums[2] += std::fabs(a); sums[3] += std::fabs(b); }
          else {
            sums[b >= 0 ? 0 : 1] += a;
            sums[b >= 0 ? 2 : 3] += std::fabs(a);
            sums[a >= 0 ? 4 : 5] += b;
            sums[a >= 0 ? 6 : 7] += std::fabs(b);
          }
        }
      const double t = m ? std::exp(-((bi - 1.5) * (bi - 1.5) + (bj - 1.5) * (bj - 1.5)) / (2 * 1.5 * 1.5)) : 1;
      for (int q = 0; q < (ext ? 8 : 4); ++q) out->push_back(sums[q] * t);
    }
  double len = 0;
  for (double v : *out) len += v * v;
  len = std::sqrt(len);
  if (len > 0) { for (double& v : *out) v /= len; *doubtful /= len; }
  return len;
}
// The strength of the strongest window of directions, and of the best window that points along an angle.
void orientation(const TEvolution& e, const cv::KeyPoint& kp, double* best, double* there, double* doubtful) {
  const int s = rnd(kp.size / 2.0f);
  std::vector<double> rx, ry, an;
  for (int i = -6; i <= 6; ++i)
    for (int j = -6; j <= 6; ++j) {
      if (i * i + j * j >= 36) continue;
      const int y = rnd(kp.pt.y + j * s), x = rnd(kp.pt.x + i * s);
      if (y < 0 || x < 0 || y >= e.Lx.rows || x >= e.Lx.cols) continue;
      const double wgt = std::exp(-((y - kp.pt.y) * (y - kp.pt.y) + (x - kp.pt.x) * (x - kp.pt.x)) / (2 * 6.25 * s * s));
      rx.push_back(wgt * at(e.Lx, y, x));
      ry.push_back(wgt * at(e.Ly, y, x));
      double a = std::atan2(ry.back(), rx.back());
      an.push_back(a < 0 ? a + 2 * M_PI : a);
    }
  // Samples at a window's edge, where rounding decides, are tried both ways;
  // only windows without such samples count for what has to be reached.
  *best = *there = *doubtful = 0;
  double all = 0;
  for (size_t i = 0; i < an.size(); ++i) all += std::hypot(rx[i], ry[i]);
  for (double a1 = 0; a1 < 2 * M_PI; a1 += 0.15f) {
    double sx[2] = {0, 0}, sy[2] = {0, 0}, ex[2] = {0, 0}, ey[2] = {0, 0}, edge = 0;  // e: samples at either edge
    for (size_t i = 0; i < an.size(); ++i) {
      double rel = an[i] - a1;
      if (rel < 0) rel += 2 * M_PI;
      const bool first = rel < 0.01 || rel > 2 * M_PI - 0.01, last = std::fabs(rel - M_PI / 3) < 0.01;
      const bool wrapped = a1 + M_PI / 3 > 2 * M_PI - 0.01 && (an[i] < 0.01 || an[i] > 2 * M_PI - 0.01);
      if (first || last || wrapped) { ex[last] += rx[i]; ey[last] += ry[i]; edge += std::hypot(rx[i], ry[i]); }
      else if (rel < M_PI / 3) { sx[0] += rx[i]; sy[0] += ry[i]; }
    }
    if (edge >= 1e-3 * all) *doubtful = std::max(*doubtful, std::pow(std::hypot(sx[0], sy[0]) + edge, 2));
    else *best = std::max(*best, sx[0] * sx[0] + sy[0] * sy[0]);
    for (int v = 0; v < 4; ++v) {
      const double x = sx[0] + (v & 1 ? ex[0] : 0) + (v & 2 ? ex[1] : 0), y = sy[0] + (v & 1 ? ey[0] : 0) + (v & 2 ? ey[1] : 0);
      double off = std::fabs(std::atan2(y, x) - kp.angle);
      off = std::fmod(off, 2 * M_PI);
      off = std::min(off, 2 * M_PI - off);
      if (off < 0.04) *there = std::max(*there, x * x + y * y);
    }
  }
}
void definition(Rng& r, uint64_t index) {
  std::string what;
  KAZEOptions o = someOptions(r, index);
  if (o.omax * o.nsublevels < 3) o.nsublevels = 3;
  Mat img = image(r, 10, r.chance(0.7) ? 44 : r.chance(0.8) ? 80 : 150, &what);
  o.img_width = img.cols;
  o.img_height = img.rows;
  vf::detail(what + ", " + show(o));
  std::unique_ptr<libKAZE::KAZE> k;
  Features f;
  if (!vf::mustReturn("construct", "creating an extractor", [&] { k.reset(new libKAZE::KAZE(o)); })) return;
  if (!extract(k.get(), img, &f, "extracting") || f.rc != 0) return;
  const std::vector<TEvolution>& ev = (*k).*get(EvolutionTag());
  const int n = static_cast<int>(ev.size()), w = img.cols, h = img.rows;
  for (const TEvolution& e : ev) if (!cv::checkRange(e.Ldet) || e.Ldet.size() != img.size()) return;  // not a number: no contrast
  // The response is the determinant of the Hessian of the smoothed level at its scale.
  for (int i = 0; i < n; ++i) {
    const int s = static_cast<int>(ev[i].esigma + 0.5f);
    const double norm = 1.0 / (2.0 * s * (10.0 / 3 + 2.0));
    auto diff = [&](const Mat& L, bool alongX) {
      Mat out(h, w, CV_64F);
      auto px = [&](int y, int x) { y = cv::borderInterpolate(y, h, cv::BORDER_REFLECT_101); x = cv::borderInterpolate(x, w, cv::BORDER_REFLECT_101); return L.at<double>(y, x); };
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        double e = 0;
        for (int t = -1; t <= 1; ++t) e += (t ? norm : norm * 10.0 / 3) * (alongX ? px(y + t * s, x + s) - px(y + t * s, x - s) : px(y + s, x + t * s) - px(y - s, x + t * s));
        out.at<double>(y, x) = e * s;
      }
      return out;
    };
    if (i % 3 != static_cast<int>(index % 3) && w * h > 1000) continue;
    Mat sm;
    ev[i].Lsmooth.convertTo(sm, CV_64F);
    const Mat lx = diff(sm, true), ly = diff(sm, false), lxx = diff(lx, true), lyy = diff(ly, false), lxy = diff(lx, false);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
      const double e = lxx.at<double>(y, x) * lyy.at<double>(y, x) - lxy.at<double>(y, x) * lxy.at<double>(y, x), a = std::fabs(lxx.at<double>(y, x)) + std::fabs(lyy.at<double>(y, x)) + std::fabs(lxy.at<double>(y, x)) + 1e-3;
      VF_EXPECT(std::fabs(e - at(ev[i].Ldet, y, x)) <= 1e-4 * s * s * a + 1e-6, "definition:response", "response at (%d,%d) of level %d is %.9g, the determinant of the Hessian %.9g", x, y, i, at(ev[i].Ldet, y, x), e);
      VF_EXPECT(std::fabs(lx.at<double>(y, x) - at(ev[i].Lx, y, x)) <= 1e-4 * s && std::fabs(ly.at<double>(y, x) - at(ev[i].Ly, y, x)) <= 1e-4 * s, "definition:derivative", "derivatives at (%d,%d) of level %d are (%.9g, %.9g), expected (%.9g, %.9g)", x, y, i, at(ev[i].Lx, y, x), at(ev[i].Ly, y, x), lx.at<double>(y, x), ly.at<double>(y, x));
    }
    vf::count("levels checked");
  }
  // All maxima over place and scale.
  std::vector<Peak> peaks;
  for (int i = 1; i + 1 < n; ++i)
    for (int y = 1; y + 1 < h; ++y)
      for (int x = 1; x + 1 < w; ++x) {
        const double v = at(ev[i].Ldet, y, x);
        if (!(v > o.dthreshold) || !(v >= 0.00001f)) continue;
        bool top = true;
        for (int l = i - 1; l <= i + 1 && top; ++l) for (int dy = -1; dy <= 1 && top; ++dy) for (int dx = -1; dx <= 1; ++dx) if (at(ev[l].Ldet, y + dy, x + dx) > v) { top = false; break; }
        if (!top) continue;
        Peak p = {i, y, x, v, {9, 9, 9}, false, false};
        auto D = [&](int l, int dy, int dx) { return at(ev[i + l].Ldet, y + dy, x + dx); };
        const double gx = .5 * (D(0, 0, 1) - D(0, 0, -1)), gy = .5 * (D(0, 1, 0) - D(0, -1, 0)), gs = .5 * (D(1, 0, 0) - D(-1, 0, 0));
        const double xx = D(0, 0, 1) + D(0, 0, -1) - 2 * v, yy = D(0, 1, 0) + D(0, -1, 0) - 2 * v, ss = D(1, 0, 0) + D(-1, 0, 0) - 2 * v;
        const double xy = .25 * (D(0, 1, 1) + D(0, -1, -1) - D(0, -1, 1) - D(0, 1, -1)), xs = .25 * (D(1, 0, 1) + D(-1, 0, -1) - D(1, 0, -1) - D(-1, 0, 1)), ys = .25 * (D(1, 1, 0) + D(-1, -1, 0) - D(1, -1, 0) - D(-1, 1, 0));
        const double det = xx * (yy * ss - ys * ys) - xy * (xy * ss - ys * xs) + xs * (xy * ys - yy * xs);
        const double sz = std::max({std::fabs(xx), std::fabs(yy), std::fabs(ss), std::fabs(xy), std::fabs(xs), std::fabs(ys)});
        if (std::fabs(det) > 1e-3 * sz * sz * sz && sz > 1e-3 * v) {
          p.solved = true;
          p.d[0] = -((yy * ss - ys * ys) * gx + (xs * ys - xy * ss) * gy + (xy * ys - xs * yy) * gs) / det;
          p.d[1] = -((xs * ys - xy * ss) * gx + (xx * ss - xs * xs) * gy + (xs * xy - xx * ys) * gs) / det;
          p.d[2] = -((xy * ys - xs * yy) * gx + (xs * xy - xx * ys) * gy + (xx * yy - xy * xy) * gs) / det;
        }
        peaks.push_back(p);
      }
  auto toString = [&](const cv::KeyPoint& q) { return vf::fmt("feature (%.9g,%.9g) size %.9g response %.9g level %d", q.pt.x, q.pt.y, q.size, q.response, q.class_id); };
  for (const cv::KeyPoint& q : f.kpts) {
    Peak* match = nullptr;
    double off = 1e300;
    for (Peak& p : peaks) {
      if (p.level != q.class_id || std::fabs(p.x - q.pt.x) > 1.001 || std::fabs(p.y - q.pt.y) > 1.001 || std::fabs(p.v - q.response) > 1e-6 * p.v) continue;
      const double sz = 2.0 * o.soffset * std::pow(2.0, p.level / o.nsublevels + (p.level % o.nsublevels + p.d[2]) / o.nsublevels);
      const double m = p.solved ? std::max({std::fabs(p.x + p.d[0] - q.pt.x), std::fabs(p.y + p.d[1] - q.pt.y), std::fabs(sz - q.size) / sz}) : 0.5;
      if (!match || m < off) { match = &p; off = m; }
    }
    VF_EXPECT(match, "definition:maximum", "%s is no maximum of the response over place and scale", toString(q).c_str());
    if (!match) continue;
    VF_EXPECT(!match->kept || off > 1e-3, "definition:once", "%s reported twice", toString(q).c_str());
    match->kept = true;
    if (match->solved) VF_EXPECT(off <= 5e-3, "definition:refinement", "%s, by the maximum at (%d,%d) with offsets (%.6g, %.6g, %.6g)", toString(q).c_str(), match->x, match->y, match->d[0], match->d[1], match->d[2]);
    vf::count("features matched to maxima");
  }
  // A maximum that no stronger one nearby suppresses and whose place is well defined is reported.
  for (const Peak& p : peaks) {
    if (p.kept || !p.solved || std::max({std::fabs(p.d[0]), std::fabs(p.d[1]), std::fabs(p.d[2])}) > 0.99) continue;
    bool suppressed = false;
    for (const Peak& q : peaks) {
      if (&q == &p || q.v < p.v || std::abs(q.level - p.level) > 1) continue;
      const double rad = std::max<double>(ev[p.level].sigma_size, ev[q.level].sigma_size);
      if ((q.x - p.x) * (q.x - p.x) + (q.y - p.y) * (q.y - p.y) < rad * rad) suppressed = true;
    }
    VF_EXPECT(suppressed, "definition:missing", "the maximum %.9g at (%d,%d) of level %d with offsets (%.4g, %.4g, %.4g) is not reported among %zu features", p.v, p.x, p.y, p.level, p.d[0], p.d[1], p.d[2], f.kpts.size());
  }
  // Orientation and descriptor.
  const bool upright = o.descriptor == SURF_UPRIGHT || o.descriptor == SURF_EXTENDED_UPRIGHT || o.descriptor == MSURF_UPRIGHT || o.descriptor == MSURF_EXTENDED_UPRIGHT || o.descriptor == GSURF_UPRIGHT || o.descriptor == GSURF_EXTENDED_UPRIGHT;
  const size_t most = 60;
  for (size_t i = 0; i < f.kpts.size() && i < most; ++i) {
    const cv::KeyPoint& q = f.kpts[i];
    const TEvolution& e = ev[q.class_id];
    if (upright) VF_EXPECT(q.angle == 0, "definition:upright", "%s has angle %g", toString(q).c_str(), q.angle);
    else {
      double best, there, doubtful;
      orientation(e, q, &best, &there, &doubtful);
      if (best > 1e-6 && doubtful < 0.97 * best) vf::count("orientations decided by whole windows");
      if (best > 1e-6 && doubtful < 0.97 * best) VF_EXPECT(there >= 0.97 * best, "definition:orientation", "%s: angle %.6g, where the gradients reach %.6g of %.6g", toString(q).c_str(), q.angle, std::sqrt(there), std::sqrt(best));
      vf::count("orientations");
    }
    std::vector<double> ref;
    double doubtful;
    const double len = referenceDescriptor(e, q, o.descriptor, &ref, &doubtful);
    if (len < 1e-3 || doubtful > 0.02 || static_cast<int>(ref.size()) != f.desc.cols) continue;
    double d2 = 0;
    for (size_t j = 0; j < ref.size(); ++j) d2 += (ref[j] - f.desc.at<float>(static_cast<int>(i), static_cast<int>(j))) * (ref[j] - f.desc.at<float>(static_cast<int>(i), static_cast<int>(j)));
    vf::maxOf("descriptor distance", std::sqrt(d2));
    VF_EXPECT(std::sqrt(d2) <= 0.03, "definition:descriptor", "%s: descriptor %d is %.6g from the sums of derivatives it stands for", toString(q).c_str(), o.descriptor, std::sqrt(d2));
    vf::count(vf::fmt("descriptors %d", o.descriptor));
  }
  vf::evaluated(hashMat(f.desc) ^ hashMat(img), !f.kpts.empty(), index < 2 ? what + vf::fmt(": %zu features of %zu maxima", f.kpts.size(), peaks.size()) : "");
}

// The scale space itself: schedule, conservation, and the value range.
void scaleSpace(Rng& r, uint64_t index) {
  std::string what;
  KAZEOptions o = someOptions(r, index);
  Mat img = image(r, 4, 40, &what);
  o.img_width = img.cols;
  o.img_height = img.rows;
  vf::detail(what + ", " + show(o));
  int rc = -2;
  std::unique_ptr<libKAZE::KAZE> k;
  if (!vf::mustReturn("scale space:returns", "creating a scale space", [&] { k.reset(new libKAZE::KAZE(o)); rc = k->Create_Nonlinear_Scale_Space(img); })) return;
  VF_EXPECT(rc == 0, "scale space:code", "result %d", rc);
  const std::vector<TEvolution>& ev = (*k).*get(EvolutionTag());
  VF_EXPECT(static_cast<int>(ev.size()) == o.omax * o.nsublevels, "scale space:levels", "%zu levels", ev.size());
  double lo = 0, hi = 0;
  uint64_t hash = 0;
  bool finite = true;
  const float contrast = compute_k_percentile(img, o.kcontrast_percentile, o.sderivatives, o.kcontrast_nbins, 0, 0);
  std::unique_ptr<libKAZE::KAZE> fresh;
  if (rc == 0 && !ev.empty() && ev[0].Lt.size() == img.size()) {
    Mat first, smooth;
    gaussian_2D_convolution(img, first, 0, 0, o.soffset);
    gaussian_2D_convolution(first, smooth, 0, 0, o.sderivatives);
    VF_EXPECT(cv::norm(first, ev[0].Lt, cv::NORM_INF) <= 1e-5 && cv::norm(smooth, ev[0].Lsmooth, cv::NORM_INF) <= 1e-5, "scale space:first", "the first level is not the image smoothed by %g", o.soffset);
  }
  for (size_t i = 0; i < ev.size(); ++i) {
    const double sigma = o.soffset * std::pow(2.0, static_cast<double>(i % o.nsublevels) / o.nsublevels + i / o.nsublevels);
    VF_EXPECT(std::fabs(ev[i].esigma - sigma) <= 1e-4 * sigma && std::fabs(ev[i].etime - sigma * sigma / 2) <= 1e-4 * sigma * sigma, "scale space:sigma", "level %zu: scale %g time %g, expected %g and %g", i, ev[i].esigma, ev[i].etime, sigma, sigma * sigma / 2);
    if (o.use_fed && i > 0) {
      const std::vector<float>& t = ((*k).*get(TstepsTag()))[i - 1];
      double s = 0;
      for (float v : t) s += v;
      VF_EXPECT(std::fabs(s - (ev[i].etime - ev[i - 1].etime)) <= 1e-3 * ev[i].etime && ((*k).*get(NstepsTag()))[i - 1] == static_cast<int>(t.size()), "scale space:schedule", "level %zu: steps add up to %g, time from %g to %g", i, s, ev[i - 1].etime, ev[i].etime);
    }
    double l, h;
    if (i > 0 && ev[i].Lt.size() == img.size() && contrast > 1e-4 && cv::checkRange(ev[i - 1].Lt)) {
      // This level from the one before, by the steps checked on their own above.
      Mat smooth, lx, ly, flow(img.size(), CV_32F), next = ev[i - 1].Lt.clone(), aux(img.size(), CV_32F);
      gaussian_2D_convolution(ev[i - 1].Lt, smooth, 0, 0, o.sderivatives);
      cv::Scharr(smooth, lx, CV_32F, 1, 0);
      cv::Scharr(smooth, ly, CV_32F, 0, 1);
      switch (o.diffusivity) {
        case PM_G1: pm_g1(lx, ly, flow, contrast); break;
        case PM_G2: pm_g2(lx, ly, flow, contrast); break;
        case WEICKERT: weickert_diffusivity(lx, ly, flow, contrast); break;
        default: charbonnier_diffusivity(lx, ly, flow, contrast);
      }
      const double time = ev[i].etime - ev[i - 1].etime;
      if (o.use_fed) {
        std::vector<float> tau;
        fed_tau_by_process_time(static_cast<float>(time), 1, 0.25f, true, tau);
        for (float t : tau) nld_step_scalar(next, flow, aux, t);
      } else {
        if (!fresh) fresh.reset(new libKAZE::KAZE(o));
        ((*fresh).*get(AosTag()))(next, ev[i - 1].Lt, flow, static_cast<float>(time));
      }
      const double off = cv::norm(next, ev[i].Lt, cv::NORM_INF), offSmooth = cv::norm(smooth, ev[i].Lsmooth, cv::NORM_INF);
      // Many steps in some order amplify rounding; most levels agree exactly.
      VF_EXPECT(off <= 2e-3, "scale space:chain", "level %zu is up to %.6g from level %zu diffused for %.6g with contrast %.6g", i, off, i - 1, time, contrast);
      VF_EXPECT(offSmooth <= 1e-4, "scale space:smooth", "the smoothed image of level %zu is up to %.6g from level %zu smoothed by %g", i, offSmooth, i - 1, o.sderivatives);
      vf::maxOf("level from the one before", off);
      vf::count("levels followed");
    }
    if (ev[i].Lt.size() != img.size()) { vf::violation("scale space:size", "a level has another size"); return; }
    cv::minMaxLoc(ev[i].Lt, &l, &h);
    if (!cv::checkRange(ev[i].Lt)) { finite = false; break; }
    if (i == 0) { lo = l; hi = h; }
    else {
      const double total = cv::sum(ev[i].Lt)[0], before = cv::sum(ev[0].Lt)[0];
      VF_EXPECT(std::fabs(total - before) <= 1e-4 * img.total(), "scale space:total", "level %zu: total %.9g, at first %.9g", i, total, before);
      if (!o.use_fed) VF_EXPECT(l >= lo - 1e-3 && h <= hi + 1e-3, "scale space:range", "level %zu: [%g, %g], at first [%g, %g]", i, l, h, lo, hi);
    }
    hash = hash * 31 + hashMat(ev[i].Lt);
  }
  vf::evaluated(hash, finite && hi > lo, index < 1 ? what : "");
  if (finite) vf::count("scale spaces followed");
}

// A lone round spot is found where it is, whatever its brightness and place.
void spot(Rng& r, uint64_t index) {
  KAZEOptions o;
  o.descriptor = static_cast<DESCRIPTOR_TYPE>(index % 12);
  o.diffusivity = static_cast<DIFFUSIVITY_TYPE>((index / 12) % 4);
  o.use_fed = (index / 48) % 2 == 0;
  const int w = 72 + static_cast<int>(r.below(30)), h = 72 + static_cast<int>(r.below(30));
  o.img_width = w;
  o.img_height = h;
  const double sigma = r.uni(2, 6), cx = r.uni(28, w - 29), cy = r.uni(28, h - 29), base = r.uni(0.3, 0.7), amp = (r.chance(0.5) ? 1 : -1) * r.uni(0.15, 0.3);
  auto make = [&](double x0, double y0, double b, double a, double sigma) {
    Mat m(h, w, CV_32F);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { const double q = ((x - x0) * (x - x0) + (y - y0) * (y - y0)) / (2 * sigma * sigma); m.at<float>(y, x) = static_cast<float>(b + a * (q < 12 ? std::exp(-q) : 0)); }
    return m;
  };
  vf::detail(vf::fmt("a spot of width %.4g and strength %.3g on %.3g at (%.4f,%.4f) of %dx%d, ", sigma, amp, base, cx, cy, w, h) + show(o));
  auto run = [&](const Mat& m, float threshold, Features* f) {
    KAZEOptions q = o;
    q.dthreshold = threshold;
    std::unique_ptr<libKAZE::KAZE> k;
    return vf::mustReturn("construct", "creating an extractor", [&] { k.reset(new libKAZE::KAZE(q)); }) && extract(k.get(), m, f, "extracting a spot") && f->rc == 0;
  };
  auto strongest = [](const Features& f) { const cv::KeyPoint* b = nullptr; for (const cv::KeyPoint& p : f.kpts) if (!b || p.response > b->response) b = &p; return b; };
  const Mat img = make(cx, cy, base, amp, sigma);
  const float threshold = 0.0004f;
  Features f;
  if (!run(img, threshold, &f)) return;
  const cv::KeyPoint* p = strongest(f);
  if (p) {
    const double off = std::hypot(p->pt.x - cx, p->pt.y - cy);
    vf::maxOf("spot found away by", off);
    VF_EXPECT(off <= 0.35, "spot:place", "the strongest feature of %zu is at (%.5g,%.5g), the spot at (%.5g,%.5g)", f.kpts.size(), p->pt.x, p->pt.y, cx, cy);
    VF_EXPECT(p->size >= 1.2 * sigma && p->size <= 5.5 * sigma, "spot:size", "the strongest feature has size %.5g, the spot width %.5g", p->size, sigma);
    vf::count("spots found");
  } else {
    // Two equal responses next to each other are no maximum: of three slightly different spots, one is found.
    vf::count("spots missed");
    bool found = false;
    for (int k = 1; k <= 2 && !found; ++k) {
      Features g;
      found = !run(make(cx + 0.29 * k, cy - 0.17 * k, base, amp, sigma * (1 + 0.07 * k)), threshold, &g) || !g.kpts.empty();
    }
    VF_EXPECT(found, "spot:missed", "no feature on the spot, nor on two slightly larger ones beside it");
  }
  // A darker picture of it: the same features, with responses by the square of the factor.
  Features g;
  if (run(img * 0.5, threshold / 4, &g)) {
    VF_EXPECT(g.kpts.size() == f.kpts.size(), "spot:contrast", "%zu features, %zu at half the brightness", f.kpts.size(), g.kpts.size());
    for (size_t i = 0; i < f.kpts.size() && g.kpts.size() == f.kpts.size(); ++i) {
      const cv::KeyPoint &a = f.kpts[i], &b = g.kpts[i];
      VF_EXPECT(std::hypot(a.pt.x - b.pt.x, a.pt.y - b.pt.y) <= 0.01 && std::fabs(a.size - b.size) <= 0.01 && std::fabs(b.response * 4 - a.response) <= 1e-3 * a.response && cv::norm(f.desc.row(i), g.desc.row(i)) <= 0.03, "spot:contrast", "feature %zu at (%.5g,%.5g) size %.5g response %.5g becomes (%.5g,%.5g) size %.5g response %.5g at half the brightness, descriptor away by %.5g", i, a.pt.x, a.pt.y, a.size, a.response, b.pt.x, b.pt.y, b.size, b.response, cv::norm(f.desc.row(i), g.desc.row(i)));
    }
  }
  // The picture turned by a quarter (x to the right becomes y down).
  Mat turned(w, h, CV_32F);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) turned.at<float>(x, h - 1 - y) = img.at<float>(y, x);
  std::swap(o.img_width, o.img_height);
  Features t;
  if (p && run(turned, threshold, &t)) {
    const cv::KeyPoint* q = strongest(t);
    // Equal neighbouring responses hide a maximum in one of the two pictures now and then.
    static int compared = 0, apart = 0;
    const bool same = q && std::fabs(q->pt.x - (h - 1 - p->pt.y)) <= 0.3 && std::fabs(q->pt.y - p->pt.x) <= 0.3 && std::fabs(q->size - p->size) <= 0.4 * p->size;
    ++compared;
    if (!same) { ++apart; vf::count("turned spots apart"); }
    VF_EXPECT(same || apart < 4 || apart * 20 < compared, "spot:turned", "%d of %d spots apart: a feature at (%.5g,%.5g) size %.5g in a picture of %dx%d, in the turned picture at (%.5g,%.5g) size %.5g", apart, compared, p->pt.x, p->pt.y, p->size, w, h, q ? q->pt.x : -1, q ? q->pt.y : -1, q ? q->size : -1);
  }
  vf::evaluated(hashMat(f.desc) ^ hashMat(img), p, index < 2 ? vf::fmt("%zu features", f.kpts.size()) : "");
}

// Images that are not what the extractor was set up for are refused.
void mismatched(Rng& r, uint64_t index) {
  std::string what;
  KAZEOptions o = someOptions(r, index);
  Mat img = image(r, 2, 24, &what);
  o.img_width = std::max(1, img.cols + static_cast<int>(r.range(-6, 6)));
  o.img_height = std::max(1, img.rows + static_cast<int>(r.range(-6, 6)));
  const int kind = static_cast<int>(r.below(3));
  Mat in = img;
  if (kind == 1) img.convertTo(in, CV_8U, 255);
  if (kind == 2) { Mat ch[] = {img, img, img}; cv::merge(ch, 3, in); }
  if (kind) { o.img_width = img.cols; o.img_height = img.rows; }
  const bool fits = kind == 0 && o.img_width == img.cols && o.img_height == img.rows;
  vf::detail(what + vf::fmt(" kind %d for an extractor of %dx%d, ", kind, o.img_width, o.img_height) + show(o));
  Features f;
  std::string ex;
  vf::Outcome out = vf::guarded([&] {
    libKAZE::KAZE k(o);
    f.rc = k.Create_Nonlinear_Scale_Space(in);
    if (f.rc == 0) { k.Feature_Detection(f.kpts); k.Compute_Descriptors(f.kpts, f.desc); }
  }, &ex);
  if (fits) { VF_EXPECT(out == vf::kOk && f.rc == 0, "mismatch:fits", "a fitting image was refused"); }
  else VF_EXPECT(out != vf::kOk || f.rc != 0, "mismatch:refused", "an image of another size or type was accepted");
  VF_EXPECT(out == vf::kOk || out == vf::kThrew, "mismatch:outcome", "the call %s", vf::outcomeName(out));
  vf::evaluated(hashMat(in) + o.img_width * 64 + o.img_height, true);
}

// ---------------------------------------------------------------------------
// C27
void extremes(Rng& r, uint64_t index) {
  const int w = 1 + static_cast<int>(r.below(20)), h = 1 + static_cast<int>(r.below(20));
  static const double los[] = {-1, 0, -1e6, 2000, 1e5, -5, 0.3, -2000}, his[] = {1, 1, 1e6, 9000, 1e7, -1, 0.3, -1500};
  const int c = static_cast<int>(index % 8);
  Mat m = positive(r, h, w, los[c], his[c]);
  if (r.chance(0.15)) m = cv::Scalar(m.at<float>(0, 0));
  // As part of a larger image.
  Mat big(h + 4, w + 6, CV_32F, cv::Scalar(-3e8));
  Mat view = big(cv::Rect(2, 3, w, h));
  m.copyTo(view);
  const bool useView = r.chance(0.5);
  Mat in = useView ? view : m, keep = m.clone();
  vf::detail(vf::fmt("%dx%d in [%g, %g]%s", w, h, los[c], his[c], useView ? " as part of an image" : ""));
  float lo = 0, hi = 0;
  double elo, ehi;
  cv::minMaxLoc(m, &elo, &ehi);
  if (vf::mustReturn("extreme:returns", "extremes", [&] { compute_min_32F(in, lo); compute_max_32F(in, hi); })) {
    VF_EXPECT(lo == static_cast<float>(elo), "extreme:min", "smallest %.9g reported as %.9g", elo, lo);
    VF_EXPECT(hi == static_cast<float>(ehi), "extreme:max", "largest %.9g reported as %.9g", ehi, hi);
  }
  Mat dst = r.chance(0.5) ? Mat() : Mat(3, 3, CV_8U, cv::Scalar(1)), inplace = m.clone();
  if (vf::mustReturn("scale:returns", "rescaling", [&] { copy_and_convert_scale(in, dst); convert_scale(inplace); })) {
    VF_EXPECT(sameMat(m, keep), "scale:input", "the copied image changed");
    VF_EXPECT(sameMat(dst, inplace), "scale:forms", "in place and copied differ");
    const double span = ehi - elo;
    bool ok = dst.size() == m.size() && dst.type() == CV_32F;
    VF_EXPECT(ok, "scale:shape", "another size or type");
    for (int y = 0; ok && y < h; ++y)
      for (int x = 0; x < w; ++x) {
        const double e = span > 0 ? (at(m, y, x) - elo) / span : 0, tol = 1e-5 + (span > 0 ? 1e-6 * std::max(std::fabs(elo), std::fabs(ehi)) / span : 0);
        VF_EXPECT(std::fabs(at(dst, y, x) - e) <= tol, "scale:value", "%.9g in [%.9g, %.9g] became %.9g, expected %.9g", at(m, y, x), elo, ehi, at(dst, y, x), e);
      }
  }
  vf::evaluated(hashMat(m), true, index < 1 ? vf::fmt("[%g, %g]", elo, ehi) : "");
}

cv::Point2f somePoint(Rng& r) { return cv::Point2f(static_cast<float>(r.uni(0, 640)), static_cast<float>(r.uni(0, 480))); }

void ratio(Rng& r, uint64_t index) {
  const bool many = r.chance(0.05);
  const size_t nt = r.below(many ? 400 : 12), nq = 1 + r.below(many ? 400 : 12);
  Kpts train, query;
  for (size_t i = 0; i < nt; ++i) train.push_back(cv::KeyPoint(somePoint(r), 1));
  for (size_t i = 0; i < nq; ++i) query.push_back(cv::KeyPoint(somePoint(r), 1));
  std::vector<std::vector<cv::DMatch>> matches(nt);
  const float nndr = r.chance(0.2) ? 1.0f : r.chance(0.5) ? 0.5f : static_cast<float>(r.uni(0.1, 1));
  std::vector<cv::Point2f> expect, got;
  int single = 0;
  // The lists of candidates come in any order, and tell whose they are.
  std::vector<int> owner(nt);
  for (size_t i = 0; i < nt; ++i) owner[i] = static_cast<int>(i);
  if (r.chance(0.5)) for (size_t i = 0; i < nt; ++i) std::swap(owner[i], owner[r.below(nt)]);
  for (size_t i = 0; i < nt; ++i) {
    // Fewer than two candidates happen when the other image has fewer features.
    const size_t n = r.chance(0.7) ? 2 : r.below(5);
    float d = static_cast<float>(r.below(6));
    for (size_t j = 0; j < n; ++j) { matches[i].push_back(cv::DMatch(owner[i], static_cast<int>(r.below(nq)), d)); d += static_cast<float>(r.below(6)); }
    if (n < 2) ++single;
    if (n >= 2 && matches[i][0].distance < nndr * matches[i][1].distance) { expect.push_back(train[owner[i]].pt); expect.push_back(query[matches[i][0].trainIdx].pt); }
  }
  vf::detail(vf::fmt("%zu features against %zu, ratio %g, %d with fewer than two candidates", nt, nq, nndr, single));
  if (!vf::mustReturn("ratio:returns", "ratio matching", [&] { matches2points_nndr(train, query, matches, got, nndr); })) return;
  VF_EXPECT(got == expect, "ratio", "%zu points kept, expected %zu", got.size(), expect.size());
  vf::evaluated(vf::hashBytes(got.data(), got.size() * sizeof(cv::Point2f), nt * 31 + nq), !got.empty(), index < 1 ? vf::fmt("%zu of %zu kept", got.size() / 2, nt) : "");
}

void homography(Rng& r, uint64_t index) {
  Mat H = (cv::Mat_<float>(3, 3) << r.uni(0.5, 1.5), r.uni(-0.5, 0.5), r.uni(-50, 50), r.uni(-0.5, 0.5), r.uni(0.5, 1.5), r.uni(-50, 50), r.uni(-5e-4, 5e-4), r.uni(-5e-4, 5e-4), r.chance(0.5) ? 1.0 : r.uni(0.5, 3) * (r.chance(0.3) ? -1 : 1));
  const float tol = static_cast<float>(r.uni(0.5, 5));
  const size_t n = r.below(r.chance(0.03) ? 3000 : 40);
  std::vector<cv::Point2f> m, got(r.below(5));
  std::vector<int> verdict;  // 1 in, 0 out, -1 too close to call
  for (size_t i = 0; i < n; ++i) {
    const cv::Point2f p = somePoint(r);
    const double s = at(H, 2, 0) * p.x + at(H, 2, 1) * p.y + at(H, 2, 2);
    const double x = (at(H, 0, 0) * p.x + at(H, 0, 1) * p.y + at(H, 0, 2)) / s, y = (at(H, 1, 0) * p.x + at(H, 1, 1) * p.y + at(H, 1, 2)) / s;
    const double a = r.uni(0, 2 * M_PI), d = r.chance(0.4) ? r.uni(0, tol) : r.uni(0, 3 * tol);
    const cv::Point2f q(static_cast<float>(x + d * std::cos(a)), static_cast<float>(y + d * std::sin(a)));
    m.push_back(p);
    m.push_back(q);
    const double real = std::hypot(q.x - x, q.y - y), margin = 1e-4 * (1 + (std::fabs(x) + std::fabs(y)) * (1 + 1 / std::fabs(s)) * 0.1);
    verdict.push_back(std::fabs(s) < 1e-2 || !(margin < 0.2) || std::fabs(real - tol) < margin ? -1 : real < tol);
  }
  vf::detail(vf::fmt("%zu matches, tolerance %g", n, tol));
  if (!vf::mustReturn("homography:returns", "inlier selection", [&] { compute_inliers_homography(m, got, H, tol); })) return;
  // In order; the undecided may or may not be there.
  size_t j = 0, in = 0;
  for (size_t i = 0; i < n; ++i) {
    const bool here = 2 * j + 1 < got.size() && got[2 * j] == m[2 * i] && got[2 * j + 1] == m[2 * i + 1];
    if (verdict[i] == 1) VF_EXPECT(here, "homography:missing", "match %zu agrees with the homography but is left out", i);
    if (verdict[i] == 0) VF_EXPECT(!here, "homography:extra", "match %zu does not agree with the homography but is kept", i);
    if (here) ++j;
    in += verdict[i] == 1;
  }
  VF_EXPECT(got.size() == 2 * j, "homography:foreign", "%zu points returned, %zu recognised", got.size(), 2 * j);
  vf::evaluated(vf::hashBytes(got.data(), got.size() * sizeof(cv::Point2f), hashMat(H)), in > 0, index < 1 ? vf::fmt("%zu of %zu inliers", in, n) : "");
}

void ransac(Rng& r, uint64_t index) {
  // Exact correspondences plus clear outliers.
  const bool fund = r.chance(0.4);
  const size_t good = 30 + r.below(30), bad = r.below(good / 3);
  Mat H = (cv::Mat_<double>(3, 3) << r.uni(0.8, 1.2), r.uni(-0.2, 0.2), r.uni(-20, 20), r.uni(-0.2, 0.2), r.uni(0.8, 1.2), r.uni(-20, 20), r.uni(-1e-4, 1e-4), r.uni(-1e-4, 1e-4), 1);
  std::vector<cv::Point2f> m, got;
  std::vector<bool> isGood;
  for (size_t i = 0; i < good + bad; ++i) {
    const bool g = i < good;
    cv::Point2f p = somePoint(r), q;
    if (fund) {  // two views of points in space, shifted sideways: the second image differs along the row
      q = cv::Point2f(static_cast<float>(p.x - r.uni(5, 60)), p.y);
      if (!g) q.y += static_cast<float>(r.uni(40, 100) * (r.chance(0.5) ? 1 : -1));
    } else {
      const double s = H.at<double>(2, 0) * p.x + H.at<double>(2, 1) * p.y + 1;
      q = cv::Point2f(static_cast<float>((H.at<double>(0, 0) * p.x + H.at<double>(0, 1) * p.y + H.at<double>(0, 2)) / s), static_cast<float>((H.at<double>(1, 0) * p.x + H.at<double>(1, 1) * p.y + H.at<double>(1, 2)) / s));
      if (!g) q += cv::Point2f(static_cast<float>(r.uni(40, 200)), static_cast<float>(r.uni(-200, 200)));
    }
    m.push_back(p);
    m.push_back(q);
    isGood.push_back(g);
  }
  vf::detail(vf::fmt("%zu agreeing and %zu other matches, %s", good, bad, fund ? "fundamental matrix" : "homography"));
  if (!vf::mustReturn("ransac:returns", "robust inlier selection", [&] { compute_inliers_ransac(m, got, 2.0f, fund); })) return;
  VF_EXPECT(got.size() % 2 == 0, "ransac:pairs", "%zu points", got.size());
  size_t j = 0, right = 0, wrong = 0;
  for (size_t i = 0; i < good + bad; ++i)
    if (2 * j + 1 < got.size() && got[2 * j] == m[2 * i] && got[2 * j + 1] == m[2 * i + 1]) { ++j; (isGood[i] ? right : wrong)++; }
  VF_EXPECT(2 * j == got.size(), "ransac:order", "%zu points returned, %zu recognised as input pairs in order", got.size(), 2 * j);
  if (!fund) {
    VF_EXPECT(right == good, "ransac:missing", "%zu of %zu agreeing matches kept", right, good);
    VF_EXPECT(wrong == 0, "ransac:extra", "%zu of %zu other matches kept", wrong, bad);
  } else VF_EXPECT(right >= good * 9 / 10, "ransac:missing", "%zu of %zu agreeing matches kept", right, good);
  vf::evaluated(vf::hashBytes(got.data(), got.size() * sizeof(cv::Point2f)), bad > 0, index < 1 ? vf::fmt("%zu of %zu kept", j, good + bad) : "");
}

void drawing(Rng& r, uint64_t index) {
  const int w = 1 + static_cast<int>(r.below(30)), h = 1 + static_cast<int>(r.below(30));
  const int w2 = r.chance(0.3) ? w : 1 + static_cast<int>(r.below(60)), h2 = r.chance(0.3) ? h : 1 + static_cast<int>(r.below(60));
  Mat a(h, w, CV_8UC3), b(h2, w2, CV_8UC3), com(h, 2 * w, CV_8UC3, cv::Scalar(1, 2, 3));
  for (int y = 0; y < h; ++y) for (int x = 0; x < 3 * w; ++x) a.ptr(y)[x] = static_cast<uchar>(r.below(256));
  for (int y = 0; y < h2; ++y) for (int x = 0; x < 3 * w2; ++x) b.ptr(y)[x] = static_cast<uchar>(r.below(256));
  std::vector<cv::Point2f> none, pts;
  // (in sixteenths, away from half pixels also after the second image is resized to the first)
  auto place = [&](int ww, int hh, int beyond) { return cv::Point2f(static_cast<float>(r.range(-16 * beyond, 16 * (ww + beyond))) / 16 + 0.01f, static_cast<float>(r.range(-16 * beyond, 16 * (hh + beyond))) / 16 + 0.01f); };
  auto clear = [](double v) { return std::fabs(v + .5 - std::round(v + .5)) > 1e-3; };
  for (size_t i = r.below(4); i > 0; --i) {
    cv::Point2f q = place(w2, h2, 5);
    while (!clear(q.x * (1.0 * w / w2)) || !clear(q.y * (1.0 * h / h2))) q = place(w2, h2, 5);
    pts.push_back(place(w, h, 5));
    pts.push_back(q);
  }
  vf::detail(vf::fmt("images of %dx%d and %dx%d, %zu pairs", w, h, w2, h2, pts.size() / 2));
  Mat com2 = com.clone(), com3, second = b;
  const int color = static_cast<int>(r.below(4));
  if (!vf::mustReturn("draw:returns", "drawing inliers", [&] { draw_inliers(a, b, com, none); draw_inliers(a, b, com2, pts, color); })) return;
  cv::resize(b, second, a.size(), 0, 0, cv::INTER_LINEAR);
  bool same = true;
  for (int y = 0; y < h; ++y) same = same && !memcmp(com.ptr(y), a.ptr(y), 3 * w) && !memcmp(com.ptr(y) + 3 * w, second.ptr(y), 3 * w);
  VF_EXPECT(same, "draw:composite", "the composite is not the two images side by side");
  // Lines join the corresponding places, in the colour of the method.
  if (!vf::mustReturn("draw:returns", "drawing inliers", [&] { com3 = com.clone(); com3 = cv::Scalar(9, 9, 9); draw_inliers(a, b, com3, pts); })) return;
  Mat lines = com.clone(), blue = com.clone();
  const cv::Scalar colours[] = {cv::Scalar(255, 255, 0), cv::Scalar(255, 0, 0), cv::Scalar(0, 255, 0)};
  for (size_t i = 0; i < pts.size(); i += 2) {
    const cv::Point p(static_cast<int>(pts[i].x + .5), static_cast<int>(pts[i].y + .5)), q(static_cast<int>(pts[i + 1].x * (static_cast<float>(w) / w2) + w + .5), static_cast<int>(pts[i + 1].y * (static_cast<float>(h) / h2) + .5));
    if (color < 3) cv::line(lines, p, q, colours[color], 2);
    cv::line(blue, p, q, cv::Scalar(255, 0, 0), 2);
  }
  VF_EXPECT(sameMat(com2, lines), "draw:lines", "with colour %d the picture is not the composite with the lines", color);
  VF_EXPECT(sameMat(com3, blue), "draw:lines", "without a colour the picture is not the composite with blue lines");
  Kpts k;
  for (size_t i = 0; i < r.below(6); ++i) k.push_back(cv::KeyPoint(place(w, h, 10), static_cast<float>(r.uni(0, 12))));
  Mat marked = a.clone();
  for (const cv::KeyPoint& p : k) {
    const cv::Point c(static_cast<int>(p.pt.x + .5), static_cast<int>(p.pt.y + .5));
    cv::circle(marked, c, static_cast<int>(p.size / 2 * 2.5), cv::Scalar(0, 255, 0), 1);
    cv::circle(marked, c, 1, cv::Scalar(0, 0, 255), -1);
  }
  if (vf::mustReturn("draw:keypoints", "drawing features", [&] { draw_keypoints(a, k); })) VF_EXPECT(sameMat(a, marked), "draw:features", "%zu features are not drawn as a ring and a dot each", k.size());
  // Three lines of text tell the figures.
  const int n1 = static_cast<int>(r.below(5000)), n2 = static_cast<int>(r.below(5000)), nm = static_cast<int>(r.below(900)), ni = static_cast<int>(r.below(900));
  const float part = static_cast<float>(r.below(1000)) / 1000 + 0.0003f, limit = static_cast<float>(r.below(100)) / 100 + 0.0013f;
  Mat sheet(150, 640, CV_8UC3, cv::Scalar(7, 7, 7)), text = sheet.clone();
  if (index % 4 == 0 && vf::mustReturn("draw:text", "writing the figures", [&] { display_text(sheet, n1, n2, nm, ni, part, limit, color); })) {
    if (color < 3) {
      cv::putText(text, vf::fmt("NNDR Matching %.2f", limit), cv::Point(20, 30), cv::FONT_HERSHEY_DUPLEX, .75, colours[color], 2, 8, false);
      cv::putText(text, vf::fmt("# Points Image 1: %d, # Points Image 2: %d", n1, n2), cv::Point(20, 80), cv::FONT_HERSHEY_DUPLEX, .75, colours[color], 2, 8, false);
      cv::putText(text, vf::fmt("# Matches: %d, # Inliers: %d, Ratio %.2f", nm, ni, part), cv::Point(20, 120), cv::FONT_HERSHEY_DUPLEX, .75, colours[color], 2, 8, false);
    }
    VF_EXPECT(sameMat(sheet, text), "draw:text", "the text for colour %d is not the three lines with %d, %d, %d, %d, %.3f, %.3f", color, n1, n2, nm, ni, part, limit);
  }
  vf::evaluated(hashMat(com), w2 != w || h2 != h, index < 1 ? vf::fmt("%dx%d beside %dx%d", w, h, w2, h2) : "");
}

void files(Rng& r, uint64_t index) {
  const std::string dir = vf::opts().out;
  std::string kf = dir + "/keypoints.txt", hf = dir + "/homography.txt";
  Kpts k;
  const int n = static_cast<int>(r.below(6)), len = static_cast<int>(r.below(2)) ? 64 : static_cast<int>(r.below(9));
  for (int i = 0; i < n; ++i) k.push_back(cv::KeyPoint(somePoint(r), static_cast<float>(r.uni(1, 20))));
  Mat desc = positive(r, n, len, -1, 1);
  vf::detail(vf::fmt("%d features with %d numbers", n, len));
  int rc = 0, rc2 = 0;
  std::string missing = dir + "/no/such/folder/k.txt";
  vf::mustReturn("save:returns", "saving features", [&] { rc = save_keypoints(kf, k, desc, false); rc2 = save_keypoints(missing, k, desc, false); });
  VF_EXPECT(rc == 1 && rc2 == -1, "save:code", "results %d, and %d for a file that cannot be opened", rc, rc2);
  std::ifstream in(kf);
  int rl = -1, rn = -1;
  in >> rl >> rn;
  VF_EXPECT(rl == desc.cols && rn == n, "save:header", "header %d %d for %d features with %d numbers", rl, rn, n, desc.cols);
  for (int i = 0; i < n && in; ++i) {
    double x, y, a, b, c, radius = k[i].size / 2.0;
    in >> x >> y >> a >> b >> c;
    VF_EXPECT(in && std::fabs(x - k[i].pt.x) < 1e-2 && std::fabs(y - k[i].pt.y) < 1e-2 && std::fabs(a * radius * radius - 1) < 1e-4 && b == 0 && a == c, "save:feature", "feature %d written as %g %g %g %g %g", i, x, y, a, b, c);
    for (int j = 0; j < desc.cols; ++j) { double v = 99; in >> v; VF_EXPECT(std::fabs(v - desc.at<float>(i, j)) < 1e-5, "save:descriptor", "entry %d of descriptor %d written as %g, is %g", j, i, v, desc.at<float>(i, j)); }
  }
  double hv[9];
  for (double& v : hv) v = r.uni(-3, 3);
  if (std::fabs(hv[8]) < 0.05) hv[8] = 1;
  { std::ofstream o(hf); for (int i = 0; i < 9; ++i) o << vf::fmt("%.6f", hv[i]) << (i % 3 == 2 ? "\n" : "  "); }
  Mat H;
  bool ok = false, no = true;
  vf::mustReturn("read:returns", "reading a homography", [&] { ok = read_homography(hf, H); Mat X; no = read_homography(dir + "/none.txt", X); });
  VF_EXPECT(ok && !no, "read:code", "a file is read: %d, a missing one: %d", ok, no);
  for (int i = 0; ok && i < 9; ++i) VF_EXPECT(std::fabs(H.at<float>(i / 3, i % 3) - hv[i] / hv[8]) <= 1e-3 * (1 + std::fabs(hv[i] / hv[8])), "read:value", "entry %d is %g, expected %g", i, H.at<float>(i / 3, i % 3), hv[i] / hv[8]);
  unlink(kf.c_str());
  unlink(hf.c_str());
  vf::evaluated(hashMat(desc) + n, n > 0, index < 1 ? vf::fmt("%d features", n) : "");
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  const std::string p = vf::opts().property;
  cv::setNumThreads(1);
  if (p == "C25") {
    vf::part("schedule", vf::scale(60000, 600000), schedule);
    vf::part("primes", vf::scale(8000, 60000), primes);
    vf::part("step", vf::scale(15000, 200000), step);
    vf::part("semi-implicit step", vf::scale(3000, 60000), aosStep);
    vf::part("conductivities", vf::scale(4000, 60000), conductivities);
    vf::part("derivatives", vf::scale(4000, 60000), derivatives);
    vf::part("kernels", vf::scale(1500, 10000), kernels);
    vf::part("blur", vf::scale(4000, 60000), blur);
    vf::part("percentile", vf::scale(5000, 60000), percentile);
    vf::part("maxima", vf::scale(20000, 200000), maxima);
    vf::part("scale space", vf::scale(600, 8000), scaleSpace);
  } else if (p == "C26") {
    vf::part("features", vf::scale(700, 12000), features);
    vf::part("definition", vf::scale(550, 12000), definition);
    vf::part("spot", vf::scale(120, 3000), spot);
    vf::part("mismatched", vf::scale(150, 3000), mismatched);
  } else {
    vf::part("extremes", vf::scale(15000, 100000), extremes);
    vf::part("ratio", vf::scale(20000, 200000), ratio);
    vf::part("homography", vf::scale(20000, 200000), homography);
    vf::part("ransac", vf::scale(600, 8000), ransac);
    vf::part("drawing", vf::scale(4000, 50000), drawing);
    vf::part("files", vf::scale(200, 3000), files);
  }
  return vf::finish();
}
