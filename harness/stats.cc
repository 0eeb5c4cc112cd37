// C17: statistics and timers report what was recorded.
#include "vf.h"
#include <fstream>
#include <yaml-cpp/yaml.h>
#include <aslam/common/statistics/accumulator.h>
#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>

using vf::Rng;
using statistics::Statistics;
using timing::Timing;
typedef std::lock_guard<std::mutex> Lock;

namespace {
double sampleOf(Rng& r, int style) {
  switch (style) {
    case 0: return static_cast<double>(r.range(0, 9));
    case 1: return static_cast<double>(r.range(-100, 100));
    case 2: return r.gauss() * 1e3;
    case 3: return r.uni() * 1e-9;
    case 4: return 5.0;
    default: return r.chance(0.1) ? r.gauss() * 1e6 : r.gauss();
  }
}
template <typename T> T as(double x) { return std::is_unsigned<T>::value ? static_cast<T>(std::min(4e9, std::abs(x))) : static_cast<T>(x); }

template <typename S, typename Sum, int W> void accumulate(Rng& r, const char* name) {
  const std::string K = std::string("accumulator:") + name;
  statistics::Accumulator<S, Sum, W> a;
  std::vector<S> all;
  const int style = static_cast<int>(r.below(6));
  const size_t n = r.below(r.chance(0.2) ? 450 : 12);
  const bool fp32 = std::is_same<Sum, float>::value;
  double scale = 1;
  uint64_t h = vf::hashStr(name);
  for (size_t i = 0; i <= n; ++i) {
    vf::detail(K + vf::fmt(" after %zu samples, style %d", i, style));
    long double sum = 0, wsum = 0, var = 0;
    const size_t w = std::min<size_t>(i, static_cast<size_t>(W));
    std::vector<S> window(all.end() - w, all.end());
    for (S x : all) { sum += x; scale = std::max<double>(scale, std::abs(static_cast<double>(x))); }
    for (S x : window) wsum += x;
    const long double wmean = w ? wsum / w : 0;
    for (S x : window) var += (x - wmean) * (x - wmean);
    if (w > 1) var /= w - 1;
    const double tol = (fp32 ? 1e-5 : 1e-11) * scale * (i + 1), eps = tol;
    VF_EXPECT(a.total_samples() == static_cast<int>(i), K + ":count", "%d samples counted of %zu", a.total_samples(), i);
    VF_EXPECT(std::abs(a.sum() - sum) <= eps, K + ":sum", "sum %.17g should be %.17g", (double)a.sum(), (double)sum);
    VF_EXPECT(std::abs(a.Mean() - (i ? sum / i : 0)) <= eps, K + ":mean", "mean %.17g", (double)a.Mean());
    if (i) {
      VF_EXPECT(a.min() == *std::min_element(all.begin(), all.end()) && a.max() == *std::max_element(all.begin(), all.end()), K + ":extremes", "[%g,%g]", (double)a.min(), (double)a.max());
      VF_EXPECT(a.GetMostRecent() == all.back(), K + ":last", "most recent %g", (double)a.GetMostRecent());
    }
    VF_EXPECT(std::abs(a.RollingMean() - wmean) <= eps, K + ":rolling", "rolling mean %.17g should be %.17g (window %d, %zu samples)", (double)a.RollingMean(), (double)wmean, W, i);
    // The variance is taken about the rolling mean; relative to the squared scale.
    VF_EXPECT(std::abs(a.LazyVariance() - var) <= (fp32 ? 1e-3 : 1e-9) * scale * scale + eps, K + ":variance", "variance %.17g should be %.17g", (double)a.LazyVariance(), (double)var);
    VF_EXPECT(std::abs(a.StandardDeviation() - std::sqrt(static_cast<double>(a.LazyVariance()))) <= 1e-6 * (1 + scale), K + ":stddev", "deviation %g", (double)a.StandardDeviation());
    std::vector<S> got = a.GetSamples();
    std::multiset<S> ms(got.begin(), got.end()), mw(window.begin(), window.end());
    VF_EXPECT(ms == mw, K + ":samples", "%zu samples kept, the last %zu should be", got.size(), w);
    if (i == n) break;
    const S x = as<S>(sampleOf(r, style));
    all.push_back(x);
    a.Add(x);
    h = vf::mix(h ^ vf::hashBytes(&x, sizeof x));
    if (i > 30 && n > 40 && i + 3 < n && (i % 97) > 4) {  // long runs are compared now and then
      ++i; const S y = as<S>(sampleOf(r, style)); all.push_back(y); a.Add(y);
    }
  }
  vf::evaluated(h, n > 1);
}
void accumulators(Rng& r, uint64_t i) {
  switch (i % 9) {
    case 0: return accumulate<double, double, 1>(r, "double,1");
    case 1: return accumulate<double, double, 3>(r, "double,3");
    case 2: return accumulate<double, double, 100>(r, "double,100");
    case 3: return accumulate<double, double, statistics::kInfiniteWindowSize>(r, "double,infinite");
    case 4: return accumulate<int, double, 5>(r, "int,5");
    case 5: return accumulate<unsigned, double, 4>(r, "unsigned,4");
    case 6: return accumulate<float, double, 7>(r, "float,7");
    case 7: return accumulate<float, float, 10>(r, "float sum,10");
    default: return accumulate<int, double, statistics::kInfiniteWindowSize>(r, "int,infinite");
  }
}

// ---- the two registries ----------------------------------------------------
double yamlNumber(const YAML::Node& n) { return n.as<double>(); }
// What a tag is called in a YAML file.
std::string label(std::string tag) {
  for (char& c : tag) if (c == ':' || c == '#') c = '_';
  return tag;
}
bool close(double a, double b) { return std::abs(a - b) <= 2e-5 * std::max(std::abs(a), std::abs(b)) + 1e-30; }

typedef std::pair<double, double> Span;  // what a measured time lies between
struct Rec { std::vector<double> v; size_t handle; std::vector<Span> gaps; Span last = Span(0, 0); };
double wallClock() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
template <typename F> void timed(Rec* e, F add) {
  const double a = wallClock();
  add();
  const double b = wallClock();
  if (!e->v.empty()) e->gaps.push_back(Span(a - e->last.second, b - e->last.first));
  e->last = Span(a, b);
}
double lastDeviation(const std::vector<double>& v, size_t window) {
  const size_t w = std::min(window, v.size());
  long double m = 0, s = 0;
  for (size_t k = 0; k < w; ++k) m += v[v.size() - 1 - k];
  if (w) m /= w;
  for (size_t k = 0; k < w; ++k) s += (v[v.size() - 1 - k] - m) * (v[v.size() - 1 - k] - m);
  return w > 1 ? std::sqrt(static_cast<double>(s / (w - 1))) : 0;
}
// The printed table has one line per tag: tag, count, Hz, (mean +- deviation), [min,max].
void checkStatTable(const std::map<std::string, Rec>& m, const std::string& text) {
  std::istringstream is(text);
  std::string line;
  std::set<std::string> seen;
  while (std::getline(is, line)) {
    for (auto& e : m) {
      if (line.compare(0, e.first.size(), e.first) != 0 || line.size() <= e.first.size() || (line[e.first.size()] != ' ' && line[e.first.size()] != '\t')) continue;
      seen.insert(e.first);
      std::istringstream ls(line.substr(e.first.size()));
      long n = -1; double hz, lo = 0, hi = 0, mean = 0, dev; std::string t;
      ls >> n;
      VF_EXPECT(n == static_cast<long>(e.second.v.size()), "stats:table", "line '%s' for %zu samples", line.c_str(), e.second.v.size());
      if (n <= 0) continue;
      ls >> hz;
      const size_t p = line.rfind('('), q = line.rfind('[');
      if (p == std::string::npos || q == std::string::npos || sscanf(line.c_str() + p, "(%lf +- %lf)", &mean, &dev) != 2 || sscanf(line.c_str() + q, "[%lf,%lf]", &lo, &hi) != 2) { vf::violation("stats:table", "line '" + line + "' cannot be read"); continue; }
      double s = 0;
      for (double x : e.second.v) s += x;
      VF_EXPECT(std::abs(mean - s / n) <= 2e-5 * (std::abs(mean) + 1e-9) + 1e-9 && close(lo, *std::min_element(e.second.v.begin(), e.second.v.end())) && close(hi, *std::max_element(e.second.v.begin(), e.second.v.end())), "stats:table", "line '%s'", line.c_str());
      VF_EXPECT(std::abs(dev - lastDeviation(e.second.v, 100)) <= 2e-5 * dev + 1e-4 * std::max(std::abs(lo), std::abs(hi)), "stats:table", "line '%s' for a deviation of %g", line.c_str(), lastDeviation(e.second.v, 100));
      const double shown = Statistics::GetHz(e.first);
      VF_EXPECT(std::abs(hz - shown) <= 2e-5 * std::abs(shown), "stats:table", "line '%s' for %g Hz", line.c_str(), shown);
    }
  }
  VF_EXPECT(seen.size() == m.size(), "stats:table", "%zu of %zu tags printed", seen.size(), m.size());
}
void statsModel(Rng& r, uint64_t idx) {
  std::map<std::string, Rec> m;
  std::set<size_t> old;
  uint64_t h = 7;
  vf::detail("statistics by tag");
  Statistics::Reset();
  VF_EXPECT(Statistics::Print().empty(), "stats:reset", "something is printed after a reset");
  const int steps = static_cast<int>(r.range(5, 60));
  const int style = static_cast<int>(r.below(6));
  for (int s = 0; s < steps; ++s) {
    static const char* kExtra[] = {"", "", "", ": part", " #2", "::f()"};
    const size_t xs = r.below(6);
    const std::string tag = "tag" + std::string(xs, 'x') + kExtra[xs] + vf::fmt("_%d", (int)r.below(2));
    const int op = static_cast<int>(r.below(8));
    h = vf::mix(h ^ op ^ vf::hashStr(tag));
    VF_EXPECT(Statistics::HasHandle(tag) == (m.count(tag) == 1), "stats:has", "HasHandle(%s) is %d", tag.c_str(), Statistics::HasHandle(tag));
    auto ensure = [&](size_t handle) {
      if (!m.count(tag)) {
        for (auto& e : m) VF_EXPECT(e.second.handle != handle, "stats:handle", "two tags share handle %zu", handle);
        m[tag] = Rec{{}, handle};
      }
      VF_EXPECT(m[tag].handle == handle && Statistics::GetHandle(tag) == handle && Statistics::GetTag(handle) == tag, "stats:handle", "handle of %s changed or names another tag", tag.c_str());
    };
    if (op == 0) ensure(Statistics::GetHandle(tag));
    else if (op < 5) {
      statistics::StatsCollectorImpl c(tag);
      ensure(c.GetHandle());
      for (size_t k = r.below(r.chance(0.05) ? 150 : 5); k > 0; --k) { const double x = sampleOf(r, style); if (r.chance(0.01)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000))); timed(&m[tag], [&] { c.AddSample(x); }); m[tag].v.push_back(x); }
    } else if (op == 5) {
      const size_t hd = Statistics::GetHandle(tag);
      ensure(hd);
      statistics::StatsCollectorImpl c(hd);
      timed(&m[tag], [&] { c.IncrementOne(); });
      m[tag].v.push_back(1.0);
    } else if (op == 6 && r.chance(0.1)) {
      Statistics::Reset();
      for (auto& e : m) VF_EXPECT(!Statistics::HasHandle(e.first), "stats:reset", "a tag survived a reset");
      m.clear();
    }
    if (!m.count(tag)) continue;
    const Rec& e = m[tag];
    const bool byTag = r.chance(0.5);
    const size_t hd = e.handle;
    const size_t n = byTag ? Statistics::GetNumSamples(tag) : Statistics::GetNumSamples(hd);
    double sum = 0, scale = 1;
    for (double x : e.v) { sum += x; scale = std::max(scale, std::abs(x)); }
    VF_EXPECT(n == e.v.size(), "stats:count", "%zu samples of %s, recorded %zu", n, tag.c_str(), e.v.size());
    const double tol = 1e-10 * scale * (e.v.size() + 1);
    VF_EXPECT(std::abs((byTag ? Statistics::GetTotal(tag) : Statistics::GetTotal(hd)) - sum) <= tol, "stats:total", "total of %s", tag.c_str());
    VF_EXPECT(std::abs((byTag ? Statistics::GetMean(tag) : Statistics::GetMean(hd)) - (e.v.empty() ? 0 : sum / e.v.size())) <= tol, "stats:mean", "mean of %s", tag.c_str());
    VF_EXPECT((byTag ? Statistics::GetLastValue(tag) : Statistics::GetLastValue(hd)) == (e.v.empty() ? 0 : e.v.back()), "stats:last", "last value of %s", tag.c_str());
    if (!e.v.empty()) {
      VF_EXPECT((byTag ? Statistics::GetMin(tag) : Statistics::GetMin(hd)) == *std::min_element(e.v.begin(), e.v.end()), "stats:min", "minimum of %s", tag.c_str());
      VF_EXPECT((byTag ? Statistics::GetMax(tag) : Statistics::GetMax(hd)) == *std::max_element(e.v.begin(), e.v.end()), "stats:max", "maximum of %s", tag.c_str());
    }
    // The variance covers the last 100 samples.
    const size_t w = std::min<size_t>(100, e.v.size());
    double wm = 0, var = 0;
    for (size_t k = 0; k < w; ++k) wm += e.v[e.v.size() - 1 - k];
    if (w) wm /= w;
    for (size_t k = 0; k < w; ++k) var += (e.v[e.v.size() - 1 - k] - wm) * (e.v[e.v.size() - 1 - k] - wm);
    if (w > 1) var /= w - 1;
    VF_EXPECT(std::abs((byTag ? Statistics::GetVariance(tag) : Statistics::GetVariance(hd)) - var) <= 1e-8 * scale * scale, "stats:variance", "variance of %s", tag.c_str());
    // Times between samples: one less than samples, never negative here, consistent with each other.
    if (e.v.size() >= 2) {
      const double mn = Statistics::GetMinDeltaTime(tag), mx = Statistics::GetMaxDeltaTime(hd), me = byTag ? Statistics::GetMeanDeltaTime(tag) : Statistics::GetMeanDeltaTime(hd), la = byTag ? Statistics::GetLastDeltaTime(hd) : Statistics::GetLastDeltaTime(tag);
      VF_EXPECT(mn <= me * (1 + 1e-9) + 1e-12 && me <= mx * (1 + 1e-9) + 1e-12 && mn <= la && la <= mx && mx < 60, "stats:delta", "times between samples: min %g mean %g max %g last %g", mn, me, mx, la);
      const double hz = byTag ? Statistics::GetHz(tag) : Statistics::GetHz(hd);
      VF_EXPECT(me == 0 ? hz == -1.0 : std::abs(hz * me - 1) < 1e-9, "stats:hz", "%g Hz for a mean of %g s", hz, me);
      // Against the clock read before and after each sample.
      Span lo(1e99, 1e99), hi(-1e99, -1e99), sum(0, 0);
      for (const Span& g : e.gaps) { lo.first = std::min(lo.first, g.first); lo.second = std::min(lo.second, g.second); hi.first = std::max(hi.first, g.first); hi.second = std::max(hi.second, g.second); sum.first += g.first; sum.second += g.second; }
      auto in = [](double v, Span s, double n) { return v >= s.first / n - 2e-6 && v <= s.second / n + 2e-6; };
      VF_EXPECT(e.gaps.size() + 1 == e.v.size() && in(mn, lo, 1) && in(mx, hi, 1) && in(la, e.gaps.back(), 1) && in(me, sum, e.gaps.size()), "stats:gaps", "times between %zu samples of %s: min %.9g max %.9g last %.9g mean %.9g; read off the clock [%.9g,%.9g] [%.9g,%.9g] [%.9g,%.9g] [%.9g,%.9g]", e.v.size(), tag.c_str(), mn, mx, la, me, lo.first, lo.second, hi.first, hi.second, e.gaps.back().first, e.gaps.back().second, sum.first / e.gaps.size(), sum.second / e.gaps.size());
      std::vector<double> mid;
      double slack = 2e-6;
      for (const Span& g : e.gaps) { mid.push_back((g.first + g.second) / 2); slack = std::max(slack, g.second - g.first); }
      VF_EXPECT(std::abs(std::sqrt(Statistics::GetVarianceDeltaTime(tag)) - lastDeviation(mid, 100)) <= 2 * slack, "stats:gaps", "the times between samples of %s deviate by %.9g, off the clock by %.9g", tag.c_str(), std::sqrt(Statistics::GetVarianceDeltaTime(tag)), lastDeviation(mid, 100));
      VF_EXPECT(Statistics::GetVarianceDeltaTime(tag) >= 0 && Statistics::GetVarianceDeltaTime(hd) <= (mx - mn) * (mx - mn) + 1e-12, "stats:delta", "variance of the times between samples");
    }
  }
  checkStatTable(m, Statistics::Print());
  if (idx % 4 == 0) {
    const std::string f = vf::opts().out + "/tmp/stats.yaml";
    unlink(f.c_str());
    Statistics::WriteToYamlFile(f);
    size_t withSamples = 0;
    for (auto& e : m) withSamples += !e.second.v.empty();
    if (withSamples) vf::mustReturn("stats:yaml", "reading the statistics file", [&] {
      YAML::Node n = YAML::LoadFile(f);
      VF_EXPECT(n.size() == withSamples, "stats:yaml", "%zu entries for %zu tags", n.size(), withSamples);
      for (auto& e : m) {
        if (e.second.v.empty()) continue;
        const YAML::Node t = n[label(e.first)];
        double s = 0;
        for (double x : e.second.v) s += x;
        VF_EXPECT(t && t["samples"].as<size_t>() == e.second.v.size() && std::abs(yamlNumber(t["mean"]) - s / e.second.v.size()) <= 2e-5 * std::abs(s / e.second.v.size()) + 1e-9 &&
                  close(yamlNumber(t["min"]), *std::min_element(e.second.v.begin(), e.second.v.end())) && close(yamlNumber(t["max"]), *std::max_element(e.second.v.begin(), e.second.v.end())), "stats:yaml", "entry of %s", e.first.c_str());
        double scale = 0;
        for (double x : e.second.v) scale = std::max(scale, std::abs(x));
        VF_EXPECT(t && std::abs(yamlNumber(t["stddev"]) - lastDeviation(e.second.v, 100)) <= 1e-4 * scale, "stats:yaml", "deviation of %s", e.first.c_str());
      }
    });
    Statistics::WriteToYamlFile("/nonexistent-directory/stats.yaml");
    vf::count("files");
  }
  vf::evaluated(h, m.size() > 1);
}

void timers(Rng& r, uint64_t idx) {
  struct T { size_t n = 0; double sum = 0, mn = 1e99, mx = 0; size_t handle = 0; std::vector<double> v; };
  std::map<std::string, T> m;
  Timing::Reset();
  VF_EXPECT(Timing::Print().empty(), "timer:reset", "something is printed after a reset");
  uint64_t h = 3;
  const int steps = static_cast<int>(r.range(3, 25));
  vf::detail("timers by tag");
  for (int s = 0; s < steps; ++s) {
    static const char* kExtra[] = {"", "", ": part", " #2", "::f()"};
    const size_t ys = r.below(5);
    const std::string tag = "timer" + std::string(ys, 'y') + kExtra[ys];
    const int op = static_cast<int>(r.below(7));
    h = vf::mix(h ^ op ^ vf::hashStr(tag));
    auto record = [&](double dt, double lo, double hi) {
      T& t = m[tag];
      t.v.push_back(dt); ++t.n; t.sum += dt; t.mn = std::min(t.mn, dt); t.mx = std::max(t.mx, dt);
      VF_EXPECT(dt >= lo - 1e-6 && dt <= hi + 1e-6, "timer:length", "%g s measured, between %g and %g passed", dt, lo, hi);
    };
    auto now = [] { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); };
    const double a = now();
    {
      timing::TimerImpl t(tag, op == 1);
      m[tag];
      m[tag].handle = t.GetHandle();
      VF_EXPECT(t.GetHandle() == Timing::GetHandle(tag) && Timing::GetTag(t.GetHandle()) == tag, "timer:handle", "handle of %s", tag.c_str());
      VF_EXPECT(t.IsTiming() == (op != 1), "timer:state", "a new timer is timing: %d", t.IsTiming());
      const double b = now();
      if (r.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(800)));
      if (op == 1) {
        VF_EXPECT(t.Stop() == 0.0, "timer:stopped", "stopping a timer that is not timing measured something");
        if (r.chance(0.5)) { const double s0 = now(); t.Start(); const double s1 = now(); VF_EXPECT(t.IsTiming(), "timer:state", "started"); const double e0 = now(), dt = t.Stop(), e1 = now(); record(dt, e0 - s1, e1 - s0); }
      } else if (op == 2) {
        t.Discard();
        VF_EXPECT(!t.IsTiming() && t.Stop() == 0.0, "timer:discard", "a discarded timer measured something");
      } else if (op == 3) {
        // Ends with the scope.
        T& e = m[tag];
        const size_t before = Timing::GetNumSamples(tag);
        VF_EXPECT(before == e.n, "timer:count", "%zu samples, recorded %zu", before, e.n);
      } else {
        const double e0 = now(), dt = t.Stop(), e1 = now();
        record(dt, e0 - b, e1 - a);
        VF_EXPECT(!t.IsTiming() && t.Stop() == 0.0, "timer:twice", "stopping twice measured twice");
        if (r.chance(0.03)) for (int k = 0; k < 60; ++k) { const double s0 = now(); t.Start(); const double s1 = now(), f0 = now(), dt2 = t.Stop(), f1 = now(); record(dt2, f0 - s1, f1 - s0); }
        if (r.chance(0.1)) { t.Start(); std::this_thread::sleep_for(std::chrono::microseconds(r.below(400))); const double s0 = now(); t.Start(); const double s1 = now(), f0 = now(), dt2 = t.Stop(), f1 = now(); record(dt2, f0 - s1, f1 - s0); }  // starting anew
        if (op == 4) { const double s0 = now(); t.Start(); const double s1 = now(), f0 = now(), dt2 = t.Stop(), f1 = now(); record(dt2, f0 - s1, f1 - s0); }
      }
    }
    if (op == 3) {
      T& e = m[tag];
      VF_EXPECT(Timing::GetNumSamples(tag) == e.n + 1, "timer:scope", "leaving the scope recorded %zu samples", Timing::GetNumSamples(tag) - e.n);
      const double total = Timing::GetTotalSeconds(tag), dt = total - e.sum;
      e.v.push_back(dt); ++e.n; e.sum = total; e.mn = std::min(e.mn, dt); e.mx = std::max(e.mx, dt);
      VF_EXPECT(dt >= -1e-9 && dt < now() - a + 1e-6, "timer:scope", "%g s recorded when leaving the scope", dt);
    }
    const T& e = m[tag];
    const bool byTag = r.chance(0.5);
    VF_EXPECT((byTag ? Timing::GetNumSamples(tag) : Timing::GetNumSamples(e.handle)) == e.n, "timer:count", "%zu samples of %s, recorded %zu", Timing::GetNumSamples(tag), tag.c_str(), e.n);
    VF_EXPECT(std::abs((byTag ? Timing::GetTotalSeconds(tag) : Timing::GetTotalSeconds(e.handle)) - e.sum) < 1e-9, "timer:total", "total of %s", tag.c_str());
    if (e.n) {
      const double mean = byTag ? Timing::GetMeanSeconds(tag) : Timing::GetMeanSeconds(e.handle), mn = byTag ? Timing::GetMinSeconds(tag) : Timing::GetMinSeconds(e.handle), mx = byTag ? Timing::GetMaxSeconds(tag) : Timing::GetMaxSeconds(e.handle);
      VF_EXPECT(std::abs(mean - e.sum / e.n) < 1e-9 && std::abs(mn - e.mn) < 1e-8 && std::abs(mx - e.mx) < 1e-8, "timer:figures", "mean %g min %g max %g, recorded %g %g %g", mean, mn, mx, e.sum / e.n, e.mn, e.mx);
      const double hz = byTag ? Timing::GetHz(tag) : Timing::GetHz(e.handle);
      double rolling = 0;
      const size_t w = std::min<size_t>(100, e.v.size());
      for (size_t k = 0; k < w; ++k) rolling += e.v[e.v.size() - 1 - k] / w;
      if (rolling > 1e-6) VF_EXPECT(std::abs(hz * rolling - 1) < 1e-2, "timer:hz", "%g Hz for a mean of %g s", hz, rolling);
      const double var = byTag ? Timing::GetVarianceSeconds(tag) : Timing::GetVarianceSeconds(e.handle);
      VF_EXPECT(std::abs(std::sqrt(var) - lastDeviation(e.v, 100)) <= 1e-8 + 1e-3 * lastDeviation(e.v, 100), "timer:variance", "the times of %s deviate by %.9g, recorded %.9g", tag.c_str(), std::sqrt(var), lastDeviation(e.v, 100));
      VF_EXPECT(var >= 0 && var <= (mx - mn) * (mx - mn) + 1e-12, "timer:variance", "variance %g of times in [%g,%g]", var, mn, mx);
    }
  }
  const std::string text = Timing::Print();
  for (auto& e : m) {
    const size_t p = text.find("\n" + e.first);
    VF_EXPECT(p != std::string::npos, "timer:table", "%s is not printed", e.first.c_str());
    if (p != std::string::npos) {
      std::istringstream ls(text.substr(p + 1 + e.first.size(), text.find('\n', p + 1) - p - 1 - e.first.size()));
      long n = -1;
      ls >> n;
      VF_EXPECT(n == static_cast<long>(e.second.n), "timer:table", "%ld samples printed for %s, recorded %zu", n, e.first.c_str(), e.second.n);
      int hh = -1, mm = -1; double ss = -1;
      std::string total;
      ls >> total;
      if (e.second.n) VF_EXPECT(sscanf(total.c_str(), "%d:%d:%lf", &hh, &mm, &ss) == 3 && std::abs(hh * 3600.0 + mm * 60.0 + ss - e.second.sum) < 2e-6, "timer:table", "total %s printed for %s, recorded %g", total.c_str(), e.first.c_str(), e.second.sum);
      if (e.second.n) {
        std::string rest, fig[4];
        std::getline(ls, rest);
        for (char& c : rest) if (std::string("(+)[,]").find(c) != std::string::npos) c = ' ';
        const size_t dash = rest.find(" - ");
        if (dash != std::string::npos) rest[dash + 1] = ' ';
        std::istringstream rs(rest);
        const double expect[4] = {e.second.sum / e.second.n, lastDeviation(e.second.v, 100), e.second.mn, e.second.mx};
        for (int k = 0; k < 4; ++k) {
          rs >> fig[k];
          VF_EXPECT(sscanf(fig[k].c_str(), "%d:%d:%lf", &hh, &mm, &ss) == 3 && std::abs(hh * 3600.0 + mm * 60.0 + ss - expect[k]) < 2e-6, "timer:table", "figure %d of %s is printed as '%s', recorded %.9g (line '%s')", k, e.first.c_str(), fig[k].c_str(), expect[k], rest.c_str());
        }
      }
    }
  }
  if (idx % 4 == 0) {
    const std::string f = vf::opts().out + "/tmp/timing.yaml";
    unlink(f.c_str());
    Timing::WriteToYamlFile(f);
    size_t some = 0;
    for (auto& e : m) some += e.second.n > 0;
    if (some) vf::mustReturn("timer:yaml", "reading the timing file", [&] {
      YAML::Node n = YAML::LoadFile(f);
      VF_EXPECT(n.size() == some, "timer:yaml", "%zu entries for %zu timers", n.size(), some);
      for (auto& e : m) if (e.second.n) {
        const YAML::Node t = n[label(e.first)];
        VF_EXPECT(t && t["num_samples"].as<size_t>() == e.second.n && std::abs(t["total"].as<double>() - e.second.sum) <= 2e-5 * e.second.sum + 1e-9 && std::abs(t["mean"].as<double>() - e.second.sum / e.second.n) <= 2e-5 * e.second.sum + 1e-9 &&
                  std::abs(t["min"].as<double>() - e.second.mn) <= 2e-5 * e.second.mx + 1e-8 && std::abs(t["max"].as<double>() - e.second.mx) <= 2e-5 * e.second.mx + 1e-8, "timer:yaml", "entry of %s", e.first.c_str());
        VF_EXPECT(t && std::abs(t["std_dev"].as<double>() - lastDeviation(e.second.v, 100)) <= 1e-4 * e.second.mx + 1e-8, "timer:yaml", "deviation of %s", e.first.c_str());
      }
    });
    Timing::WriteToYamlFile("/nonexistent-directory/timing.yaml");
  }
  timing::DummyTimer dummy("dummy");
  dummy.Start();
  VF_EXPECT(dummy.Stop() == -1.0 && !dummy.IsTiming(), "timer:dummy", "the dummy timer does something");
  vf::evaluated(h, m.size() > 1);
}

void timeText(Rng& r, uint64_t i) {
  const double s = i < 200 ? static_cast<double>(i) * 30.5 : r.chance(0.5) ? r.uni(0, 200) : r.uni(0, 3e5);
  const std::string t = Timing::SecondsToTimeString(s);
  int hh = -1, mm = -1; double ss = -1;
  const int n = sscanf(t.c_str(), "%d:%d:%lf", &hh, &mm, &ss);
  VF_EXPECT(n == 3 && mm >= 0 && mm < 60 && ss >= 0 && ss <= 60 && std::abs(hh * 3600.0 + mm * 60.0 + ss - s) < 1e-6, "timer:text", "%.9g s printed as '%s'", s, t.c_str());
  const std::string u = Statistics::SecondsToTimeString(s);
  const size_t colon = u.rfind(':');
  const double us = atof(u.c_str() + (colon == std::string::npos ? 0 : colon + 1));
  VF_EXPECT(u.size() >= 9 && us >= 0 && us <= 60 && std::min(std::abs(us - std::fmod(s, 60)), std::abs(us - std::fmod(s, 60) - 60)) < 1e-6, "stats:text", "%.9g s printed as '%s'", s, u.c_str());
  vf::evaluated(vf::hashStr(t));
}

// Many threads record under shared and own tags, others query and print.
void concurrent(Rng& r, uint64_t) {
  const int n = static_cast<int>(r.range(2, 8)), each = static_cast<int>(r.range(20, vf::opts().tsan() ? 60 : 150));
  static std::atomic<uint64_t> serial(0);
  const uint64_t id = serial.fetch_add(1);
  if (id % 4 == 0) { Statistics::Reset(); Timing::Reset(); }
  const std::string shared = vf::fmt("shared_%llu", (unsigned long long)id);
  std::atomic<int> go(0), printed(0), fresh(0);
  std::vector<double> sums(n, 0);
  std::vector<std::vector<size_t>> handles(n);
  std::atomic<bool> done(false);
  std::vector<std::thread> ts;
  vf::detail(vf::fmt("%d threads record %d samples each", n, each));
  const uint64_t s0 = r.next();
  for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
    Rng q(vf::mix(s0 + t));
    go.fetch_add(1);
    while (go.load() < n) std::this_thread::yield();
    for (int k = 0; k < each; ++k) {
      const int x = static_cast<int>(q.below(100));
      statistics::StatsCollectorImpl c(shared);
      c.AddSample(x);
      sums[t] += x;
      handles[t].push_back(c.GetHandle());
      { timing::TimerImpl timer(shared); }
      if (q.chance(0.3)) {
        const std::string own = vf::fmt("%s_%d_%d", shared.c_str(), t % 3, static_cast<int>(q.below(30)));  // three threads compete for a new tag
        handles[t].push_back(Statistics::GetHandle(own) + 1000000);
        Timing::GetHandle(own);
        ++fresh;
      }
      if (q.chance(0.05)) { Statistics::Print(); ++printed; }
      if (q.chance(0.05)) { Timing::Print(); ++printed; }
      if (q.chance(0.02)) { Statistics::WriteToYamlFile(vf::opts().out + vf::fmt("/tmp/c%d.yaml", t)); Timing::WriteToYamlFile(vf::opts().out + vf::fmt("/tmp/d%d.yaml", t)); ++printed; }
      if (q.chance(0.1)) {
        const double mean = Statistics::GetMean(shared);
        VF_EXPECT(mean >= 0 && mean <= 99, "stats:torn", "a mean of %g was seen", mean);
        Statistics::GetVariance(shared); Statistics::GetHz(shared); Statistics::GetLastValue(shared); Statistics::GetMaxDeltaTime(shared); Statistics::GetTag(0); Timing::GetHz(shared); Timing::GetTag(0); Timing::GetVarianceSeconds(shared);
      }
    }
  });
  for (auto& t : ts) t.join();
  double sum = 0;
  for (double x : sums) sum += x;
  VF_EXPECT(Statistics::GetNumSamples(shared) == static_cast<size_t>(n) * each, "stats:lost", "%zu of %d samples counted", Statistics::GetNumSamples(shared), n * each);
  VF_EXPECT(std::abs(Statistics::GetTotal(shared) - sum) < 1e-6, "stats:lost", "total %g of %g", Statistics::GetTotal(shared), sum);
  VF_EXPECT(Timing::GetNumSamples(shared) == static_cast<size_t>(n) * each, "timer:lost", "%zu of %d times counted", Timing::GetNumSamples(shared), n * each);
  for (auto& v : handles) for (size_t hd : v) if (hd < 1000000) VF_EXPECT(hd == Statistics::GetHandle(shared), "stats:handle", "a thread got another handle for the shared tag");
  vf::count("prints_while_recording", printed);
  vf::count("tags_created_concurrently", fresh);
  vf::evaluated(vf::mix(s0), n > 1);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  mkdir((vf::opts().out + "/tmp").c_str(), 0755);
  if (!vf::opts().tsan()) {
    vf::part("accumulators", vf::scale(1800, 40000), accumulators);
    vf::part("statistics", vf::scale(800, 20000), statsModel);
    vf::part("timers", vf::scale(600, 12000), timers);
    vf::part("time-text", vf::scale(2000, 40000), timeText);
  }
  vf::part("concurrent", vf::opts().tsan() ? vf::scale(60, 1500) : vf::scale(60, 1500), concurrent);
  return vf::finish();
}
