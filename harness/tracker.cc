// C37: track identifiers.   C43: the gyro-aided tracker and the insertion of features.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include "camera_ref.h"
#include <aslam/common/memory.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/matcher/match-helpers.h>
#include <aslam/tracker/feature-tracker-gyro.h>
#include <aslam/tracker/track-manager.h>
#include <aslam/tracker/tracking-helpers.h>
#include <gflags/gflags.h>
#include <opencv2/video/tracking.hpp>
#include <map>
#include <set>
#include <thread>

DECLARE_double(gyro_lk_candidate_ratio);
DECLARE_uint64(gyro_lk_max_status_track_length);

namespace {
typedef VisualFrame::DescriptorsT Desc;
typedef Eigen::VectorXi Ids;

VisualFrame::Ptr newFrame(const Camera::ConstPtr& cam, int64_t t) {
  VisualFrame::Ptr f(new VisualFrame);
  FrameId id; generateId(&id); f->setId(id);
  if (cam) f->setCameraGeometry(cam);
  f->setTimestampNanoseconds(t);
  return f;
}
VisualFrame::Ptr blank(Rng& r, int n) {
  VisualFrame::Ptr f = newFrame(nullptr, 1);
  Eigen::Matrix2Xd kp(2, n);
  for (int i = 0; i < kp.size(); ++i) kp.data()[i] = r.uni(0, 500);
  f->setKeypointMeasurements(kp);
  return f;
}
// `count` pairs with no index used twice.
FrameToFrameMatches somePairs(Rng& r, int na, int nb, size_t count) {
  std::vector<int> a(na), b(nb);
  for (int i = 0; i < na; ++i) a[i] = i;
  for (int i = 0; i < nb; ++i) b[i] = i;
  FrameToFrameMatches m;
  count = std::min(count, static_cast<size_t>(std::min(na, nb)));
  for (size_t i = 0; i < count; ++i) {
    std::swap(a[i], a[i + r.below(na - i)]);
    std::swap(b[i], b[i + r.below(nb - i)]);
    m.emplace_back(a[i], b[i]);
  }
  return m;
}
std::string show(const Ids& v) {
  std::ostringstream o;
  o << "[" << v.transpose() << "]";
  return o.str();
}

// ---------------------------------------------------------------- C37
std::set<int> given;  // Every id handed out since the last reset.

void assign(Rng& r, uint64_t) {
  if (r.chance(0.05)) { TrackManager::resetIdProvider(); given.clear(); }
  const int frames = 2 + static_cast<int>(r.below(5));
  const bool vast = r.chance(0.02);
  std::vector<VisualFrame::Ptr> f;
  std::vector<Ids> model;
  for (int i = 0; i < frames; ++i) {
    const int n = r.chance(0.05) ? 0 : static_cast<int>(r.below(vast ? 400 : 15));
    f.push_back(blank(r, n));
    model.push_back(Ids::Constant(n, -1));
    if (r.chance(0.5)) {
      if (r.chance(0.3)) for (int j = 0; j < n; ++j) if (r.chance(0.3)) model[i](j) = r.chance(0.5) ? -7 : std::numeric_limits<int>::min();
      if (r.chance(0.2)) for (int j = 0; j < n; ++j) if (r.chance(0.3)) model[i](j) = 1000000000 + static_cast<int>(r.below(1000000)) * 100 + j;
      f[i]->setTrackIds(model[i]);
    }
  }
  std::vector<std::shared_ptr<SimpleTrackManager>> managers(1 + r.below(2));
  for (auto& m : managers) m = std::make_shared<SimpleTrackManager>();
  bool nontrivial = false;
  uint64_t h = 0;
  for (size_t step = 1 + r.below(8); step; --step) {
    const int a = static_cast<int>(r.below(frames));
    int b = static_cast<int>(r.below(frames));
    if (b == a) b = (a + 1) % frames;
    FrameToFrameMatches wish = somePairs(r, model[a].size(), model[b].size(), r.below(vast ? 300 : 15)), m;
    // Leave out contradictions.
    for (const auto& p : wish) {
      const int x = model[a](p.first), y = model[b](p.second);
      if (x >= 0 && y >= 0 && x != y) continue;
      m.push_back(p);
    }
    vf::detail(vf::fmt("%zu matches onto %s and %s", m.size(), show(model[a]).c_str(), show(model[b]).c_str()));
    const Eigen::Matrix2Xd ka = f[a]->getKeypointMeasurements();
    std::shared_ptr<SimpleTrackManager> manager = managers[r.below(managers.size())];
    if (!vf::mustReturn("apply-returns", "applying consistent matches", [&] { manager->applyMatchesToFrames(m, f[a].get(), f[b].get()); })) return;
    if (!VF_EXPECT(f[a]->hasTrackIds() && f[b]->hasTrackIds(), "channel", "no track ids after matches were applied")) return;
    const Ids ga = f[a]->getTrackIds(), gb = f[b]->getTrackIds();
    if (!VF_EXPECT(ga.size() == model[a].size() && gb.size() == model[b].size(), "size", "%ld and %ld ids for %ld and %ld keypoints", static_cast<long>(ga.size()), static_cast<long>(gb.size()), static_cast<long>(model[a].size()), static_cast<long>(model[b].size()))) return;
    for (const auto& p : m) {
      int& x = model[a](p.first);
      int& y = model[b](p.second);
      const int u = ga(p.first), v = gb(p.second);
      if (x < 0 && y < 0) {
        VF_EXPECT(u == v && u >= 0, "new-track", "match (%d, %d) of untracked keypoints: ids %d and %d", p.first, p.second, u, v);
        VF_EXPECT(given.insert(u).second, "fresh", "id %d of a new track was given out before", u);
        x = y = u;
        nontrivial = true;
        vf::count("new tracks");
      } else {
        const int want = std::max(x, y);
        VF_EXPECT(u == want && v == want, "continued", "match (%d, %d) of ids %d and %d: ids %d and %d", p.first, p.second, x, y, u, v);
        if (x != y) vf::count("tracks continued");
        x = y = want;
      }
    }
    VF_EXPECT(ga == model[a] && gb == model[b], "others", "ids of unmatched keypoints changed: %s %s instead of %s %s", show(ga).c_str(), show(gb).c_str(), show(model[a]).c_str(), show(model[b]).c_str());
    VF_EXPECT(f[a]->getKeypointMeasurements() == ka, "keypoints", "keypoints changed");
    for (int i = 0; i < frames; ++i) if (i != a && i != b && f[i]->hasTrackIds()) VF_EXPECT(f[i]->getTrackIds() == model[i], "others", "ids of another frame changed");
    h = vf::hashBytes(ga.data(), ga.size() * 4, h ^ vf::hashBytes(gb.data(), gb.size() * 4));
  }
  vf::evaluated(h, nontrivial, vf::fmt("%d frames", frames));
}

void refuse(Rng& r, uint64_t) {
  const int na = 1 + static_cast<int>(r.below(8)), nb = 1 + static_cast<int>(r.below(8));
  VisualFrame::Ptr a = blank(r, na), b = blank(r, nb);
  FrameToFrameMatches m = somePairs(r, na, nb, r.below(5));
  const size_t at = r.below(m.size() + 1);
  const int kind = static_cast<int>(r.below(5));
  static const int kOff[] = {0, 1, 1000, std::numeric_limits<int>::max() - 16};
  const char* what = "";
  if (kind < 2) {
    const int bad = r.chance(0.5) ? -1 - kOff[r.below(4)] : (kind ? nb : na) + kOff[r.below(4)];
    m.insert(m.begin() + at, kind ? FrameToFrameMatch(0, bad) : FrameToFrameMatch(bad, 0));
    // The good index of the bad match must not be the reason.
    for (size_t i = 0; i < m.size();) if (i != static_cast<size_t>(std::find(m.begin(), m.end(), kind ? FrameToFrameMatch(0, bad) : FrameToFrameMatch(bad, 0)) - m.begin()) && (kind ? m[i].first == 0 : m[i].second == 0)) m.erase(m.begin() + i); else ++i;
    what = "an index out of range";
  } else if (kind < 4) {
    if (na < 2 || nb < 2) return;
    m = somePairs(r, na, nb, 2 + r.below(4));
    if (kind == 2) m.back().first = m[0].first; else m.back().second = m[0].second;
    what = "an index matched twice";
  } else {
    if (m.empty()) m.emplace_back(0, 0);
    Ids ia = Ids::Constant(na, -1), ib = Ids::Constant(nb, -1);
    const auto& p = m[r.below(m.size())];
    ia(p.first) = static_cast<int>(r.below(5));
    ib(p.second) = ia(p.first) + 1 + static_cast<int>(r.below(5));
    if (r.chance(0.5)) std::swap(ia(p.first), ib(p.second));
    a->setTrackIds(ia);
    b->setTrackIds(ib);
    what = "two different tracks matched";
  }
  SimpleTrackManager manager;
  std::string text;
  for (const auto& p : m) text += vf::fmt(" (%d,%d)", p.first, p.second);
  vf::detail(vf::fmt("%s: %dx%d%s", what, na, nb, text.c_str()));
  const vf::Outcome o = vf::guarded([&] { manager.applyMatchesToFrames(m, a.get(), b.get()); });
  VF_EXPECT(o == vf::kFatal, vf::fmt("refuse-%d", kind), "%s was accepted", what);
  // Nothing said about which ids were used up meanwhile: start again.
  TrackManager::resetIdProvider();
  given.clear();
  vf::evaluated(vf::hashBytes(m.data(), m.size() * sizeof(m[0]), kind), true, what);
}

void concurrent(Rng& r, uint64_t) {
  TrackManager::resetIdProvider();
  given.clear();
  const int threads = 2 + static_cast<int>(r.below(5)), rounds = 1 + static_cast<int>(r.below(30));
  struct Work { std::vector<VisualFrame::Ptr> f; std::vector<FrameToFrameMatches> m; std::vector<int> ids; };
  std::vector<Work> work(threads);
  size_t expected = 0;
  for (auto& w : work) {
    for (int i = 0; i < rounds; ++i) {
      w.f.push_back(blank(r, 10));
      w.f.push_back(blank(r, 12));
      w.m.push_back(somePairs(r, 10, 12, r.below(11)));
      expected += w.m.back().size();
    }
  }
  SimpleTrackManager shared;
  std::atomic<int> ready(0);
  std::vector<std::thread> t;
  for (int k = 0; k < threads; ++k) {
    const bool own = r.chance(0.5);
    t.emplace_back([&, k, own] {
      SimpleTrackManager mine;
      TrackManager& manager = own ? mine : shared;
      ++ready;
      while (ready < threads) {}
      for (int i = 0; i < rounds; ++i) manager.applyMatchesToFrames(work[k].m[i], work[k].f[2 * i].get(), work[k].f[2 * i + 1].get());
    });
  }
  for (auto& x : t) x.join();
  std::set<int> seen;
  std::vector<int> order;
  for (auto& w : work)
    for (int i = 0; i < rounds; ++i)
      for (const auto& p : w.m[i]) {
        const int u = w.f[2 * i]->getTrackIds()(p.first), v = w.f[2 * i + 1]->getTrackIds()(p.second);
        VF_EXPECT(u == v && u >= 0, "concurrent-pair", "a match has the ids %d and %d", u, v);
        VF_EXPECT(seen.insert(u).second, "concurrent-fresh", "id %d given to two tracks (%d threads)", u, threads);
        order.push_back(u);
      }
  VF_EXPECT(seen.size() == expected, "concurrent-count", "%zu ids for %zu tracks", seen.size(), expected);
  given = seen;
  vf::count("tracks started concurrently", expected);
  size_t switches = 0;
  for (size_t i = 1; i < order.size(); ++i) switches += order[i] != order[i - 1] + 1;
  vf::maxOf("switches between threads in one run", switches);
  vf::evaluated(vf::hashBytes(order.data(), order.size() * 4), switches >= static_cast<size_t>(threads), vf::fmt("%d threads, %d rounds", threads, rounds));
}

void provider(Rng& r, uint64_t) {
  const int start = static_cast<int>(r.below(1000)) - 500;
  ThreadSafeIdProvider<int> p(start);
  int next = start;
  for (size_t i = r.below(20); i; --i) {
    if (r.chance(0.1)) { p.reset(); next = start; }
    const int got = p.getNewId();
    VF_EXPECT(got == next, "provider", "id %d instead of %d", got, next);
    ++next;
  }
  const int threads = 2 + static_cast<int>(r.below(4)), each = 1 + static_cast<int>(r.below(200));
  p.reset();
  std::vector<std::vector<int>> got(threads);
  std::vector<std::thread> t;
  for (int k = 0; k < threads; ++k) t.emplace_back([&, k] { for (int i = 0; i < each; ++i) got[k].push_back(p.getNewId()); });
  for (auto& x : t) x.join();
  std::set<int> all;
  for (auto& g : got) {
    all.insert(g.begin(), g.end());
    for (size_t i = 1; i < g.size(); ++i) VF_EXPECT(g[i] > g[i - 1], "provider-order", "%d after %d in one thread", g[i], g[i - 1]);
  }
  VF_EXPECT(static_cast<int>(all.size()) == threads * each && *all.begin() == start && *all.rbegin() == start + threads * each - 1, "provider-all", "%d threads x %d: %zu different ids from %d to %d", threads, each, all.size(), *all.begin(), *all.rbegin());
  vf::evaluated(vf::hashBytes(got[0].data(), got[0].size() * 4, start), true, vf::fmt("%d threads", threads));
}

// ---------------------------------------------------------------- C43: insertion
std::vector<cv::KeyPoint> someKeypoints(Rng& r, int n) {
  std::vector<cv::KeyPoint> k;
  for (int i = 0; i < n; ++i) k.emplace_back(static_cast<float>(r.uni(-10, 800)), static_cast<float>(r.uni(-10, 800)), static_cast<float>(r.uni(1, 60)), static_cast<float>(r.chance(0.2) ? -1 : r.uni(0, 360)), static_cast<float>(r.uni(0, 100)));
  return k;
}
cv::Mat someRows(Rng& r, int n, int bytes) {
  cv::Mat d(n, bytes, CV_8UC1);
  for (int y = 0; y < n; ++y) for (int x = 0; x < bytes; ++x) d.at<unsigned char>(y, x) = static_cast<unsigned char>(r.below(256));
  return d;
}
// The columns [at, at + k.size()) of the frame hold the given features.
void expectFeatures(const VisualFrame& f, int at, const std::vector<cv::KeyPoint>& k, const cv::Mat& d, double sigma, int block, const char* key) {
  for (size_t i = 0; i < k.size(); ++i) {
    const int c = at + static_cast<int>(i);
    VF_EXPECT(f.getKeypointMeasurement(c) == V2(k[i].pt.x, k[i].pt.y), key, "keypoint %d is at (%g %g) instead of (%g %g)", c, f.getKeypointMeasurement(c)[0], f.getKeypointMeasurement(c)[1], k[i].pt.x, k[i].pt.y);
    VF_EXPECT(f.getKeypointScale(c) == k[i].size && f.getKeypointOrientation(c) == k[i].angle && f.getKeypointScore(c) == k[i].response, key, "keypoint %d: scale %g, orientation %g, score %g instead of %g %g %g", c, f.getKeypointScale(c), f.getKeypointOrientation(c), f.getKeypointScore(c), k[i].size, k[i].angle, k[i].response);
    VF_EXPECT(f.getKeypointMeasurementUncertainty(c) == sigma, key, "keypoint %d: uncertainty %g", c, f.getKeypointMeasurementUncertainty(c));
    VF_EXPECT(f.getTrackIds()(c) == -1, key, "keypoint %d: new with track id %d", c, f.getTrackIds()(c));
    const Desc& all = f.getDescriptors(block);
    for (int b = 0; b < d.cols; ++b) if (!VF_EXPECT(all(b, c) == d.at<unsigned char>(static_cast<int>(i), b), key, "byte %d of descriptor %d is %d instead of %d", b, c, all(b, c), d.at<unsigned char>(static_cast<int>(i), b))) break;
  }
}
bool expectSizes(const VisualFrame& f, int n, const char* key) {
  return VF_EXPECT(static_cast<int>(f.getNumKeypointMeasurements()) == n && f.getKeypointScales().size() == n && f.getKeypointOrientations().size() == n && f.getKeypointScores().size() == n && f.getKeypointMeasurementUncertainties().size() == n && f.getTrackIds().size() == n && f.getDescriptors().cols() == n, key, "%d features, channels hold %zu keypoints, %ld scales, %ld orientations, %ld scores, %ld uncertainties, %ld ids, %ld descriptors", n, f.getNumKeypointMeasurements(), static_cast<long>(f.getKeypointScales().size()), static_cast<long>(f.getKeypointOrientations().size()), static_cast<long>(f.getKeypointScores().size()), static_cast<long>(f.getKeypointMeasurementUncertainties().size()), static_cast<long>(f.getTrackIds().size()), static_cast<long>(f.getDescriptors().cols()));
}

void insertion(Rng& r, uint64_t) {
  const int bytes = 1 + static_cast<int>(r.below(64));
  VisualFrame::Ptr f = newFrame(nullptr, 1);
  if (r.chance(0.3)) f->setKeypointMeasurements(Eigen::Matrix2Xd(2, 0));
  if (r.chance(0.2)) f->setKeypointScores(Eigen::VectorXd(0));
  if (r.chance(0.2)) f->setTrackIds(Ids(0));
  std::vector<cv::KeyPoint> k = someKeypoints(r, r.chance(0.15) ? 0 : static_cast<int>(r.below(r.chance(0.03) ? 400 : 20)));
  cv::Mat d = someRows(r, k.size(), bytes);
  if (k.empty() && r.chance(0.5)) d = cv::Mat(0, 0, CV_8UC1);
  double sigma = r.uni(0.01, 5);
  vf::detail(vf::fmt("%zu features of %d bytes", k.size(), bytes));
  if (!vf::mustReturn("insert-returns", "inserting features", [&] { insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(k, d, sigma, f.get()); })) return;
  if (!expectSizes(*f, k.size(), "insert-sizes")) return;
  expectFeatures(*f, 0, k, d, sigma, 0, "insert");
  std::vector<cv::KeyPoint> all = k;
  int extensions = static_cast<int>(r.below(4));
  for (int e = 0; e < extensions; ++e) {
    const std::vector<cv::KeyPoint> more = someKeypoints(r, r.chance(0.15) ? 0 : static_cast<int>(r.below(r.chance(0.03) ? 300 : 12)));
    const cv::Mat dm = someRows(r, more.size(), bytes);
    const int n = all.size();
    if (n && r.chance(0.3)) (*f->getTrackIdsMutable())(r.below(n)) = 17;
    const VisualFrame before = *f;
    const double s = r.uni(0.01, 5);
    vf::detail(vf::fmt("%zu features of %d bytes after %d", more.size(), bytes, n));
    if (!vf::mustReturn("append-returns", "appending features", [&] { insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(more, dm, s, f.get()); })) return;
    if (!expectSizes(*f, n + more.size(), "append-sizes")) return;
    if (!more.empty() && !VF_EXPECT(f->getDescriptors().rows() == bytes, "append-sizes", "descriptors of %ld bytes instead of %d", static_cast<long>(f->getDescriptors().rows()), bytes)) return;
    expectFeatures(*f, n, more, dm, s, 0, "append");
    if (n) {
      VF_EXPECT(f->getKeypointMeasurements().leftCols(n) == before.getKeypointMeasurements() && f->getKeypointScales().head(n) == before.getKeypointScales() && f->getKeypointOrientations().head(n) == before.getKeypointOrientations() && f->getKeypointScores().head(n) == before.getKeypointScores() && f->getKeypointMeasurementUncertainties().head(n) == before.getKeypointMeasurementUncertainties() && f->getTrackIds().head(n) == before.getTrackIds() && f->getDescriptors().leftCols(n) == before.getDescriptors(), "append-others", "appending %zu features changed the %d there were", more.size(), n);
    }
    all.insert(all.end(), more.begin(), more.end());
    if (!more.empty() && n) vf::count("features appended", more.size());
  }
  // What does not fit is refused, and nothing is overwritten.
  {
    const int n = all.size();
    const VisualFrame before = *f;
    std::vector<cv::KeyPoint> more = someKeypoints(r, 1 + r.below(5));
    int rows = more.size(), cols = bytes, type = CV_8UC1, kind = static_cast<int>(r.below(5));
    double s = 1;
    cv::Mat dm;
    switch (kind) {
      case 0: rows += r.chance(0.5) ? 1 : -1; break;
      case 1: type = CV_32FC1; break;
      case 2: s = r.chance(0.5) ? 0 : -1; break;
      case 3: if (n == 0) return; cols += r.chance(0.5) && bytes > 1 ? -1 : 1 + static_cast<int>(r.below(40)); break;
      default: if (rows < 2) return;
    }
    dm = cv::Mat(rows, cols + (kind == 4), type, cv::Scalar(9));
    if (kind == 4) dm = dm.colRange(0, cols);
    vf::detail(vf::fmt("unfit features, kind %d, %d x %d after %d of %d bytes", kind, rows, cols, n, bytes));
    const vf::Outcome o = vf::guarded([&] { insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(more, dm, s, f.get()); });
    VF_EXPECT(o == vf::kFatal, vf::fmt("append-refused-%d", kind), "unfit features were appended");
    if (kind != 3 && n) VF_EXPECT(*f == before, "append-refused-same", "refused features changed the frame");
  }
  if (!all.empty()) {
    const vf::Outcome o = vf::guarded([&] { insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(k, d, 1, f.get()); });
    VF_EXPECT(o == vf::kFatal, "insert-refused", "features were inserted into a frame that has some");
  }
  vf::evaluated(vf::hashBytes(d.data, d.total(), all.size()), !all.empty(), vf::fmt("%zu features", all.size()));
}

// ---------------------------------------------------------------- C43: tracking
const int kW = 320, kH = 240, kBase = 200;
cv::Mat texture(Rng& r) {
  cv::Mat m(kH + 2 * kBase, kW + 2 * kBase, CV_8UC1), a, b;
  for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) m.at<unsigned char>(y, x) = static_cast<unsigned char>(r.below(256));
  cv::GaussianBlur(m, a, cv::Size(0, 0), 1.5);
  cv::GaussianBlur(m, b, cv::Size(0, 0), 4);
  cv::Mat c = 0.5 * a + 0.5 * b;
  cv::normalize(c, c, 0, 255, cv::NORM_MINMAX);
  return c;
}

struct Step {  // What the model knows of one frame.
  VisualFrame::Ptr f;
  std::vector<bool> lk;         // Feature status.
  std::vector<int> length;      // Status track length, once computed.
};

void track(Rng& r, uint64_t) {
  const double foc = 220;
  Camera::Ptr cam(new PinholeCamera(foc, foc, kW / 2., kH / 2., kW, kH));
  CameraId cid; generateId(&cid); cam->setId(cid);
  static const double kRatio[] = {0, 0.05, 0.15, 0.4, 0.4, 1};
  const double ratio = kRatio[r.below(6)];
  const uint64_t kLong = r.chance(0.5) ? 10 : 1 + r.below(3);
  gflags::FlagSaver saver;
  FLAGS_gyro_lk_candidate_ratio = ratio;
  FLAGS_gyro_lk_max_status_track_length = kLong;
  const size_t border = r.chance(0.5) ? r.below(30) : 30 + r.below(30);
  const int type = r.chance(0.5) ? 0 : static_cast<int>(r.below(4));
  cv::Ptr<cv::ORB> orb = cv::ORB::create();
  GyroTracker tracker(*cam, border, orb, type);
  SimpleTrackManager manager;
  const cv::Mat base = texture(r);
  const bool vast = r.chance(0.05);
  const int points = vast ? 150 + static_cast<int>(r.below(250)) : 10 + static_cast<int>(r.below(70));
  std::vector<cv::Point2d> world(points);
  std::vector<float> size(points), angle(points), score(points);
  for (int i = 0; i < points; ++i) {
    world[i] = cv::Point2d(r.uni(kBase - 20, kBase + kW + 20), r.uni(kBase - 20, kBase + kH + 20));
    size[i] = static_cast<float>(r.uni(20, 40));
    angle[i] = static_cast<float>(r.uni(0, 360));
    score[i] = static_cast<float>(r.uni(0, 100));
  }
  const double seen = r.uni(0.4, 0.95), accept = r.chance(0.3) ? 1 : r.uni(0.4, 1);
  Eigen::Matrix3d K;
  K << foc, 0, kW / 2., 0, foc, kH / 2., 0, 0, 1;
  Eigen::Matrix3d Kb = K;
  Kb(0, 2) += kBase; Kb(1, 2) += kBase;
  Eigen::Quaterniond q_C_W = Eigen::Quaterniond::Identity();
  const int frames = 3 + static_cast<int>(r.below(6));
  Step k, km1;
  bool nontrivial = false;
  uint64_t h = 0;
  int inserted = 0;
  std::set<int> ids_seen;
  for (int t = 0; t < frames; ++t) {
    Eigen::Quaterniond step = Eigen::Quaterniond::Identity();
    if (t) {
      step = Eigen::Quaterniond(Eigen::AngleAxisd(r.uni(-0.02, 0.02), Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(r.uni(-0.02, 0.02), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r.uni(-0.02, 0.02), Eigen::Vector3d::UnitZ()));
      q_C_W = step * q_C_W;
      q_C_W.normalize();
    }
    // The picture.
    const Eigen::Matrix3d H = K * q_C_W.toRotationMatrix() * Kb.inverse();
    cv::Mat hm(3, 3, CV_64F), image;
    for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) hm.at<double>(y, x) = H(y, x);
    cv::warpPerspective(base, image, hm, cv::Size(kW, kH), cv::INTER_LINEAR, cv::BORDER_REFLECT);
    std::vector<cv::KeyPoint> kp;
    for (int i = 0; i < points; ++i) {
      if (!r.chance(seen)) continue;
      Eigen::Vector3d p = H * Eigen::Vector3d(world[i].x, world[i].y, 1);
      p /= p[2];
      if (p[0] < 32 || p[1] < 32 || p[0] > kW - 33 || p[1] > kH - 33) continue;
      kp.emplace_back(static_cast<float>(p[0] + r.uni(-0.3, 0.3)), static_cast<float>(p[1] + r.uni(-0.3, 0.3)), size[i], angle[i], score[i]);
    }
    if (r.chance(0.05)) kp.clear();
    cv::Mat desc;
    orb->compute(image, kp, desc);
    if (kp.empty()) desc = cv::Mat(0, 32, CV_8UC1);
    Step s;
    s.f = newFrame(cam, 1000 + t);
    s.f->setRawImage(image);
    insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(kp, desc, 0.8, s.f.get());
    if (type) {
      const Desc d = s.f->getDescriptors();
      s.f->setDescriptors(d, 0, type);
    }
    s.lk.assign(kp.size(), false);
    if (!t) { k = s; k.length.assign(kp.size(), 0); continue; }

    const int nk = k.f->getTrackIds().size(), n1 = kp.size();
    const VisualFrame before = *s.f, k_before = *k.f;
    const Quaternion q(step);
    Eigen::Matrix2Xd predicted;
    std::vector<unsigned char> ok;
    predictKeypointsByRotation(*k.f, q, &predicted, &ok, type);
    FrameToFrameMatches plain;
    GyroTwoFrameMatcher(q, *s.f, *k.f, type, kH, predicted, ok, &plain).match();
    FrameToFrameMatches m;
    for (size_t i = r.below(3); i; --i) m.emplace_back(0, 0);
    vf::detail(vf::fmt("frame %d of %d, %d and %d keypoints, ratio %g, longest %d, border %zu, type %d", t, frames, nk, n1, ratio, static_cast<int>(kLong), border, type));
    if (!vf::mustReturn("track-returns", "tracking", [&] { tracker.track(q, *k.f, s.f.get(), &m); })) return;

    VF_EXPECT(*k.f == k_before, "track-previous", "tracking changed the previous frame");
    const int total = s.f->getTrackIds().size();
    if (!expectSizes(*s.f, total, "track-sizes")) return;
    VF_EXPECT(total >= n1 && s.f->getKeypointMeasurements().leftCols(n1) == before.getKeypointMeasurements() && s.f->getTrackIds().head(n1) == before.getTrackIds() && s.f->getKeypointScales().head(n1) == before.getKeypointScales() && s.f->getKeypointScores().head(n1) == before.getKeypointScores() && s.f->getKeypointOrientations().head(n1) == before.getKeypointOrientations() && s.f->getKeypointMeasurementUncertainties().head(n1) == before.getKeypointMeasurementUncertainties() && s.f->getDescriptors().leftCols(n1) == before.getDescriptors(), "track-others", "tracking changed the features that were detected");
    // Matches: those of the matcher, then one for every feature appended.
    std::map<int, int> appended;  // k -> k+1.
    std::set<int> used_k, used_1, plain_k;
    for (const auto& p : plain) plain_k.insert(p.second);
    size_t from_matcher = 0;
    for (const auto& p : m) {
      if (!VF_EXPECT(p.first >= 0 && p.first < total && p.second >= 0 && p.second < nk, "match-range", "match (%d, %d) of %d and %d features", p.first, p.second, total, nk)) return;
      VF_EXPECT(used_1.insert(p.first).second && used_k.insert(p.second).second, "match-once", "a feature of match (%d, %d) is matched twice", p.first, p.second);
      if (p.first < n1) {
        ++from_matcher;
        VF_EXPECT(std::find(plain.begin(), plain.end(), p) != plain.end(), "match-matcher", "match (%d, %d) is not one of the matcher", p.first, p.second);
      } else {
        appended[p.second] = p.first;
      }
    }
    VF_EXPECT(from_matcher == plain.size(), "match-matcher", "%zu of the matcher's %zu matches", from_matcher, plain.size());
    VF_EXPECT(static_cast<int>(appended.size()) == total - n1, "match-appended", "%d features appended, %zu matches to them", total - n1, appended.size());
    // How long every feature of frame k has been what it is.
    std::vector<int> length(nk, 0);
    if (km1.f) {
      for (int i = 0; i < nk; ++i) {
        const int id = k.f->getTrackIds()(i);
        if (id < 0) continue;
        int j = -1;
        for (int x = 0; x < km1.f->getTrackIds().size(); ++x) if (km1.f->getTrackIds()(x) == id) j = x;
        if (j < 0) continue;
        length[i] = k.lk[i] != km1.lk[j] ? 1 : km1.length[j] + 1;
      }
    }
    k.length = length;
    // Candidates in order of preference.
    struct Cand { int index; int rank; };
    std::vector<Cand> cand;
    for (int i = 0; i < nk; ++i) {
      if (plain_k.count(i)) continue;
      if (!k.lk[i] && length[i] >= 1) cand.push_back(Cand{i, 100000 - length[i]});
      if (k.lk[i] && length[i] < static_cast<int>(kLong)) cand.push_back(Cand{i, 200000 + length[i]});
    }
    const size_t most = static_cast<size_t>(n1 * ratio);
    VF_EXPECT(appended.size() <= most, "append-most", "%zu features appended to %d, more than %zu", appended.size(), n1, most);
    for (const auto& a : appended) {
      bool is = false;
      for (const Cand& c : cand) is |= c.index == a.first;
      VF_EXPECT(is, "append-candidate", "feature %d of frame k was appended: matched %d, %s, for %d matches", a.first, static_cast<int>(plain_k.count(a.first)), k.lk[a.first] ? "tracked by optical flow" : "detected", length[a.first]);
    }
    for (const Cand& c : cand) {
      size_t better = 0, equal = 0;
      for (const Cand& d : cand) { better += d.rank < c.rank; equal += d.index != c.index && d.rank == c.rank; }
      const bool is = appended.count(c.index);
      vf::count(k.lk[c.index] ? "candidates tracked before" : "candidates detected before");
      if (better >= most) {
        VF_EXPECT(!is, "append-order", "feature %d was appended although %zu better candidates fill the %zu places", c.index, better, most);
        if (most) vf::count("candidates beyond the limit");
        continue;
      }
      // Where optical flow takes it.
      bool good = ok[c.index] != 0;
      std::vector<cv::Point2f> from, to;
      cv::Mat one;
      std::vector<cv::KeyPoint> okp;
      if (good) {
        const V2 a = k.f->getKeypointMeasurement(c.index);
        from.emplace_back(a[0], a[1]);
        to.emplace_back(predicted(0, c.index), predicted(1, c.index));
        std::vector<unsigned char> st;
        std::vector<float> err;
        cv::calcOpticalFlowPyrLK(k.f->getRawImage(), s.f->getRawImage(), from, to, st, err, cv::Size(21, 21), 1, cv::TermCriteria(cv::TermCriteria::COUNT | cv::TermCriteria::EPS, 50, 0.005), cv::OPTFLOW_USE_INITIAL_FLOW, 0.001);
        good = st[0] != 0;
        if (!good) vf::count("candidates optical flow lost");
        if (good && (to[0].x < border || to[0].y < border || to[0].x >= kW - static_cast<int>(border) || to[0].y >= kH - static_cast<int>(border))) { good = false; vf::count("candidates lost at the border"); }
        if (good) {
          okp.emplace_back(to[0], static_cast<float>(k.f->getKeypointScale(c.index)), static_cast<float>(k.f->getKeypointOrientation(c.index)), static_cast<float>(k.f->getKeypointScore(c.index)), 0, 0);
          orb->compute(image, okp, one);
          good = !okp.empty();
        }
      }
      if (!good) {
        VF_EXPECT(!is, "append-lost", "feature %d was appended although it was lost", c.index);
        continue;
      }
      if (better + equal < most) VF_EXPECT(is, "append-missing", "feature %d of frame k at (%.9g %.9g), %s for %d matches, was not appended; %zu candidates are better, %zu as good, %zu places", c.index, k.f->getKeypointMeasurement(c.index)[0], k.f->getKeypointMeasurement(c.index)[1], k.lk[c.index] ? "tracked" : "detected", length[c.index], better, equal, most);
      if (!is) continue;
      const int at = appended[c.index];
      VF_EXPECT((s.f->getKeypointMeasurement(at) - V2(to[0].x, to[0].y)).norm() < 1e-3, "append-point", "feature %d was appended at (%.9g %.9g) instead of (%.9g %.9g)", c.index, s.f->getKeypointMeasurement(at)[0], s.f->getKeypointMeasurement(at)[1], to[0].x, to[0].y);
      VF_EXPECT(s.f->getKeypointScale(at) == okp[0].size && s.f->getKeypointOrientation(at) == okp[0].angle && s.f->getKeypointScore(at) == okp[0].response, "append-copied", "feature %d was appended with scale %g, orientation %g, score %g instead of %g, %g, %g", c.index, s.f->getKeypointScale(at), s.f->getKeypointOrientation(at), s.f->getKeypointScore(at), okp[0].size, okp[0].angle, okp[0].response);
      VF_EXPECT(s.f->getKeypointMeasurementUncertainty(at) == 0.8 && s.f->getTrackIds()(at) == -1, "append-fresh", "feature %d was appended with uncertainty %g and track id %d", c.index, s.f->getKeypointMeasurementUncertainty(at), s.f->getTrackIds()(at));
      int bits = 0;
      for (int b = 0; b < one.cols; ++b) bits += __builtin_popcount(one.at<unsigned char>(0, b) ^ s.f->getDescriptors()(b, at));
      VF_EXPECT(bits == 0, "append-descriptor", "the descriptor of the appended feature %d has %d wrong bits", c.index, bits);
      ++inserted;
      nontrivial = true;
      vf::count(k.lk[c.index] ? "appended, tracked before" : "appended, detected before");
      vf::maxOf("longest status track appended", length[c.index]);
    }
    s.lk.resize(total, true);
    // Outlier rejection keeps some.
    FrameToFrameMatches kept;
    for (const auto& p : m) if (r.chance(accept)) kept.push_back(p);
    manager.applyMatchesToFrames(kept, s.f.get(), k.f.get());
    h = vf::hashBytes(m.data(), m.size() * sizeof(m[0]), h);
    km1 = k;
    k = s;
  }
  // Frames in the wrong order, or of another camera, are refused.
  if (r.chance(0.2) && km1.f) {
    FrameToFrameMatches m;
    VF_EXPECT(vf::guarded([&] { tracker.track(Quaternion(), *k.f, km1.f.get(), &m); }) == vf::kFatal, "order-refused", "frames in the wrong order were tracked");
    VF_EXPECT(vf::guarded([&] { tracker.track(Quaternion(), *k.f, k.f.get(), &m); }) == vf::kFatal, "order-refused", "a frame was tracked into itself");
    Camera::Ptr other(new PinholeCamera(foc, foc, kW / 2., kH / 2., kW, kH));
    CameraId oid; generateId(&oid); other->setId(oid);
    VisualFrame::Ptr wrong(new VisualFrame(*k.f));
    wrong->setCameraGeometry(other);
    wrong->setTimestampNanoseconds(99999);
    VF_EXPECT(vf::guarded([&] { tracker.track(Quaternion(), *k.f, wrong.get(), &m); }) == vf::kFatal, "camera-refused", "a frame of another camera was tracked");
  }
  vf::evaluated(h, nontrivial, vf::fmt("%d points, %d frames, %d appended", points, frames, inserted));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  if (vf::opts().property == "C37") {
    vf::part("assign", vf::scale(6000, 200000), assign);
    vf::part("refuse", vf::scale(3000, 60000), refuse);
    vf::part("concurrent", vf::scale(300, 8000), concurrent);
    vf::part("provider", vf::scale(300, 5000), provider);
  } else {
    vf::part("insertion", vf::scale(4000, 80000), insertion);
    vf::part("track", vf::scale(350, 6000), track);
  }
  return vf::finish();
}
