// C41: the synchronizing image pipeline.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include "camera_ref.h"
#include "vf_sched.h"
#include <aslam/cameras/ncamera.h>
#include <aslam/cameras/random-camera-generator.h>
#include <aslam/common/memory.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/pipeline/visual-npipeline.h>
#include <aslam/pipeline/visual-pipeline-null.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <map>
#include <set>
#include <thread>

// Lets a thread linger just before it starts to wait, with its mutex held.
static std::atomic<int> g_linger_us(0);
static std::atomic<int> g_lingering(0);
#ifndef __SANITIZE_THREAD__
extern "C" __attribute__((visibility("default"))) int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  typedef int (*Fn)(pthread_cond_t*, pthread_mutex_t*);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "pthread_cond_wait"));
  const int us = g_linger_us;
  if (us) {
    ++g_lingering;
    usleep(us);
  }
  return real(c, m);
}
#endif

namespace {
const int kW = 8, kH = 6;
typedef std::shared_ptr<VisualNFrame> Set;

struct Rig {
  NCamera::Ptr in, out;
  std::vector<VisualPipeline::Ptr> pipes;
};
// Passes images on; may correct timestamps and take its time.
class Probe : public VisualPipeline {
 public:
  Probe(const Camera::ConstPtr& in, const Camera::ConstPtr& out, bool copy, int64_t shift, int spin) : VisualPipeline(in, out, copy), shift_(shift), spin_(spin) {}
 protected:
  void processFrameImpl(const cv::Mat& image, VisualFrame* f) const override {
    if (shift_) f->setTimestampNanoseconds(f->getTimestampNanoseconds() + shift_);
    if (spin_) {
      const int mine = (image.at<unsigned char>(0, 0) * 37 + image.at<unsigned char>(1, 0) * 11) % 7;
      for (int i = 0; i < mine * spin_; ++i) std::this_thread::yield();
    }
  }
  int64_t shift_;
  int spin_;
};
NCamera::Ptr someRig(int n) {
  std::vector<Camera::Ptr> c;
  TransformationVector T;
  for (int i = 0; i < n; ++i) {
    PinholeCamera::Ptr p(new PinholeCamera(10 + i, 10, kW / 2., kH / 2., kW, kH));
    CameraId id; generateId(&id); p->setId(id);
    c.push_back(p);
    T.push_back(Transformation());
  }
  NCameraId id; generateId(&id);
  return NCamera::Ptr(new NCamera(id, T, c, "rig"));
}
Rig makeRig(Rng& r, int n, int64_t shift, int spin, bool copy) {
  Rig g;
  g.in = someRig(n);
  g.out = r.chance(0.5) ? g.in : someRig(n);
  for (int i = 0; i < n; ++i) {
    Camera::ConstPtr a = g.in->getCameraShared(i), b = g.out->getCameraShared(i);
    if (!shift && !spin && g.in == g.out && r.chance(0.5)) g.pipes.emplace_back(new NullVisualPipeline(a, copy));
    else g.pipes.emplace_back(new Probe(a, b, copy, shift, spin));
  }
  return g;
}
cv::Mat tagged(uint32_t tag) {
  cv::Mat m(kH, kW, CV_8UC1);
  Rng r(tag * 7919ull + 3);
  for (int y = 0; y < kH; ++y) for (int x = 0; x < kW; ++x) m.at<unsigned char>(y, x) = static_cast<unsigned char>(r.below(256));
  for (int i = 0; i < 4; ++i) m.at<unsigned char>(i, 0) = static_cast<unsigned char>(tag >> (8 * i));
  return m;
}
uint32_t tagOf(const cv::Mat& m) {
  uint32_t t = 0;
  for (int i = 0; i < 4; ++i) t |= static_cast<uint32_t>(m.at<unsigned char>(i, 0)) << (8 * i);
  return t;
}
bool sameImage(const cv::Mat& a, const cv::Mat& b) {
  if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) return false;
  for (int y = 0; y < a.rows; ++y) if (memcmp(a.ptr(y), b.ptr(y), a.cols * a.elemSize())) return false;
  return true;
}

// ---------------------------------------------------------------- model
struct Group { std::map<int, uint32_t> tag; };
struct Sync {
  int n;
  int64_t tol;
  std::map<int64_t, Group> processing, completed;
  size_t abandoned = 0, replaced = 0, kept = 0;
  bool complete(const Group& g) const { return static_cast<int>(g.tag.size()) == n; }
  void finish(std::map<int64_t, Group>::iterator it) { completed.insert(*it); }
  void add(int cam, int64_t t, uint32_t tag) {
    auto best = processing.end();
    for (auto it = processing.begin(); it != processing.end(); ++it)
      if (best == processing.end() || std::abs(it->first - t) < std::abs(best->first - t)) best = it;
    if (best == processing.end() || std::abs(best->first - t) > tol) best = processing.emplace(t, Group()).first;
    replaced += best->second.tag.count(cam);
    best->second.tag[cam] = tag;
    // Two complete sets in a row: what is incomplete before them stays so.
    if (processing.size() > 3) {
      auto a = processing.begin(), b = std::next(a);
      while (b != processing.end() && !(complete(a->second) && complete(b->second))) { ++a; ++b; }
      if (b != processing.end()) {
        for (auto it = processing.begin(); it != a;) {
          if (complete(it->second)) { finish(it); ++kept; }
          else ++abandoned;
          it = processing.erase(it);
        }
      }
    }
    while (!processing.empty() && complete(processing.begin()->second)) {
      finish(processing.begin());
      processing.erase(processing.begin());
    }
  }
};
std::string show(const Group& g) {
  std::string s;
  for (auto& t : g.tag) s += vf::fmt(" %d:%u", t.first, t.second);
  return s;
}
struct Pushed { int cam; int64_t t; cv::Mat image; };

// A delivered set holds what the group says.
void expectSet(const Set& s, int64_t /*key*/, const Group& g, const Rig& rig, const std::map<uint32_t, Pushed>& pushed, int64_t shift, bool copy) {
  VF_EXPECT(static_cast<size_t>(s->getNumFrames()) == g.tag.size() && s->areAllFramesSet(), "set-complete", "a delivered set is not complete");
  VF_EXPECT(s->getNCameraShared().get() == rig.out.get(), "set-rig", "a delivered set belongs to another rig");
  for (auto& e : g.tag) {
    VisualFrame::ConstPtr f = s->getFrameShared(e.first);
    if (!VF_EXPECT(f != nullptr, "set-complete", "frame %d of a delivered set is missing", e.first)) continue;
    const Pushed& p = pushed.at(e.second);
    VF_EXPECT(sameImage(f->getRawImage(), p.image), "set-image", "frame %d of a delivered set holds image %u instead of %u", e.first, tagOf(f->getRawImage()), e.second);
    VF_EXPECT((f->getRawImage().data == p.image.data) == !copy, "set-copy", "images are %s", copy ? "shared although they should be copied" : "copied");
    VF_EXPECT(f->getTimestampNanoseconds() == p.t + shift, "set-time", "frame %d has time %ld instead of %ld", e.first, static_cast<long>(f->getTimestampNanoseconds()), static_cast<long>(p.t + shift));
    VF_EXPECT(f->getCameraGeometry().get() == &rig.out->getCamera(e.first) && f->getRawCameraGeometry().get() == &rig.in->getCamera(e.first), "set-camera", "frame %d belongs to another camera", e.first);
    VF_EXPECT(f->getId().isValid(), "set-id", "frame %d has no id", e.first);
  }
}

void sequential(Rng& r, uint64_t) {
  const int n = 1 + static_cast<int>(r.below(4));
  const int64_t period = 1000, tol = r.chance(0.2) ? 0 : r.chance(0.9) ? r.below(400) : 600 + r.below(2000);
  const int64_t shift = r.chance(0.3) ? static_cast<int64_t>(r.below(100000)) - 50000 : 0;
  const bool copy = r.chance(0.5);
  const Rig rig = makeRig(r, n, shift, 0, copy);
  VisualNPipeline p(1, rig.pipes, rig.in, rig.out, tol);
  VF_EXPECT(p.getInputNCameras().get() == rig.in.get() && p.getOutputNCameras().get() == rig.out.get(), "rigs", "the pipeline reports other rigs");
  Sync m;
  m.n = n; m.tol = tol;
  // What is to be pushed: rounds with jitter, losses, repeats, then mixed up.
  const int64_t base = r.chance(0.1) ? -5000 : r.chance(0.5) ? static_cast<int64_t>(1400000000000000000) : 0;
  const double loss = r.chance(0.4) ? 0 : r.uni(0, 0.4), repeat = r.chance(0.7) ? 0 : 0.1;
  std::vector<Pushed> todo;
  for (int k = 0, rounds = 2 + static_cast<int>(r.below(14)); k < rounds; ++k)
    for (int c = 0; c < n; ++c) {
      if (r.chance(loss)) continue;
      const int64_t jitter = tol && !r.chance(0.05) ? static_cast<int64_t>(r.below(tol + 1)) - tol / 2 : r.chance(0.8) ? 0 : static_cast<int64_t>(r.below(3)) - 1;
      Pushed x = {c, base + k * period + jitter, cv::Mat()};
      todo.push_back(x);
      if (r.chance(repeat)) todo.push_back(x);
    }
  const int mix = static_cast<int>(r.below(3));
  if (mix) for (size_t i = 0; i + 1 < todo.size(); ++i) if (r.chance(0.4)) std::swap(todo[i], todo[std::min(todo.size() - 1, i + 1 + r.below(mix == 1 ? n : 4 * n))]);
  std::map<uint32_t, Pushed> pushed;
  std::set<FrameId> ids;
  std::string log;
  size_t delivered = 0;
  const bool popping = r.chance(0.7);
  uint32_t tag = 1 + static_cast<uint32_t>(r.below(1u << 20));
  bool ok = true;
  auto take = [&](const Set& s, std::map<int64_t, Group>::iterator it) {
    if (!VF_EXPECT(s != nullptr, "deliver", "nothing delivered, waiting: %zu", m.completed.size())) { ok = false; return; }
    expectSet(s, it->first, it->second, rig, pushed, shift, copy);
    for (int c = 0; c < n; ++c) if (s->isFrameSet(c)) VF_EXPECT(ids.insert(s->getFrame(c).getId()).second, "set-id", "two frames share an id");
    ++delivered;
  };
  for (size_t i = 0; i < todo.size() && ok; ++i) {
    Pushed x = todo[i];
    x.image = tagged(++tag);
    pushed[tag] = x;
    const size_t before = m.completed.size();
    log += vf::fmt(" %d@%ld", x.cam, static_cast<long>(x.t - base));
    vf::detail(vf::fmt("%d cameras, tolerance %ld, shift %ld, base %ld:%s", n, static_cast<long>(tol), static_cast<long>(shift), static_cast<long>(base), log.c_str()));
    const int how = static_cast<int>(r.below(popping ? 3 : 2));
    if (how) p.waitForAllWorkToComplete();
    switch (how) {
      case 0: p.processImage(x.cam, x.image, x.t); break;
      case 1: VF_EXPECT(p.processImageBlockingIfFull(x.cam, x.image, x.t, before + 1 + r.below(3)), "push-blocking", "an image was refused"); break;
      default: {
        const size_t most = 1 + r.below(4);
        const bool dropped = p.processImageNonBlockingDroppingOldestNFrameIfFull(x.cam, x.image, x.t, most);
        VF_EXPECT(dropped == (before >= most), "push-dropping", "%zu sets waited, at most %zu wanted: %s dropped", before, most, dropped ? "one" : "none");
        if (before >= most) { m.completed.erase(m.completed.begin()); log += "(drop)"; vf::count("oldest sets dropped on request"); }
      }
    }
    m.add(x.cam, x.t + shift, tag);
    if (r.chance(0.3) && i + 1 < todo.size()) continue;
    p.waitForAllWorkToComplete();
    if (!VF_EXPECT(p.getNumFramesComplete() == m.completed.size() && p.getNumFramesProcessing() == m.processing.size(), "count", "%zu sets complete and %zu in progress instead of %zu and %zu", p.getNumFramesComplete(), p.getNumFramesProcessing(), m.completed.size(), m.processing.size())) return;
    if (!popping) continue;
    switch (r.below(6)) {
      case 0: {
        Set s = p.getNext();
        if (m.completed.empty()) { ok = VF_EXPECT(s == nullptr, "deliver-empty", "a set was delivered although none is complete"); break; }
        take(s, m.completed.begin());
        m.completed.erase(m.completed.begin());
        break;
      }
      case 1: {
        if (m.completed.empty()) break;
        Set s;
        VF_EXPECT(p.getNextBlocking(&s), "deliver-blocking", "no set although one is complete");
        take(s, m.completed.begin());
        m.completed.erase(m.completed.begin());
        break;
      }
      case 2: {
        Set s;
        const bool blocking = r.chance(0.5);
        if (m.completed.empty() && blocking) break;
        if (blocking) VF_EXPECT(p.getLatestAndClearBlocking(&s), "latest-blocking", "no set although one is complete");
        else s = p.getLatestAndClear();
        if (m.completed.empty()) { ok = VF_EXPECT(s == nullptr, "latest-empty", "a set was delivered although none is complete"); break; }
        auto last = std::prev(m.completed.end());
        take(s, last);
        while (!m.processing.empty() && m.processing.begin()->first <= last->first) m.processing.erase(m.processing.begin());
        m.completed.clear();
        ok = ok && VF_EXPECT(p.getNumFramesComplete() == 0 && p.getNumFramesProcessing() == m.processing.size(), "latest-clears", "%zu sets complete and %zu in progress after clearing, not %zu in progress", p.getNumFramesComplete(), p.getNumFramesProcessing(), m.processing.size());
        vf::count("queues cleared");
        break;
      }
      default: break;
    }
  }
  while (ok && !m.completed.empty()) {
    take(p.getNext(), m.completed.begin());
    m.completed.erase(m.completed.begin());
  }
  VF_EXPECT(!ok || p.getNext() == nullptr, "deliver-empty", "a set was delivered although none is complete");
  vf::count("sets delivered", delivered);
  vf::count("sets abandoned", m.abandoned);
  vf::count("images replaced", m.replaced);
  vf::count("complete sets delivered past abandoned ones", m.kept);
  vf::evaluated(vf::hashStr(log), delivered > 0, vf::fmt("%d cameras:%s", n, log.c_str()));
}

// ---------------------------------------------------------------- many threads
void concurrent(Rng& r, uint64_t) {
  const int n = 1 + static_cast<int>(r.below(4)), threads = 1 + static_cast<int>(r.below(6));
  const int rounds = 5 + static_cast<int>(r.below(40));
  const int64_t period = 1000, tol = 1 + r.below(300);
  const bool lossy = r.chance(0.3);
  const int mode = static_cast<int>(r.below(3));  // 0: drained at the end, 1: consumer, 2: limited queue and consumer
  const Rig rig = makeRig(r, n, 0, r.chance(0.7) ? 1 + static_cast<int>(r.below(60)) : 0, r.chance(0.5));
  VisualNPipeline p(threads, rig.pipes, rig.in, rig.out, tol);
  std::vector<std::vector<Pushed>> per(n);
  std::map<uint32_t, Pushed> pushed;
  std::map<uint32_t, int> round_of;
  uint32_t tag = 1;
  std::set<int> lost;
  for (int k = 0; k < rounds; ++k)
    for (int c = 0; c < n; ++c) {
      Pushed x = {c, k * period + static_cast<int64_t>(r.below(tol / 2 + 1)), tagged(++tag)};
      pushed[tag] = x;
      round_of[tag] = k;
      if (lossy && r.chance(0.1)) { lost.insert(k); x.cam = -1; }
      per[c].push_back(x);
    }
  vf::detail(vf::fmt("%d cameras, %d threads, %d rounds, tolerance %ld, mode %d, %zu rounds incomplete", n, threads, rounds, static_cast<long>(tol), mode, lost.size()));
  // Nobody is ahead by more than one round, so that no set that will be complete is given up.
  std::vector<std::atomic<int>> at(n);
  for (auto& a : at) a = 0;
  std::vector<Set> got;
  std::mutex got_m;
  std::atomic<bool> end(false);
  std::atomic<uint64_t> progress(0);
  const size_t most = 1 + r.below(4);
  std::vector<std::thread> t;
  std::atomic<int> processed_rounds(0);
  for (int c = 0; c < n; ++c) {
    t.emplace_back([&, c] {
      for (int k = 0; k < rounds; ++k) {
        for (;;) {
          int least = rounds;
          for (auto& a : at) least = std::min(least, a.load());
          if (k <= least) break;
          std::this_thread::yield();
        }
        // All images of two rounds ago have been processed.
        if (k % 2 == 0) p.waitForAllWorkToComplete();
        if (per[c][k].cam >= 0) {
          if (mode == 2) { if (!p.processImageBlockingIfFull(c, per[c][k].image, per[c][k].t, most)) vf::violation("refused", "an image was refused"); }
          else p.processImage(c, per[c][k].image, per[c][k].t);
        }
        ++at[c];
        ++progress;
      }
    });
  }
  std::vector<std::thread> consumers;
  if (mode) {
    for (int k = 1 + static_cast<int>(r.below(2)); k; --k)
      consumers.emplace_back([&] {
        for (;;) {
          Set s;
          if (!p.getNextBlocking(&s)) return;
          std::lock_guard<std::mutex> l(got_m);
          got.push_back(s);
          ++progress;
        }
      });
  }
  std::atomic<bool> joined(false);
  std::thread watch([&] { for (auto& x : t) x.join(); joined = true; });
  vf::awaitOrStall([&] { return joined.load(); }, [&] { return progress.load(); }, "stall", [&] { return std::string("images are no longer accepted"); });
  watch.join();
  p.waitForAllWorkToComplete();
  if (mode) {
    // The consumers take what is left.
    vf::awaitOrStall([&] { return p.getNumFramesComplete() == 0; }, [&] { return progress.load(); }, "stall-consumer", [&] { return vf::fmt("%zu sets are waiting and nobody is woken up", p.getNumFramesComplete()); });
  } else {
    int64_t last = std::numeric_limits<int64_t>::min();
    while (Set s = p.getNext()) {
      const int64_t now = s->getMinTimestampNanoseconds();
      VF_EXPECT(last == std::numeric_limits<int64_t>::min() || now > last - tol, "order", "a set of time %ld was delivered after one of %ld", static_cast<long>(now), static_cast<long>(last));
      last = now;
      got.push_back(s);
    }
  }
  const size_t left = p.getNumFramesProcessing();
  p.shutdown();
  std::atomic<bool> gone(false);
  std::thread watch2([&] { for (auto& x : consumers) x.join(); gone = true; });
  vf::awaitOrStall([&] { return gone.load(); }, [&] { return progress.load(); }, "shutdown-consumer", [&] { return std::string("a consumer is not released by the shutdown"); });
  watch2.join();
  // Every image at most once, in its round, by its camera.
  std::set<uint32_t> seen;
  std::set<int> full;
  uint64_t h = 0;
  size_t inversions = 0;
  int previous = -1;
  for (const Set& s : got) {
    if (!VF_EXPECT(s->areAllFramesSet(), "mt-complete", "an incomplete set was delivered")) continue;
    int round = -1;
    for (int c = 0; c < n; ++c) {
      const VisualFrame& f = s->getFrame(c);
      const uint32_t x = tagOf(f.getRawImage());
      if (!VF_EXPECT(pushed.count(x), "mt-image", "an image nobody pushed was delivered")) continue;
      const Pushed& q = pushed[x];
      VF_EXPECT(q.cam == c && f.getTimestampNanoseconds() == q.t && sameImage(f.getRawImage(), q.image), "mt-camera", "frame %d holds an image of camera %d", c, q.cam);
      VF_EXPECT(seen.insert(x).second, "mt-once", "an image was delivered twice");
      if (round >= 0) VF_EXPECT(round == round_of[x], "mt-mixed", "images of rounds %d and %d were delivered together", round, round_of[x]);
      round = round_of[x];
    }
    full.insert(round);
    inversions += round < previous;
    previous = round;
    h = vf::mix(h * 31 + round + 1);
  }
  for (int k = 0; k < rounds; ++k) {
    if (lost.count(k)) VF_EXPECT(!full.count(k), "mt-lost", "round %d was delivered although it is incomplete", k);
    else if (lost.empty()) VF_EXPECT(full.count(k), "mt-missing", "round %d of %d was complete but not delivered (%zu left in progress)", k, rounds, left);
  }
  if (lost.empty()) VF_EXPECT(left == 0, "mt-left", "%zu sets are in progress after all images were processed", left);
  vf::count("sets delivered by several threads", got.size());
  vf::maxOf("sets overtaken in one run", inversions);
  vf::evaluated(h ^ vf::hashStr(vf::fmt("%d %d %d", n, threads, mode)), threads > 1, vf::fmt("%d cameras, %d threads, %d rounds, mode %d", n, threads, rounds, mode));
}

// Rounds that stay incomplete are not handed out, and complete ones that follow are.
void liveness(Rng& r, uint64_t) {
  const int n = 2 + static_cast<int>(r.below(3)), threads = 1 + static_cast<int>(r.below(4));
  const Rig rig = makeRig(r, n, 0, 0, false);
  VisualNPipeline p(threads, rig.pipes, rig.in, rig.out, 10);
  std::set<int> want, got;
  uint32_t tag = 0;
  const int rounds = 8 + static_cast<int>(r.below(20));
  std::string log;
  for (int k = 0; k < rounds; ++k) {
    const int missing = k < rounds - 3 && r.chance(0.4) ? static_cast<int>(r.below(n)) : -1;
    if (missing < 0) want.insert(k);
    log += missing < 0 ? "C" : "I";
    for (int c = 0; c < n; ++c) if (c != missing) p.processImage(c, tagged(++tag), 1000 * k);
    p.waitForAllWorkToComplete();
    if (r.chance(0.3)) while (Set s = p.getNext()) got.insert(static_cast<int>(s->getMinTimestampNanoseconds() / 1000));
  }
  vf::detail(log);
  while (Set s = p.getNext()) got.insert(static_cast<int>(s->getMinTimestampNanoseconds() / 1000));
  for (int k : want) VF_EXPECT(got.count(k), "complete-lost", "set %d of %s was complete and never delivered", k, log.c_str());
  for (int k : got) VF_EXPECT(want.count(k), "incomplete-delivered", "set %d of %s was delivered", k, log.c_str());
  vf::evaluated(vf::hashStr(log), log.find('I') != std::string::npos, log);
}

// ---------------------------------------------------------------- blocking
void blocking(Rng& r, uint64_t) {
  const int n = 1 + static_cast<int>(r.below(3));
  const Rig rig = makeRig(r, n, 0, 0, false);
  VisualNPipeline p(1 + r.below(3), rig.pipes, rig.in, rig.out, 10);
  uint32_t tag = 0;
  int64_t t = 0;
  auto round = [&] { t += 1000; for (int c = 0; c < n; ++c) p.processImage(c, tagged(++tag), t); p.waitForAllWorkToComplete(); };
  const bool latest = r.chance(0.5);
  auto get = [&](Set* s) { return latest ? p.getLatestAndClearBlocking(s) : p.getNextBlocking(s); };
  Set s;
  bool result = false;
  const int kind = static_cast<int>(r.below(5));
  vf::detail(vf::fmt("kind %d, %d cameras, %s", kind, n, latest ? "latest" : "next"));
  std::atomic<bool> out(false);
  auto released = [&](const char* key) { vf::awaitOrStall([&] { return out.load(); }, [] { return 0ull; }, key, [&] { return std::string("the waiting call does not return"); }); };
  switch (kind) {
    case 0: {  // Woken by data.
      vf::Actor a([&] { result = get(&s); out = true; });
      VF_EXPECT(a.blocked(), "get-blocks", "the call returned although nothing is complete");
      for (int c = 0; c + 1 < n; ++c) p.processImage(c, tagged(++tag), 500);
      p.waitForAllWorkToComplete();
      VF_EXPECT(n == 1 || !a.done(), "get-blocks", "the call returned although nothing is complete");
      p.processImage(n - 1, tagged(++tag), 500);
      released("get-wakes");
      VF_EXPECT(result && s && s->areAllFramesSet(), "get-result", "the call returned %d", result);
      break;
    }
    case 1: {  // Released by a shutdown.
      vf::Actor a([&] { result = get(&s); out = true; });
      VF_EXPECT(a.blocked(), "get-blocks", "the call returned although nothing is complete");
      result = true;
      p.shutdown();
      released("get-shutdown");
      VF_EXPECT(!result && !s, "get-shutdown-result", "the call returned true after the shutdown");
      break;
    }
    case 2: case 3: {  // A full queue.
      const size_t most = 1 + r.below(3);
      for (size_t i = 0; i < most; ++i) round();
      VF_EXPECT(p.getNumFramesComplete() == most, "full", "%zu of %zu sets complete", p.getNumFramesComplete(), most);
      t += 1000;
      vf::Actor a([&] { result = p.processImageBlockingIfFull(0, tagged(9999), t, most); out = true; });
      VF_EXPECT(a.blocked(), "push-blocks", "an image was accepted although %zu sets wait", most);
      VF_EXPECT(p.getNumFramesComplete() == most && p.getNumFramesProcessing() == 0, "push-blocks", "an image was processed although %zu sets wait", most);
      if (kind == 2) {
        switch (r.below(3)) {
          case 0: p.getNext(); break;
          case 1: p.getLatestAndClear(); break;
          default: p.getNextBlocking(&s);
        }
        released("push-wakes");
        VF_EXPECT(result, "push-result", "the image was refused");
        p.waitForAllWorkToComplete();
        VF_EXPECT(p.getNumFramesComplete() + p.getNumFramesProcessing() >= 1, "push-processed", "the image was not processed");
      } else {
        result = true;
        p.shutdown();
        released("push-shutdown");
        VF_EXPECT(!result, "push-shutdown-result", "the image was accepted after the shutdown");
      }
      break;
    }
    default: {  // After the shutdown nothing blocks.
      if (r.chance(0.5)) round();
      p.shutdown();
      vf::Actor a([&] {
        Set x;
        result = p.getNextBlocking(&x) || p.getLatestAndClearBlocking(&x) || p.processImageBlockingIfFull(0, tagged(1), 77777, 5);
        out = true;
      });
      released("after-shutdown");
      VF_EXPECT(!result, "after-shutdown-result", "a call succeeded after the shutdown");
    }
  }
  vf::evaluated(vf::hashStr(vf::fmt("%d %d %d %u", kind, n, latest, tag)), true, vf::fmt("kind %d", kind));
}

// A shutdown at the very moment a thread is about to wait.
void shutdownRace(Rng& r, uint64_t) {
  const Rig rig = makeRig(r, 1, 0, 0, false);
  VisualNPipeline p(1, rig.pipes, rig.in, rig.out, 10);
  const int kind = static_cast<int>(r.below(3));
  if (kind == 2) { p.processImage(0, tagged(1), 1); p.waitForAllWorkToComplete(); }
  std::this_thread::sleep_for(std::chrono::microseconds(300));  // The workers wait already.
  std::atomic<bool> out(false);
  bool result = true;
  g_lingering = 0;
  g_linger_us = 3000;
  vf::Actor a([&] {
    Set s;
    switch (kind) {
      case 0: result = p.getNextBlocking(&s); break;
      case 1: result = p.getLatestAndClearBlocking(&s); break;
      default: result = p.processImageBlockingIfFull(0, tagged(2), 2, 1);
    }
    out = true;
  });
#ifndef __SANITIZE_THREAD__
  while (!g_lingering && !out) std::this_thread::yield();
#else
  for (uint64_t i = r.below(300); i; --i) std::this_thread::yield();
#endif
  p.shutdown();
  g_linger_us = 0;
  vf::awaitOrStall([&] { return out.load(); }, [] { return 0ull; }, vf::fmt("shutdown-race-%d", kind), [&] { return std::string("a call that was about to wait is not released by the shutdown"); });
  VF_EXPECT(!result, "shutdown-race-result", "the call succeeded after the shutdown");
  vf::evaluated(vf::hashStr(vf::fmt("%d", kind)), true, vf::fmt("kind %d", kind));
}

// Destruction with work outstanding.
void destroy(Rng& r, uint64_t) {
  const int n = 1 + static_cast<int>(r.below(3));
  const Rig rig = makeRig(r, n, 0, 20, r.chance(0.5));
  std::vector<Set> kept;
  {
    VisualNPipeline p(1 + r.below(4), rig.pipes, rig.in, rig.out, 10);
    uint32_t tag = 0;
    for (int k = 0, rounds = 1 + static_cast<int>(r.below(20)); k < rounds; ++k)
      for (int c = 0; c < n; ++c) {
        p.processImage(c, tagged(++tag), 1000 * k);
        if (r.chance(0.1)) if (Set s = p.getNext()) kept.push_back(s);
      }
    if (r.chance(0.3)) p.shutdown();
  }
  for (const Set& s : kept) VF_EXPECT(s->areAllFramesSet() && s->getFrame(0).getRawImage().rows == kH, "outlives", "a set did not survive the pipeline");
  vf::evaluated(vf::mix(kept.size() * 8 + n), true, vf::fmt("%zu kept", kept.size()));
}

// ---------------------------------------------------------------- single images
struct Negative : Undistorter {
  Negative(Camera::Ptr a, Camera::Ptr b) : Undistorter(a, b) {}
  void processImage(const cv::Mat& in, cv::Mat* out) const override { *out = 255 - in; }
};
class Watch : public VisualPipeline {
 public:
  Watch(const Camera::ConstPtr& in, const Camera::ConstPtr& out, bool copy) : VisualPipeline(in, out, copy) {}
  Watch(std::unique_ptr<Undistorter>& u, bool copy) : VisualPipeline(u, copy) {}
  mutable cv::Mat seen;
  mutable VisualFrame* frame = nullptr;
 protected:
  void processFrameImpl(const cv::Mat& image, VisualFrame* f) const override { seen = image; frame = f; }
};
void single(Rng& r, uint64_t) {
  NCamera::Ptr rig = someRig(2);
  Camera::Ptr in = rig->getCameraShared(0), out = rig->getCameraShared(1);
  const bool copy = r.chance(0.5), undistort = r.chance(0.5);
  std::unique_ptr<Undistorter> u(new Negative(in, out));
  std::unique_ptr<Watch> w(undistort ? new Watch(u, copy) : new Watch(in, out, copy));
  VF_EXPECT(&w->getInputCamera() == in.get() && &w->getOutputCamera() == out.get() && w->getInputCameraShared() == in && w->getOutputCameraShared() == out, "single-cameras", "the pipeline reports other cameras");
  cv::Mat big(kH + 4, kW + 5, CV_8UC1, cv::Scalar(200));
  cv::Mat image = r.chance(0.5) ? tagged(static_cast<uint32_t>(r.next())) : big(cv::Rect(2, 1, kW, kH));
  const cv::Mat original = image.clone();
  const int64_t t = r.chance(0.5) ? static_cast<int64_t>(r.next() >> 2) : static_cast<int64_t>(r.below(100));
  VisualFrame::Ptr f = w->processImage(image, t), g = w->processImage(image, t);
  VF_EXPECT(f && f->getTimestampNanoseconds() == t && f->getCameraGeometry() == out && f->getRawCameraGeometry() == in, "single-frame", "frame of time %ld for an image of %ld", static_cast<long>(f->getTimestampNanoseconds()), static_cast<long>(t));
  VF_EXPECT(f->getId().isValid() && f->getId() != g->getId() && f != g, "single-id", "two frames share an id");
  VF_EXPECT(sameImage(f->getRawImage(), original), "single-image", "the frame holds another image");
  VF_EXPECT(sameImage(w->seen, undistort ? cv::Mat(255 - original) : original) && w->frame == g.get(), "single-processed", "the image was %spreprocessed", undistort ? "not " : "");
  image.at<unsigned char>(kH / 2, kW / 2) ^= 0x55;
  VF_EXPECT(sameImage(f->getRawImage(), copy ? original : image), "single-copy", "the frame's image is %s", copy ? "shared" : "copied");
  // Refusals.
  cv::Mat wrong(kH + static_cast<int>(r.below(2)), kW + 1, CV_8UC1);
  if (r.chance(0.5)) wrong = wrong.colRange(0, kW - (wrong.rows == kH));
  VF_EXPECT(vf::guarded([&] { w->processImage(wrong, 1); }) == vf::kFatal, "single-size", "an image of %d x %d was accepted", wrong.cols, wrong.rows);
  VF_EXPECT(vf::guarded([&] { new NullVisualPipeline(nullptr, copy); }) == vf::kFatal, "single-null", "a pipeline without a camera");
  std::unique_ptr<Undistorter> none;
  VF_EXPECT(vf::guarded([&] { new Watch(none, copy); }) == vf::kFatal, "single-null", "a pipeline without an undistorter");
  vf::evaluated(vf::hashBytes(original.data, 4, t), true, vf::fmt("copy %d, undistort %d", copy, undistort));
}

void refusals(Rng& r, uint64_t i) {
  const int n = 1 + static_cast<int>(r.below(3));
  Rig g = makeRig(r, n, 0, 0, false);
  const int kind = static_cast<int>(i % 8);
  size_t threads = 1;
  int64_t tol = 10;
  switch (kind) {
    case 0: threads = 0; break;
    case 1: tol = -1; break;
    case 2: g.pipes.pop_back(); break;
    case 3: g.in = nullptr; break;
    case 4: g.out = nullptr; break;
    case 5: g.in = someRig(n); break;
    case 6: g.out = someRig(n + r.below(2)); break;
    default: g.pipes[r.below(n)] = nullptr;
  }
  VF_EXPECT(vf::guarded([&] { new VisualNPipeline(threads, g.pipes, g.in, g.out, tol); }) == vf::kFatal, vf::fmt("constructed-%d", kind), "a pipeline of kind %d was constructed", kind);
  VisualNPipeline::Ptr test = VisualNPipeline::createTestVisualNPipeline(n, 2, 5);
  VF_EXPECT(test && static_cast<int>(test->getInputNCameras()->numCameras()) == n && test->getInputNCameras() == test->getOutputNCameras(), "test-pipeline", "the test pipeline has other cameras");
  VF_EXPECT(test->getNext() == nullptr && test->getLatestAndClear() == nullptr && test->getNumFramesComplete() == 0 && test->getNumFramesProcessing() == 0, "test-pipeline", "a new pipeline is not empty");
  vf::evaluated(kind, true, vf::fmt("kind %d", kind));
}

// An image of a camera there is not, in a process of its own.
void outOfRange(Rng& r, uint64_t i) {
  const int n = 1 + static_cast<int>(r.below(4));
  const size_t index = i % 2 ? n : n + r.below(1000);
  const pid_t child = fork();
  if (!child) {
    google::InstallFailureFunction(+[]() { _exit(42); });
    const Rig rig = makeRig(r, n, 0, 0, false);
    VisualNPipeline p(1, rig.pipes, rig.in, rig.out, 10);
    p.processImage(index, tagged(1), 1);
    p.waitForAllWorkToComplete();
    _exit(0);
  }
  int status = 0;
  waitpid(child, &status, 0);
  VF_EXPECT(WIFEXITED(status) && WEXITSTATUS(status) == 42, "out-of-range", "an image of camera %zu of %d was not refused (status %x)", index, n, status);
  vf::evaluated(index * 8 + n, true, vf::fmt("camera %zu of %d", index, n));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
#ifndef __SANITIZE_THREAD__
  vf::part("outOfRange", vf::scale(6, 40), outOfRange);
#endif
  vf::part("sequential", vf::scale(1500, 60000), sequential);
  vf::part("concurrent", vf::scale(250, 8000), concurrent);
  vf::part("liveness", vf::scale(300, 6000), liveness);
  vf::part("blocking", vf::scale(100, 1500), blocking);
  vf::part("shutdownRace", vf::scale(60, 1000), shutdownRace);
  vf::part("destroy", vf::scale(150, 4000), destroy);
  vf::part("single", vf::scale(400, 8000), single);
  vf::part("refusals", vf::scale(32, 80), refusals);
  return vf::finish();
}
