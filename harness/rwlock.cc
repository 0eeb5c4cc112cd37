// C04: exclusion.  C05: upgrades, preference, in-use report, progress.
#include "vf.h"
#include "vf_sched.h"
#include <aslam/common/reader-writer-lock.h>
#include <aslam/common/reader-first-reader-writer-lock.h>
#include <memory>

using namespace aslam;
using vf::Rng;
using vf::Actor;

namespace {
const auto rel = std::memory_order_relaxed;
std::unique_ptr<ReaderWriterMutex> make(bool reader_first) {
  if (reader_first) return std::unique_ptr<ReaderWriterMutex>(new ReaderFirstReaderWriterMutex);
  return std::unique_ptr<ReaderWriterMutex>(new ReaderWriterMutex);
}
const char* nameOf(bool rf) { return rf ? "reader-first" : "default"; }

struct Shared {
  std::atomic<int> readers{0}, writers{0};
  std::atomic<int> max_readers{0};
  std::atomic<uint64_t> ops{0}, upgrades{0}, failed{0}, writes{0};
  uint64_t data[4] = {0, 0, 0, 0};  // deliberately unsynchronised
};

void pause(Rng& r) {
  uint64_t k = r.below(40);
  if (k == 0) std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
  else if (k < 8) std::this_thread::yield();
  else for (volatile int i = 0; i < static_cast<int>(k); i = i + 1) {}
}

// What a holder observes while inside.
void asReader(Shared* s, Rng& r, const char* kind, bool c05, ReaderWriterMutex* m) {
  int n = s->readers.fetch_add(1, rel) + 1;
  int mx = s->max_readers.load(rel);
  while (n > mx && !s->max_readers.compare_exchange_weak(mx, n, rel)) {}
  VF_EXPECT(s->writers.load(rel) == 0, std::string("reader-with-writer:") + kind, "a reader entered while a writer holds the %s lock", kind);
  uint64_t a = s->data[0];
  pause(r);
  VF_EXPECT(s->data[1] == a * 3 + 1 && s->data[3] == a + 7, std::string("torn-read:") + kind, "a reader of the %s lock saw a half-written value", kind);
  VF_EXPECT(s->data[0] == a, std::string("changed-under-reader:") + kind, "data changed under a reader of the %s lock", kind);
  if (c05 && r.chance(0.2)) VF_EXPECT(m->isInUse(), std::string("in-use:") + kind, "isInUse() is false while the caller holds the %s lock for reading", kind);
  VF_EXPECT(s->writers.load(rel) == 0, std::string("reader-with-writer:") + kind, "a writer entered while a reader holds the %s lock", kind);
}
void leaveReader(Shared* s) { s->readers.fetch_sub(1, rel); }
void asWriter(Shared* s, Rng& r, const char* kind, bool c05, ReaderWriterMutex* m) {
  int w = s->writers.fetch_add(1, rel) + 1;
  VF_EXPECT(w == 1, std::string("two-writers:") + kind, "%d writers hold the %s lock", w, kind);
  VF_EXPECT(s->readers.load(rel) == 0, std::string("writer-with-reader:") + kind, "a writer holds the %s lock together with %d readers", kind, s->readers.load(rel));
  uint64_t v = s->data[0] + 1;
  s->data[0] = v;
  pause(r);
  s->data[1] = v * 3 + 1;
  s->data[3] = v + 7;
  s->writes.fetch_add(1, rel);
  if (c05 && r.chance(0.2)) VF_EXPECT(m->isInUse(), std::string("in-use:") + kind, "isInUse() is false while the caller holds the %s lock for writing", kind);
  VF_EXPECT(s->readers.load(rel) == 0 && s->writers.load(rel) == 1, std::string("writer-with-other:") + kind, "someone entered while a writer holds the %s lock", kind);
  s->writers.fetch_sub(1, rel);
}

void stress(Rng& rng, uint64_t index, bool c05) {
  const bool rf = index % 2;
  const char* kind = nameOf(rf);
  auto mutex = make(rf);
  ReaderWriterMutex* m = mutex.get();
  const int threads = static_cast<int>(rng.range(2, 10));
  const int per = vf::opts().tsan() ? 150 : 400;
  const double pr = rng.uni(0.1, 0.8), pw = rng.uni(0.05, 0.5);
  vf::detail(vf::fmt("%s lock, %d threads, p(read)=%.2f p(write)=%.2f", kind, threads, pr, pw));
  Shared s;
  s.data[1] = 1; s.data[3] = 7;
  std::vector<std::thread> th;
  std::atomic<int> left{threads};
  for (int t = 0; t < threads; ++t) {
    uint64_t seed = rng.next();
    th.emplace_back([&, seed, t]() {
      Rng r(seed);
      for (int k = 0; k < per; ++k) {
        double u = r.uni();
        if (u < pr) {
          if (r.chance(0.5)) {
            m->acquireReadLock(); asReader(&s, r, kind, c05, m); leaveReader(&s); m->releaseReadLock();
          } else {
            ScopedReadLock a(m);
            if (r.chance(0.3)) {
              ScopedReadLock b(std::move(a)); asReader(&s, r, kind, c05, m);
              ScopedReadLock c(std::move(b)); pause(r); VF_EXPECT(s.writers.load(rel) == 0, std::string("moved-guard:") + kind, "a moved read guard lost the %s lock", kind); leaveReader(&s);
            } else { asReader(&s, r, kind, c05, m); leaveReader(&s); }
          }
        } else if (u < pr + pw) {
          if (r.chance(0.5)) {
            m->acquireWriteLock(); asWriter(&s, r, kind, c05, m); m->releaseWriteLock();
          } else {
            ScopedWriteLock a(m);
            if (r.chance(0.3)) { ScopedWriteLock b(std::move(a)); asWriter(&s, r, kind, c05, m); }
            else asWriter(&s, r, kind, c05, m);
          }
        } else {
          m->acquireReadLock();
          asReader(&s, r, kind, c05, m);
          uint64_t v = s.data[0];
          leaveReader(&s);
          if (m->upgradeToWriteLock()) {
            if (c05) VF_EXPECT(s.data[0] == v, std::string("upgrade-stale:") + kind, "a write slipped between the read and the successful upgrade of the %s lock", kind);
            asWriter(&s, r, kind, c05, m);
            s.upgrades.fetch_add(1, rel);
            m->releaseWriteLock();
          } else {
            s.failed.fetch_add(1, rel);
          }
        }
        s.ops.fetch_add(1, rel);
      }
      left.fetch_sub(1);
    });
  }
  vf::awaitOrStall([&]() { return left.load() == 0; }, [&]() { return s.ops.load(rel); }, std::string("stall:") + kind,
                   [&]() { return vf::fmt("%d of %d threads never get the %s lock although nobody holds it (%d readers, %d writers inside)", left.load(), threads, kind, s.readers.load(), s.writers.load()); });
  for (auto& t : th) t.join();
  VF_EXPECT(s.data[0] == s.writes.load(), std::string("lost-update:") + kind, "%llu increments under the %s write lock, value %llu", (unsigned long long)s.writes.load(), kind, (unsigned long long)s.data[0]);
  if (c05) VF_EXPECT(!m->isInUse(), std::string("in-use-idle:") + kind, "isInUse() is true on an idle %s lock", kind);
  vf::count("operations", s.ops.load()); vf::count("upgrades", s.upgrades.load()); vf::count("failed upgrades", s.failed.load());
  vf::maxOf("concurrent readers", s.max_readers.load());
  vf::evaluated(vf::mix(s.ops.load() * 31 + s.failed.load() * 7 + s.writes.load()) ^ index, s.max_readers.load() > 1 || s.failed.load() > 0,
                index < 2 ? vf::fmt("%s lock: %d threads, %llu ops, %llu upgrades, %llu failed upgrades, up to %d readers", kind, threads, (unsigned long long)s.ops.load(), (unsigned long long)s.upgrades.load(), (unsigned long long)s.failed.load(), s.max_readers.load()) : "");
}

struct Flag {
  std::atomic<bool> v{false};
  void set() { v.store(true); }
  bool is() const { return v.load(); }
  void await() const { while (!v.load()) std::this_thread::sleep_for(std::chrono::microseconds(50)); }
};
void must(const std::function<bool()>& f, const std::string& key, const std::string& what) {
  vf::awaitOrStall(f, []() { return 0ull; }, key, [&]() { return what; });
}

// Readers share; a writer waits for all of them.
void sharing(Rng& rng, uint64_t index) {
  const bool rf = index % 2; const char* kind = nameOf(rf);
  const int n = static_cast<int>(rng.range(2, 6));
  auto mutex = make(rf); auto* m = mutex.get();
  std::atomic<int> in{0}; Flag out;
  std::vector<std::unique_ptr<Actor>> rs;
  for (int i = 0; i < n; ++i) rs.emplace_back(new Actor([&]() { ScopedReadLock l(m); in.fetch_add(1); out.await(); }));
  must([&]() { return in.load() == n; }, std::string("readers-do-not-share:") + kind, vf::fmt("%d readers cannot hold the %s lock at once", n, kind));
  Flag win;
  Actor w([&]() { ScopedWriteLock l(m); win.set(); });
  bool b = w.blocked();
  VF_EXPECT(!win.is(), std::string("writer-with-reader:") + kind, "a writer got the %s lock held by %d readers", kind, n);
  out.set();
  for (auto& r : rs) r->join();
  must([&]() { return win.is(); }, std::string("stall:") + kind, "a waiting writer is not let in after the last reader left");
  w.join();
  vf::evaluated(vf::mix(n * 2 + rf), b);
}

void preference(Rng& rng, uint64_t index) {
  const bool rf = index % 2; const char* kind = nameOf(rf);
  const int nw = static_cast<int>(rng.range(1, 3)), nr = static_cast<int>(rng.range(1, 3));
  vf::detail(vf::fmt("%s, %d writers, %d late readers", kind, nw, nr));
  auto mutex = make(rf); auto* m = mutex.get();
  m->acquireReadLock();
  std::atomic<int> order{0}, writers_done{0}, writers_in{0}, readers_in{0}; Flag leave;
  std::vector<std::unique_ptr<Actor>> as;
  bool seen_blocked = true;
  for (int i = 0; i < nw; ++i) {
    as.emplace_back(new Actor([&]() { m->acquireWriteLock(); writers_in.fetch_add(1); writers_done.fetch_add(1); m->releaseWriteLock(); }));
    seen_blocked = as.back()->blocked() && seen_blocked;
  }
  VF_EXPECT(writers_in.load() == 0, std::string("writer-with-reader:") + kind, "a writer entered beside a reader");
  std::atomic<int> min_done{1000};
  for (int i = 0; i < nr; ++i) {
    as.emplace_back(new Actor([&]() {
      m->acquireReadLock();
      int d = writers_done.load(); int e = min_done.load();
      while (d < e && !min_done.compare_exchange_weak(e, d)) {}
      readers_in.fetch_add(1);
      if (rf) leave.await();
      m->releaseReadLock();
    }));
  }
  if (rf) {
    if (seen_blocked)
      must([&]() { return readers_in.load() == nr; }, "reader-first-preference", "a waiting writer keeps new readers out of the reader-first lock");
    leave.set();
    m->releaseReadLock();
  } else {
    bool rb = true;
    for (int i = nw; i < nw + nr; ++i) rb = as[i]->blocked() && rb;
    VF_EXPECT(!seen_blocked || readers_in.load() == 0, "writer-preference", "a new reader entered the default lock although a writer is waiting");
    VF_EXPECT(m->isInUse(), std::string("in-use:") + kind, "isInUse() false while held");
    m->releaseReadLock();
  }
  must([&]() { return writers_done.load() == nw && readers_in.load() == nr; }, std::string("stall:") + kind, "requests are not granted after the holder released");
  for (auto& a : as) a->join();
  if (!rf && seen_blocked) VF_EXPECT(min_done.load() >= nw, "writer-preference", "a later reader overtook a waiting writer of the default lock (%d of %d writers done)", min_done.load(), nw);
  VF_EXPECT(!m->isInUse(), std::string("in-use-idle:") + kind, "isInUse() true on an idle lock");
  vf::evaluated(vf::mix(nw * 100 + nr * 10 + rf), seen_blocked, index < 2 ? vf::fmt("%s lock: %d waiting writers, then %d readers", kind, nw, nr) : "");
}

void upgrades(Rng& rng, uint64_t index) {
  const bool rf = index % 2; const char* kind = nameOf(rf);
  const int extra = static_cast<int>(rng.range(0, 3)), losers = static_cast<int>(rng.range(0, 3));
  const bool writer_waiting = rng.chance(0.5);
  const bool late_reader = !rf && rng.chance(0.5);
  vf::detail(vf::fmt("%s, %d plain readers, %d losing upgraders, writer waiting=%d", kind, extra, losers, writer_waiting));
  auto mutex = make(rf); auto* m = mutex.get();
  Flag leave, try_upgrade, release_up;
  std::atomic<int> in{0}, failed{0}; Flag upgraded, wrote, late_in;
  int value = 5;
  std::vector<std::unique_ptr<Actor>> plain, lose;
  for (int i = 0; i < extra; ++i) plain.emplace_back(new Actor([&]() { m->acquireReadLock(); in.fetch_add(1); leave.await(); m->releaseReadLock(); }));
  for (int i = 0; i < losers; ++i)
    lose.emplace_back(new Actor([&]() { m->acquireReadLock(); in.fetch_add(1); try_upgrade.await(); if (!m->upgradeToWriteLock()) failed.fetch_add(1); else m->releaseWriteLock(); }));
  must([&]() { return in.load() == extra + losers; }, std::string("readers-do-not-share:") + kind, "readers cannot share");
  Flag up_has_read, go_up;
  Actor up([&]() {
    m->acquireReadLock();
    up_has_read.set();
    int v = value;
    go_up.await();
    bool ok = m->upgradeToWriteLock();
    VF_EXPECT(ok, std::string("upgrade-refused:") + kind, "the only upgrade was refused");
    if (!ok) { upgraded.set(); return; }
    VF_EXPECT(value == v, std::string("upgrade-stale:") + kind, "a waiting writer wrote between read and upgrade");
    value = v + 1;
    upgraded.set();
    release_up.await();
    m->releaseWriteLock();
  });
  must([&]() { return up_has_read.is(); }, std::string("readers-do-not-share:") + kind, "readers cannot share");
  std::unique_ptr<Actor> w;
  bool wb = true;
  if (writer_waiting) {
    w.reset(new Actor([&]() { m->acquireWriteLock(); value += 100; wrote.set(); m->releaseWriteLock(); }));
    wb = w->blocked();
  }
  go_up.set();
  bool ub = extra + losers > 0 ? up.blocked() : true;
  if (extra + losers > 0) VF_EXPECT(!upgraded.is(), std::string("writer-with-reader:") + kind, "an upgrade succeeded while other readers hold the %s lock", kind);
  VF_EXPECT(!wrote.is() , std::string("writer-with-reader:") + kind, "a writer entered during a pending upgrade");
  std::unique_ptr<Actor> late;
  if (late_reader && extra > 0 && ub) {
    late.reset(new Actor([&]() { m->acquireReadLock(); late_in.set(); m->releaseReadLock(); }));
    late->blocked();
    VF_EXPECT(!late_in.is(), "upgrade-preference", "a new reader entered the default lock during a pending upgrade");
  }
  if (losers > 0 && ub) {
    try_upgrade.set();
    must([&]() { return failed.load() == losers; }, std::string("upgrade-second:") + kind, "a second upgrade does not fail at once while one is pending");
  }
  try_upgrade.set();
  leave.set();
  must([&]() { return upgraded.is(); }, std::string("upgrade-stall:") + kind, "a pending upgrade is not granted after the other readers left or failed to upgrade");
  VF_EXPECT(m->isInUse(), std::string("in-use:") + kind, "isInUse() false while held by an upgraded writer");
  VF_EXPECT(!wrote.is(), std::string("two-writers:") + kind, "a writer entered beside an upgraded writer");
  Flag rin;
  Actor r([&]() { m->acquireReadLock(); rin.set(); m->releaseReadLock(); });
  r.blocked();
  VF_EXPECT(!rin.is(), std::string("reader-with-writer:") + kind, "a reader entered beside an upgraded writer of the %s lock", kind);
  release_up.set();
  must([&]() { return rin.is() && (!writer_waiting || wrote.is()) && (!late || late_in.is()); }, std::string("stall:") + kind, "waiting requests are not granted after an upgraded writer released");
  if (!writer_waiting || wb) {}
  up.join(); r.join();
  for (auto& a : plain) a->join();
  for (auto& a : lose) a->join();
  if (w) w->join();
  if (late) late->join();
  VF_EXPECT(value == 6 + (writer_waiting ? 100 : 0), std::string("lost-update:") + kind, "value %d", value);
  VF_EXPECT(!m->isInUse(), std::string("in-use-idle:") + kind, "isInUse() true on an idle lock");
  vf::evaluated(vf::mix(extra * 1000 + losers * 100 + writer_waiting * 10 + rf), ub, index < 2 ? vf::fmt("%s lock: upgrade with %d readers, %d rival upgrades, writer waiting=%d", kind, extra, losers, writer_waiting) : "");
}

// The lock is in use from the moment a thread waits for it until it released.
void inUse(Rng& rng, uint64_t index) {
  const bool rf = index % 2; const char* kind = nameOf(rf);
  const int hold = static_cast<int>(rng.below(2)), want = hold == 0 ? 1 : static_cast<int>(rng.below(2));
  vf::detail(vf::fmt("%s, held for %s, awaited for %s", kind, hold ? "write" : "read", want ? "write" : "read"));
  auto mutex = make(rf); auto* m = mutex.get();
  VF_EXPECT(!m->isInUse(), std::string("in-use-idle:") + kind, "isInUse() true on a new lock");
  if (hold) m->acquireWriteLock(); else m->acquireReadLock();
  Flag got, leave;
  Actor a([&]() {
    if (want) m->acquireWriteLock(); else m->acquireReadLock();
    got.set(); leave.await();
    if (want) m->releaseWriteLock(); else m->releaseReadLock();
  });
  const bool b = a.blocked();
  if (b) VF_EXPECT(!got.is(), std::string("exclusion:") + kind, "a request got through");
  if (hold) m->releaseWriteLock(); else m->releaseReadLock();
  uint64_t polls = 0;
  bool ok = true;
  if (b) {
    do { ok = m->isInUse() && ok; ++polls; } while (!got.is() && polls < 20000000);
    VF_EXPECT(ok, std::string("in-use-waiting:") + kind, "isInUse() is false although a thread is waiting for the %s lock (held for %s, awaited for %s)", kind, hold ? "write" : "read", want ? "write" : "read");
  }
  must([&]() { return got.is(); }, std::string("stall:") + kind, "a waiting request is not granted after release");
  VF_EXPECT(m->isInUse(), std::string("in-use:") + kind, "isInUse() false while held");
  leave.set();
  a.join();
  VF_EXPECT(!m->isInUse(), std::string("in-use-idle:") + kind, "isInUse() true on an idle lock");
  vf::count("in-use polls during hand-over", polls);
  vf::evaluated(vf::mix(polls * 8 + hold * 4 + want * 2 + rf), b);
}

// Guards release exactly once, also when moved.
void guards(Rng& rng, uint64_t index) {
  const bool rf = index % 2; const char* kind = nameOf(rf);
  auto mutex = make(rf); auto* m = mutex.get();
  const int depth = static_cast<int>(rng.range(0, 4));
  const bool write = rng.chance(0.5);
  {
    if (write) {
      std::vector<ScopedWriteLock> v; v.reserve(8);
      v.emplace_back(m);
      for (int i = 0; i < depth; ++i) { v.emplace_back(std::move(v.back())); VF_EXPECT(m->isInUse(), std::string("moved-guard:") + kind, "moving a guard released the lock"); }
      Flag in;
      Actor a([&]() { ScopedReadLock l(m); in.set(); });
      a.blocked();
      VF_EXPECT(!in.is(), std::string("moved-guard:") + kind, "a reader entered although a moved write guard is alive");
      v.clear();
      must([&]() { return in.is(); }, std::string("stall:") + kind, "guard did not release");
    } else {
      std::vector<ScopedReadLock> v; v.reserve(8);
      v.emplace_back(m);
      for (int i = 0; i < depth; ++i) v.emplace_back(std::move(v.back()));
      Flag in;
      Actor a([&]() { ScopedWriteLock l(m); in.set(); });
      a.blocked();
      VF_EXPECT(!in.is(), std::string("moved-guard:") + kind, "a writer entered although a moved read guard is alive");
      v.clear();
      must([&]() { return in.is(); }, std::string("stall:") + kind, "guard did not release");
    }
  }
  VF_EXPECT(!m->isInUse(), std::string("moved-guard:") + kind, "the lock is still in use after all guards are gone");
  // Still usable, with a consistent reader count.
  m->acquireWriteLock(); m->releaseWriteLock(); m->acquireReadLock(); m->releaseReadLock();
  VF_EXPECT(!m->isInUse(), std::string("moved-guard:") + kind, "in use");
  vf::evaluated(vf::mix(depth * 4 + write * 2 + rf));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  const bool c05 = vf::opts().property == "C05";
  const bool tsan = vf::opts().tsan();
  auto n = [&](uint64_t q, uint64_t t) { return vf::scale(tsan ? q / 2 : q, tsan ? t / 2 : t); };
  vf::part("stress", n(240, 20000), [&](Rng& r, uint64_t i) { stress(r, i, c05); });
  vf::part("sharing", n(40, 1000), sharing);
  if (!c05) vf::part("guards", n(60, 1000), guards);
  if (!c05) vf::part("upgrades", n(60, 2000), upgrades);
  if (c05) {
    vf::part("preference", n(120, 4000), preference);
    vf::part("upgrades", n(160, 6000), upgrades);
    vf::part("in-use", n(400, 10000), inUse);
  }
  return vf::finish();
}
