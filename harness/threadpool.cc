// C01: exactly-once execution and result delivery.  C02: ordering within
// exclusivity groups.  C03: progress, draining, waiting, stopping.
#include "vf.h"
#include <aslam/common/thread-pool.h>
#include <algorithm>
#include <memory>
#include <numeric>

using aslam::ThreadPool;
using vf::Rng;

namespace {
constexpr size_t kFree = ThreadPool::kGroupdIdNonExclusiveTask;

// Ends the process with a recorded violation when `done` never becomes true:
// only after no progress for a long time while every other thread is blocked.
template <typename Done, typename Prog>
void awaitOrStall(const Done& done, const Prog& progress, const std::string& key, const std::string& what) {
  auto last = std::chrono::steady_clock::now();
  uint64_t seen = progress();
  int spins = 0;
  while (!done()) {
    if (++spins < 2000) { std::this_thread::yield(); continue; }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
    uint64_t p = progress();
    auto now = std::chrono::steady_clock::now();
    if (p != seen) { seen = p; last = now; }
    else if (now - last > std::chrono::milliseconds(2500) && vf::allOthersIdle(1500) && progress() == seen && !done()) {
      vf::violation(key, what);
      vf::finish();
    }
  }
}

// Fails the process when f does not return although all threads sleep.
template <typename F>
void mustFinish(const F& f, const std::string& key, const std::string& what) {
  std::atomic<bool> done(false);
  std::thread t([&]() { f(); done.store(true); });
  awaitOrStall([&]() { return done.load(); }, []() { return 0ull; }, key, what);
  t.join();
}

struct Task {
  size_t group = kFree;
  int kind = 0;       // 0 value, 1 throws, 2 void, 3 string arg, 4 nested
  int spin = 0;
  int producer = 0, order = 0;
  std::atomic<int> runs{0};
  std::atomic<uint64_t> start{0}, end{0};
  uint64_t plain = 0;  // written by the task without synchronisation
  bool accepted = false;
  uint64_t enq_before = 0, enq_after = 0;
};

struct BoomError : std::runtime_error {
  explicit BoomError(const std::string& s) : std::runtime_error(s) {}
};

void burn(int n) {
  volatile int x = 0;
  for (int i = 0; i < n; ++i) x = x + i;
  if (n & 1) std::this_thread::yield();
}

// A random history: producers enqueue concurrently, tasks may enqueue tasks.
void history(Rng& rng, uint64_t index, const std::string& prop) {
  const int workers = static_cast<int>(rng.range(1, 8));
  const int producers = static_cast<int>(rng.range(1, 4));
  const int per = static_cast<int>(rng.range(1, vf::opts().tsan() ? 25 : 60));
  const int ngroups = static_cast<int>(rng.range(1, 5));
  const int ending = static_cast<int>(rng.below(5));
  const double free_ratio = rng.pick(std::vector<double>{0.0, 0.2, 0.5, 1.0});
  vf::detail(vf::fmt("workers=%d producers=%d per=%d groups=%d ending=%d free=%.1f", workers, producers, per, ngroups, ending, free_ratio));
  const int n = producers * per;
  std::vector<std::unique_ptr<Task>> tasks;
  std::vector<size_t> group_ids;
  for (int g = 0; g < ngroups; ++g)
    group_ids.push_back(rng.chance(0.3) ? rng.next() % (kFree - 1) : static_cast<size_t>(g));
  for (int i = 0; i < n; ++i) {
    tasks.emplace_back(new Task);
    Task& t = *tasks.back();
    t.group = rng.chance(free_ratio) ? kFree : rng.pick(group_ids);
    t.kind = static_cast<int>(rng.below(5));
    t.spin = rng.chance(0.1) ? static_cast<int>(rng.below(20000)) : static_cast<int>(rng.below(300));
    t.producer = i / per;
    t.order = i % per;
  }
  // Unsynchronised per-group state: the pool must order its accesses.
  std::map<size_t, uint64_t> group_plain;
  for (size_t g : group_ids) group_plain[g] = 0;
  std::atomic<uint64_t> clock{1};
  std::atomic<uint64_t> finished{0};
  std::vector<std::future<uint64_t>> fut(n);
  std::vector<std::future<void>> fvoid(n);
  std::vector<std::future<std::string>> fstr(n);
  std::atomic<int> nested_runs{0}, nested_enq{0};
  std::atomic<int> concurrent{0}, max_concurrent{0};
  std::unique_ptr<ThreadPool> pool(new ThreadPool(workers));
  ThreadPool* pp = pool.get();
  const auto rel = std::memory_order_relaxed;

  auto body = [&](Task* t) {
    int c = concurrent.fetch_add(1, rel) + 1;
    int m = max_concurrent.load(rel);
    while (c > m && !max_concurrent.compare_exchange_weak(m, c, rel)) {}
    t->start.store(clock.fetch_add(1, rel), rel);
    t->runs.fetch_add(1, rel);
    uint64_t* gp = t->group == kFree ? nullptr : &group_plain.find(t->group)->second;
    uint64_t before = gp ? *gp : 0;
    burn(t->spin);
    t->plain = vf::mix(t->producer * 1000 + t->order);
    if (gp) *gp = before + 1;
    if (t->kind == 4) {
      // Refused (an invalid future) once the pool is being stopped.
      if (pp->enqueue([&nested_runs, &finished, rel]() { nested_runs.fetch_add(1, rel); finished.fetch_add(1, rel); }).valid())
        nested_enq.fetch_add(1, rel);
    }
    t->end.store(clock.fetch_add(1, rel), rel);
    concurrent.fetch_sub(1, rel);
    finished.fetch_add(1, rel);
  };
  std::vector<std::thread> th;
  for (int p = 0; p < producers; ++p) {
    th.emplace_back([&, p]() {
      for (int k = 0; k < per; ++k) {
        const int i = p * per + k;
        Task* t = tasks[i].get();
        t->enq_before = clock.fetch_add(1, rel);
        bool valid = false;
        const uint64_t want = vf::mix(i);
        switch (t->kind) {
          case 0: case 4: {
            auto f = [&body, t](uint64_t v, uint64_t w) { body(t); return v ^ w; };
            fut[i] = t->group == kFree ? pp->enqueue(f, want, uint64_t(0x55)) : pp->enqueueOrdered(t->group, f, want, uint64_t(0x55));
            valid = fut[i].valid();
            break;
          }
          case 1: {
            auto f = [&body, t, i]() -> uint64_t { body(t); throw BoomError("task " + std::to_string(i)); };
            fut[i] = t->group == kFree ? pp->enqueue(f) : pp->enqueueOrdered(t->group, f);
            valid = fut[i].valid();
            break;
          }
          case 2: {
            fvoid[i] = t->group == kFree ? pp->enqueue([&body, t]() { body(t); }) : pp->enqueueOrdered(t->group, [&body, t]() { body(t); });
            valid = fvoid[i].valid();
            break;
          }
          case 3: {
            std::string s = "arg" + std::to_string(i);
            auto f = [&body, t](const std::string& a) { body(t); return a + "!"; };
            fstr[i] = t->group == kFree ? pp->enqueue(f, s) : pp->enqueueOrdered(t->group, f, s);
            s = "overwritten";
            valid = fstr[i].valid();
            break;
          }
        }
        t->accepted = valid;
        t->enq_after = clock.fetch_add(1, rel);
        if ((k & 7) == 3) std::this_thread::yield();
      }
    });
  }
  for (auto& t : th) t.join();

  const bool c01 = prop == "C01", c02 = prop == "C02", c03 = prop == "C03";
  const std::string desc = vf::fmt("%d workers, %d producers, %d tasks, %d groups, ending %d", workers, producers, n, ngroups, ending);
  auto progress = [&]() { return finished.load(rel); };
  const std::string stall_key = prop + ":stall";
  std::atomic<bool> over{false};
  std::thread watch([&]() {
    awaitOrStall([&]() { return over.load(); }, progress, stall_key,
                 "accepted tasks are never run: every thread of the pool sleeps (" + desc + ")");
  });
  if (ending == 0) {          // wait for the queue, then inspect
    pool->waitForEmptyQueue();
    if (c03) {
      VF_EXPECT(pool->numQueuedTasks() == 0u, "queued-count", "numQueuedTasks() = %zu after waitForEmptyQueue", pool->numQueuedTasks());
      for (auto& t : tasks)
        VF_EXPECT(t->end.load(rel) != 0, "wait-returned-early", "waitForEmptyQueue() returned before task %d/%d finished (%s)", t->producer, t->order, desc.c_str());
      VF_EXPECT(nested_runs.load(rel) == nested_enq.load(rel), "wait-returned-early", "nested tasks outstanding after waitForEmptyQueue (%s)", desc.c_str());
      VF_EXPECT(pool->numActiveThreads() == 0u, "active-after-wait", "numActiveThreads() = %zu after waitForEmptyQueue", pool->numActiveThreads());
    }
    for (auto& t : tasks) if (t->plain != vf::mix(t->producer * 1000 + t->order) && c03) vf::violation("wait-visibility", "a task's effect is not visible after waitForEmptyQueue");
  } else if (ending == 1) {   // stop, then destroy
    pool->stop();
    if (c03) {
      std::atomic<int> late{0};
      auto f = pool->enqueue([&late]() { late.fetch_add(1); });
      VF_EXPECT(!f.valid(), "accepted-after-stop", "enqueue after stop() returned a valid future");
      auto g = pool->enqueueOrdered(3, [&late]() { late.fetch_add(1); });
      VF_EXPECT(!g.valid(), "accepted-after-stop", "enqueueOrdered after stop() returned a valid future");
      pool->waitForEmptyQueue();
      pool.reset();
      VF_EXPECT(late.load() == 0, "ran-after-stop", "a task enqueued after stop() ran");
    }
  } else if (ending == 2) {   // futures first
    for (int i = 0; i < n; ++i) {
      if (fut[i].valid()) fut[i].wait();
      if (fvoid[i].valid()) fvoid[i].wait();
      if (fstr[i].valid()) fstr[i].wait();
    }
  } else if (ending == 3) {   // several concurrent waiters
    std::thread a([&]() { pp->waitForEmptyQueue(); });
    std::thread b([&]() { pp->waitForEmptyQueue(); });
    a.join(); b.join();
    if (c03) for (auto& t : tasks) VF_EXPECT(t->end.load(rel) != 0, "wait-returned-early", "waitForEmptyQueue() of one of two waiters returned early (%s)", desc.c_str());
  }
  pool.reset();
  over = true;
  watch.join();

  // Offline checking of the recorded history.
  uint64_t h = vf::hashStr(desc);
  for (int i = 0; i < n; ++i) {
    Task& t = *tasks[i];
    h = vf::mix(h ^ (t.start.load() * 31 + t.end.load()));
    if (c01) {
      VF_EXPECT(t.accepted, "not-accepted", "enqueue on a running pool returned an invalid future (%s)", desc.c_str());
      VF_EXPECT(t.runs.load() == 1, "run-count", "task %d ran %d times (%s)", i, t.runs.load(), desc.c_str());
      if (t.runs.load() != 1) continue;
      VF_EXPECT(t.start.load() > t.enq_before, "ran-before-enqueue", "task %d", i);
      std::string key = "result";
      switch (t.kind) {
        case 0: case 4: {
          uint64_t v = fut[i].get();
          VF_EXPECT(v == (vf::mix(i) ^ 0x55), "result", "future of task %d delivered a wrong value", i);
          VF_EXPECT(t.plain == vf::mix(t.producer * 1000 + t.order), "result-visibility", "task effect not visible after get()");
          break;
        }
        case 1: {
          bool got = false;
          try { fut[i].get(); } catch (const BoomError& e) { got = e.what() == "task " + std::to_string(i); } catch (...) {}
          VF_EXPECT(got, "exception", "the exception of task %d did not arrive through its future", i);
          break;
        }
        case 2: fvoid[i].get(); break;
        case 3: VF_EXPECT(fstr[i].get() == "arg" + std::to_string(i) + "!", "result", "string result of task %d is wrong", i); break;
      }
    }
    if (c03) VF_EXPECT(t.end.load() != 0, "not-drained", "task %d had not finished when the pool was destroyed (%s)", i, desc.c_str());
  }
  if (c01) VF_EXPECT(nested_runs.load() == nested_enq.load(), "nested-run-count",
                     "%d nested tasks accepted, %d ran (%s)", nested_enq.load(), nested_runs.load(), desc.c_str());
  if (c01) VF_EXPECT(max_concurrent.load() <= workers, "too-many-concurrent", "%d tasks at once on %d workers", max_concurrent.load(), workers);
  if (c02) {
    std::map<size_t, std::vector<Task*>> by_group;
    for (auto& t : tasks) if (t->group != kFree) by_group[t->group].push_back(t.get());
    for (auto& g : by_group) {
      std::vector<Task*> v = g.second;
      std::sort(v.begin(), v.end(), [](Task* a, Task* b) { return a->start.load() < b->start.load(); });
      for (size_t k = 0; k + 1 < v.size(); ++k) {
        VF_EXPECT(v[k]->end.load() < v[k + 1]->start.load(), "group-overlap", "tasks %d/%d and %d/%d of group %zu overlapped (%s)",
                  v[k]->producer, v[k]->order, v[k + 1]->producer, v[k + 1]->order, g.first, desc.c_str());
      }
      // Real-time order of enqueueing implies order of execution.
      uint64_t max_before = 0;
      for (size_t k = v.size(); k-- > 0;) {
        // v[k] runs before all later ones; none of those may have been
        // enqueued entirely before v[k].
        if (k + 1 < v.size()) {
          uint64_t min_after = ~0ull;
          for (size_t j = k + 1; j < v.size(); ++j) min_after = std::min(min_after, v[j]->enq_after);
          VF_EXPECT(!(min_after < v[k]->enq_before), "group-order", "a task of group %zu ran before one enqueued earlier (%s)", g.first, desc.c_str());
          if (min_after < v[k]->enq_before) break;
        }
        (void)max_before;
      }
      VF_EXPECT(group_plain[g.first] == v.size(), "group-lost-update", "unsynchronised updates of group %zu were lost (%s)", g.first, desc.c_str());
    }
    if (workers == 1) {  // a single worker starts everything in enqueue order
      std::vector<Task*> v;
      for (auto& t : tasks) v.push_back(t.get());
      std::sort(v.begin(), v.end(), [](Task* a, Task* b) { return a->start.load() < b->start.load(); });
      for (size_t k = 0; k + 1 < v.size(); ++k)
        if (v[k]->producer == v[k + 1]->producer)
          VF_EXPECT(v[k]->order < v[k + 1]->order, "single-worker-order", "one worker started tasks of a producer out of order (%s)", desc.c_str());
    }
  }
  vf::count("tasks", n);
  vf::maxOf("concurrent tasks", max_concurrent.load());
  vf::evaluated(h, max_concurrent.load() > 1 || workers == 1, index < 3 ? desc : "");
}

// Deterministic scheduling points: gates that tasks wait on.
struct Gate {
  std::mutex m; std::condition_variable c; int arrived = 0; bool open = false;
  void arrive() { std::lock_guard<std::mutex> l(m); ++arrived; c.notify_all(); }
  void wait() { std::unique_lock<std::mutex> l(m); c.wait(l, [&]() { return open; }); }
  void release() { std::lock_guard<std::mutex> l(m); open = true; c.notify_all(); }
  int count() { std::lock_guard<std::mutex> l(m); return arrived; }
};

// k independent tasks must run at once on k workers, whatever is queued ahead.
void rendezvous(Rng& rng, uint64_t index) {
  const int workers = static_cast<int>(rng.range(2, 8));
  const int blocked = static_cast<int>(rng.range(0, 5));
  const bool waiter = rng.chance(0.5);
  const bool all_groups = rng.chance(0.5);
  vf::detail(vf::fmt("workers=%d blocked=%d waiter=%d groups=%d", workers, blocked, waiter, all_groups));
  Gate gate;
  auto pool = std::make_shared<ThreadPool>(workers);
  std::atomic<int> follow{0};
  // One task of group 1000 runs and blocks; `blocked` more of it queue behind.
  pool->enqueueOrdered(1000, [&]() { gate.arrive(); gate.wait(); });
  for (int i = 0; i < blocked; ++i) pool->enqueueOrdered(1000, [&]() { follow.fetch_add(1); });
  std::thread wt;
  std::atomic<bool> waited{false};
  if (waiter) {
    wt = std::thread([&]() { pool->waitForEmptyQueue(); waited = true; });
    if (rng.chance(0.7)) std::this_thread::sleep_for(std::chrono::milliseconds(2));
  }
  for (int i = 1; i < workers; ++i) {
    auto f = [&]() { gate.arrive(); gate.wait(); };
    if (all_groups) pool->enqueueOrdered(i, f); else pool->enqueue(f);
    if (rng.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(300));
  }
  awaitOrStall([&]() { return gate.count() == workers; }, [&]() { return static_cast<uint64_t>(gate.count()); }, "idle-worker",
               vf::fmt("only %d of %d independent tasks were started on %d workers: a worker sleeps although an eligible task is queued (waiter=%d, %d tasks queued behind a busy group)",
                       gate.count(), workers, workers, waiter, blocked));
  VF_EXPECT(!waited.load(), "wait-returned-early", "waitForEmptyQueue returned while tasks were running");
  VF_EXPECT(pool->numActiveThreads() == static_cast<size_t>(workers), "active-count", "numActiveThreads()=%zu with %d tasks running", pool->numActiveThreads(), workers);
  VF_EXPECT(follow.load() == 0, "group-overlap", "a task of a busy group started");
  VF_EXPECT(pool->numQueuedTasks() == static_cast<size_t>(blocked), "queued-count", "numQueuedTasks()=%zu with %d tasks queued behind a busy group", pool->numQueuedTasks(), blocked);
  gate.release();
  if (waiter) wt.join();
  else mustFinish([&]() { pool->waitForEmptyQueue(); }, "wait-stall", "waitForEmptyQueue never returns");
  VF_EXPECT(follow.load() == blocked, "wait-returned-early", "%d of %d group tasks done after waitForEmptyQueue", follow.load(), blocked);
  VF_EXPECT(pool->numActiveThreads() == 0u, "active-count", "numActiveThreads()=%zu on an idle pool", pool->numActiveThreads());
  mustFinish([&]() { pool.reset(); }, "destructor-stall", "destruction never returns");
  vf::evaluated(vf::mix(workers * 100 + blocked * 10 + waiter * 2 + all_groups), true, index < 2 ? vf::fmt("rendezvous of %d tasks, %d queued behind a busy group, waiter=%d", workers, blocked, waiter) : "");
}

// A task that waits for a task it enqueues itself, with a waiter present: any
// wake-up delivered to the wrong thread ends in a deadlock.
void nestedWait(Rng& rng, uint64_t index) {
  const int workers = static_cast<int>(rng.range(2, 6));
  const int waiters = static_cast<int>(rng.range(1, 4));
  const int rounds = 10;
  vf::detail(vf::fmt("workers=%d waiters=%d", workers, waiters));
  std::shared_ptr<ThreadPool> pool(new ThreadPool(workers));
  std::atomic<uint64_t> steps{0};
  std::atomic<bool> done{false};
  auto outer = pool->enqueue([&]() {
    for (int r = 0; r < rounds; ++r) {
      std::this_thread::sleep_for(std::chrono::microseconds(200));  // let waiters block
      pool->enqueue([&]() { steps.fetch_add(1); }).wait();
      steps.fetch_add(1);
    }
    done = true;
  });
  std::vector<std::thread> w;
  for (int i = 0; i < waiters; ++i) w.emplace_back([&]() { pool->waitForEmptyQueue(); VF_EXPECT(done.load(), "wait-returned-early", "waiter returned early"); });
  awaitOrStall([&]() { return done.load(); }, [&]() { return steps.load(); }, "lost-wakeup",
               vf::fmt("an enqueued task is not run although %d of %d workers sleep, while %d threads wait for the queue to empty", workers - 1, workers, waiters));
  for (auto& t : w) t.join();
  outer.wait();
  vf::evaluated(vf::mix(index), true, index < 1 ? vf::fmt("nested enqueue+wait on %d workers with %d queue waiters", workers, waiters) : "");
}

// stop() while everything is busy; accepted tasks still finish.
void stopBusy(Rng& rng, uint64_t index) {
  const int workers = static_cast<int>(rng.range(1, 4));
  const int n = static_cast<int>(rng.range(1, 30));
  const bool grouped = rng.chance(0.5);
  const int mode = static_cast<int>(rng.below(3));
  vf::detail(vf::fmt("workers=%d n=%d grouped=%d mode=%d", workers, n, grouped, mode));
  std::atomic<int> ran{0};
  std::vector<std::future<int>> f;
  {
    std::shared_ptr<ThreadPool> pool(new ThreadPool(workers));
    if (mode == 2) {  // idle workers first
      pool->waitForEmptyQueue();
      std::this_thread::sleep_for(std::chrono::microseconds(rng.below(500)));
    }
    for (int i = 0; i < n; ++i) {
      auto task = [&ran, i]() { std::this_thread::sleep_for(std::chrono::microseconds(50)); ran.fetch_add(1); return i; };
      f.push_back(grouped ? pool->enqueueOrdered(i % 3, task) : pool->enqueue(task));
    }
    std::thread stopper;
    if (mode == 0) stopper = std::thread([&]() { pool->stop(); });
    if (mode == 1) {
      pool->stop();
      VF_EXPECT(!pool->enqueue([]() {}).valid(), "accepted-after-stop", "enqueue accepted after stop()");
      mustFinish([&]() { pool->waitForEmptyQueue(); }, "wait-stall", "waitForEmptyQueue never returns on a stopped pool with accepted tasks");
      VF_EXPECT(ran.load() == n, "dropped-by-stop", "%d of %d accepted tasks ran on a stopped pool", ran.load(), n);
    }
    if (stopper.joinable()) stopper.join();
    mustFinish([&]() { pool.reset(); }, "destructor-stall", "destruction never returns");
  }
  VF_EXPECT(ran.load() == n, "not-drained", "%d of %d accepted tasks ran before destruction returned", ran.load(), n);
  for (int i = 0; i < n; ++i) {
    bool ready = f[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready;
    VF_EXPECT(ready, "broken-promise", "future not ready after destruction");
    if (ready) {
      std::string ex;
      vf::Outcome o = vf::guarded([&]() { VF_EXPECT(f[i].get() == i, "result", "wrong value"); }, &ex);
      VF_EXPECT(o == vf::kOk, "broken-promise", "future of an accepted task: %s", ex.c_str());
    }
  }
  vf::evaluated(vf::mix(workers * 1000 + n * 10 + grouped + mode * 7777), true, index < 1 ? vf::fmt("stop/destroy a busy pool: %d workers, %d tasks", workers, n) : "");
}

// Captured state is copied in and released.
void lifetime(Rng& rng, uint64_t) {
  const int workers = static_cast<int>(rng.range(1, 4));
  auto token = std::make_shared<std::string>("payload that is long enough to live on the heap");
  std::atomic<int> bad{0};
  {
    ThreadPool pool(workers);
    for (int i = 0; i < 20; ++i) {
      std::string local = "local string number " + std::to_string(i) + " with heap storage";
      auto f = [token, &bad](const std::string& s, int k) {
        if (s != "local string number " + std::to_string(k) + " with heap storage" || *token != "payload that is long enough to live on the heap") bad.fetch_add(1);
      };
      if (i % 2) pool.enqueue(f, local, i); else pool.enqueueOrdered(i % 3, f, local, i);
    }
  }
  VF_EXPECT(bad.load() == 0, "argument", "%d tasks saw wrong arguments", bad.load());
  VF_EXPECT(token.use_count() == 1, "task-leak", "%ld references to a captured object after destruction", token.use_count());
  vf::evaluated(vf::mix(workers), true);
}

}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  const std::string prop = vf::opts().property;
  const bool tsan = vf::opts().tsan();
  auto n = [&](uint64_t q, uint64_t t) { return vf::scale(tsan ? q / 3 : q, tsan ? t / 3 : t); };
  vf::part("history", n(450, 30000), [&](Rng& r, uint64_t i) { history(r, i, prop); });
  if (prop == "C01") vf::part("lifetime", n(60, 1000), lifetime);
  if (prop == "C01") vf::part("stop", n(60, 2000), stopBusy);
  if (prop == "C02") vf::part("rendezvous", n(60, 2000), rendezvous);
  if (prop == "C03") {
    vf::part("rendezvous", n(150, 5000), rendezvous);
    vf::part("nested-wait", n(90, 3000), nestedWait);
    vf::part("stop", n(150, 5000), stopBusy);
  }
  return vf::finish();
}
