// Scheduling helpers: stall detection, observing blocked threads.
#ifndef VF_SCHED_H_
#define VF_SCHED_H_
#include <condition_variable>
#include "vf.h"
namespace vf {
// Ends the process with a recorded violation when `done` never becomes true:
// only after a long time without progress while every other thread sleeps.
template <typename Done, typename Prog, typename What>
void awaitOrStall(const Done& done, const Prog& progress, const std::string& key, const What& what) {
  auto last = std::chrono::steady_clock::now();
  uint64_t seen = progress();
  int spins = 0;
  while (!done()) {
    if (++spins < 2000) { std::this_thread::yield(); continue; }
    std::this_thread::sleep_for(std::chrono::microseconds(200));
    uint64_t p = progress();
    auto now = std::chrono::steady_clock::now();
    if (p != seen) { seen = p; last = now; }
    else if (now - last > std::chrono::milliseconds(2500) && allOthersIdle(1500) && progress() == seen && !done()) {
      violation(key, what());
      finish();
    }
  }
}
// A thread whose position the test follows.
class Actor {
 public:
  template <typename F>
  explicit Actor(const F& f) : tid_(0), started_(false), done_(false) {
    t_ = std::thread([this, f]() { tid_.store(static_cast<int>(gettid())); started_.store(true); f(); done_.store(true); });
    while (!started_.load()) std::this_thread::yield();
  }
  ~Actor() { if (t_.joinable()) t_.join(); }
  bool done() const { return done_.load(); }
  // True when the thread has been sleeping, without using CPU, at n samples in
  // a row (it is blocked in what it called last).
  bool blocked() const {
    unsigned long long cpu = ~0ull;
    int same = 0;
    for (int i = 0; i < 400 && !done(); ++i) {
      auto s = threadStates();
      auto it = s.find(tid_.load());
      if (it == s.end()) return false;
      if (it->second.first == 'S' && it->second.second == cpu) { if (++same >= 4) return true; }
      else same = 0;
      cpu = it->second.second;
      std::this_thread::sleep_for(std::chrono::microseconds(700));
    }
    return false;
  }
  void join() { t_.join(); }
 private:
  std::thread t_;
  std::atomic<int> tid_;
  std::atomic<bool> started_, done_;
};
}  // namespace vf
#endif
