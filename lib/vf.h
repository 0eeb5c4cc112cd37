// Runtime-monitoring support shared by all harnesses.
//
// A harness is a program made of named parts.  Each part runs numbered cases;
// every random choice in a case derives from (seed, part, index), so a single
// case can be re-run from a replay file.  Oracles report through
// vf::violation(); undefined behaviour reported by UBSan inside /repo code is
// turned into a violation too; crashes (ASan, abort, SIGSEGV) and races (TSan)
// end the process and are attributed by the runner to the case announced last.
#ifndef VF_H_
#define VF_H_
#include <glog/logging.h>
#include <setjmp.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

// SplitMix based generator.
class Rng {
 public:
  explicit Rng(uint64_t s = 1) : s_(s) {}
  uint64_t next() { s_ += 0x9e3779b97f4a7c15ull; return mix(s_); }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
  double uni() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * uni(); }
  bool chance(double p) { return uni() < p; }
  double gauss() {
    double u = uni(), v = uni();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
 private:
  uint64_t s_;
};

struct Options {
  std::string property = "C00", tier = "quick", out = ".", config = "none";
  uint64_t seed = 1;
  std::string only_part;   // replay / resume
  int64_t only_index = -1;
  std::string resume_part;
  int64_t resume_index = -1;
  bool thorough() const { return tier == "thorough"; }
  bool tsan() const { return config == "tsan"; }
};

struct Progress {  // memory-mapped so that it survives a crash
  char part[64];
  int64_t index;
  char detail[4000];
};

class State {
 public:
  static State& get() { static State* s = new State; return *s; }
  Options opt;
  std::mutex mu;
  uint64_t evaluations = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, double> maxima;
  std::vector<std::string> samples;
  uint64_t violations = 0;
  std::map<std::string, int> per_key;
  Progress* progress = nullptr;
  Progress fallback;
  FILE* vio = nullptr;
  std::vector<std::pair<std::string, int>> parts_done;
  bool suppress_ub = false;
};

inline std::string jsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  va_list a; va_start(a, f);
  char buf[6000];
  vsnprintf(buf, sizeof buf, f, a);
  va_end(a);
  return buf;
}

// Describes the case under way; kept in shared memory for crash attribution.
inline void detail(const std::string& d) {
  Progress* p = State::get().progress;
  strncpy(p->detail, d.c_str(), sizeof(p->detail) - 1);
  p->detail[sizeof(p->detail) - 1] = 0;
}

// An oracle saw the property broken.  `key` identifies what failed (stable
// across seeds); `what` says how.
inline void violation(const std::string& key, const std::string& what) {
  State& s = State::get();
  std::lock_guard<std::mutex> l(s.mu);
  ++s.violations;
  if (s.per_key[key]++ >= 3) return;
  if (!s.vio) return;
  fprintf(s.vio, "{\"key\":\"%s\",\"part\":\"%s\",\"index\":%lld,\"what\":\"%s\",\"detail\":\"%s\"}\n",
          jsonEscape(key).c_str(), jsonEscape(s.progress->part).c_str(),
          static_cast<long long>(s.progress->index), jsonEscape(what.substr(0, 3000)).c_str(),
          jsonEscape(std::string(s.progress->detail).substr(0, 1500)).c_str());
  fflush(s.vio);
}

inline bool expect(bool ok, const std::string& key, const std::string& what) {
  if (!ok) violation(key, what);
  return ok;
}
#define VF_EXPECT(cond, key, ...) \
  ((cond) ? true : (::vf::violation(key, ::vf::fmt(__VA_ARGS__) + " [" #cond "]"), false))

inline void count(const std::string& name, uint64_t n = 1) {
  State& s = State::get();
  std::lock_guard<std::mutex> l(s.mu);
  s.counters[name] += n;
}
inline void maxOf(const std::string& name, double v) {
  State& s = State::get();
  std::lock_guard<std::mutex> l(s.mu);
  auto it = s.maxima.find(name);
  if (it == s.maxima.end()) s.maxima[name] = v;
  else if (v > it->second) it->second = v;
}
// One evaluated case.  `h` is a hash of what was observed; pass nontrivial =
// false for cases that exercised nothing.
inline void evaluated(uint64_t h, bool nontrivial = true, const std::string& sample = "") {
  State& s = State::get();
  std::lock_guard<std::mutex> l(s.mu);
  ++s.evaluations;
  if (nontrivial && s.distinct.size() < 4000000) s.distinct.insert(h);
  if (!sample.empty() && s.samples.size() < 12) s.samples.push_back(sample.substr(0, 600));
}

inline const Options& opts() { return State::get().opt; }
inline uint64_t scale(uint64_t quick, uint64_t thorough) { return opts().thorough() ? thorough : quick; }

// Runs cases [0, n) of a part.
inline void part(const std::string& name, uint64_t n, const std::function<void(Rng&, uint64_t)>& body) {
  State& s = State::get();
  const Options& o = s.opt;
  if (!o.only_part.empty() && o.only_part != name) return;
  uint64_t first = 0;
  if (!o.resume_part.empty()) {
    static bool reached = false;
    if (!reached) {
      if (o.resume_part != name) return;
      reached = true;
      first = o.resume_index;
    }
  }
  strncpy(s.progress->part, name.c_str(), sizeof(s.progress->part) - 1);
  auto t0 = std::chrono::steady_clock::now();
  for (uint64_t i = first; i < n; ++i) {
    if (o.only_index >= 0 && static_cast<uint64_t>(o.only_index) != i) continue;
    s.progress->index = i;
    s.progress->detail[0] = 0;
    Rng rng(mix(o.seed ^ hashStr(name)) ^ mix(i * 2 + 1));
    body(rng, i);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  fprintf(stderr, "part %-36s %8llu cases %7.2fs\n", name.c_str(), static_cast<unsigned long long>(n), dt);
  count("cases:" + name, n - first);
}

// ---- CHECK / LOG(FATAL) / abort containment ------------------------------
struct FatalCtx { sigjmp_buf env; bool active; };
inline FatalCtx& fatalCtx() { static thread_local FatalCtx c = {{}, false}; return c; }
[[noreturn]] inline void onGlogFatal() {
  FatalCtx& c = fatalCtx();
  if (c.active) { c.active = false; siglongjmp(c.env, 1); }
  abort();
}
inline void onAbrt(int) {
  FatalCtx& c = fatalCtx();
  if (c.active) { c.active = false; siglongjmp(c.env, 2); }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
enum Outcome { kOk = 0, kFatal = 1, kThrew = 2, kAssert = 3 };
// Runs f; reports how it ended.  Destructors of f's frames do not run when it
// ends in kFatal (a failed CHECK) or kAssert (assert/abort).
template <typename F>
Outcome guarded(const F& f, std::string* what = nullptr) {
  FatalCtx& c = fatalCtx();
  FatalCtx saved = c;
  c.active = true;
  int r = sigsetjmp(c.env, 1);
  if (r == 0) {
    try {
      f();
    } catch (const std::exception& e) {
      c = saved;
      if (what) *what = e.what();
      return kThrew;
    } catch (...) {
      c = saved;
      return kThrew;
    }
    c = saved;
    return kOk;
  }
  c = saved;
  return r == 1 ? kFatal : kAssert;
}
inline const char* outcomeName(Outcome o) {
  static const char* n[] = {"returned", "failed a CHECK", "threw", "aborted"};
  return n[o];
}
// For calls that the property says must succeed.
template <typename F>
bool mustReturn(const std::string& key, const std::string& what, const F& f) {
  std::string ex;
  Outcome o = guarded(f, &ex);
  if (o != kOk) { violation(key, what + ": call " + outcomeName(o) + (ex.empty() ? "" : ": " + ex)); return false; }
  return true;
}

inline std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < n; ++i) { unsigned char c = static_cast<const unsigned char*>(p)[i]; o += d[c >> 4]; o += d[c & 15]; }
  return o;
}

inline bool sameBits(double a, double b) {
  return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b));
}

inline void writeResult(bool complete) {
  State& s = State::get();
  std::lock_guard<std::mutex> l(s.mu);
  FILE* f = fopen((s.opt.out + "/result.json").c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"complete\":%s,\"evaluations\":%llu,\"distinct\":%llu,\"violations\":%llu,\"counters\":{",
          complete ? "true" : "false", (unsigned long long)s.evaluations,
          (unsigned long long)s.distinct.size(), (unsigned long long)s.violations);
  bool first = true;
  for (auto& c : s.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(c.first).c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "},\"maxima\":{");
  first = true;
  for (auto& c : s.maxima) { fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", jsonEscape(c.first).c_str(), std::isfinite(c.second) ? c.second : 1e308); first = false; }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto& c : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEscape(c).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
}

inline void init(int argc, char** argv) {
  State& s = State::get();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--property") s.opt.property = v;
    else if (k == "--tier") s.opt.tier = v;
    else if (k == "--seed") s.opt.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--out") s.opt.out = v;
    else if (k == "--config") s.opt.config = v;
    else if (k == "--only-part") s.opt.only_part = v;
    else if (k == "--only-index") s.opt.only_index = atoll(v.c_str());
    else if (k == "--resume-part") s.opt.resume_part = v;
    else if (k == "--resume-index") s.opt.resume_index = atoll(v.c_str());
  }
  s.progress = &s.fallback;
  memset(&s.fallback, 0, sizeof s.fallback);
  int fd = open((s.opt.out + "/progress.bin").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) {
    void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) s.progress = static_cast<Progress*>(m);
  }
  s.vio = fopen((s.opt.out + "/violations.jsonl").c_str(), "w");
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = 3;  // only FATAL; hostile inputs provoke many messages
  google::InitGoogleLogging(argv[0]);
  google::InstallFailureFunction(reinterpret_cast<void (*)()>(&onGlogFatal));
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onAbrt;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, nullptr);
}
inline int finish() {
  writeResult(true);
  if (State::get().vio) fclose(State::get().vio);
  fflush(stdout); fflush(stderr);
  _exit(0);
}

// ---- stall detection -----------------------------------------------------
// True when every thread of this process except the caller has been blocked
// (state S/D) and has consumed no CPU for `ms` milliseconds.
inline bool allOthersIdle(int ms);

}  // namespace vf

#ifdef VF_UBSAN
// UBSan calls this for each report; only reports located in /repo count.
extern "C" void __ubsan_get_current_report_data(const char**, const char**, const char**, unsigned*, unsigned*, char**);
extern "C" __attribute__((visibility("default"))) void __ubsan_on_report(void) {
  const char *kind, *msg, *file; unsigned line, col; char* addr;
  __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
  std::string f = file ? file : "";
  if (f.find("/repo/") == std::string::npos) { vf::count("ubsan_outside_repo"); return; }
  if (vf::State::get().suppress_ub) { vf::count("ubsan_suppressed"); return; }
  vf::violation("ubsan:" + f.substr(f.rfind('/') + 1) + ":" + (kind ? kind : "?"),
                vf::fmt("undefined behaviour at %s:%u: %s", f.c_str(), line, msg ? msg : ""));
}
#endif

#include <dirent.h>
namespace vf {
inline std::map<int, std::pair<char, unsigned long long>> threadStates() {
  std::map<int, std::pair<char, unsigned long long>> out;
  DIR* d = opendir("/proc/self/task");
  if (!d) return out;
  while (dirent* e = readdir(d)) {
    int tid = atoi(e->d_name);
    if (tid <= 0) continue;
    FILE* f = fopen(fmt("/proc/self/task/%d/stat", tid).c_str(), "r");
    if (!f) continue;
    char buf[1024]; size_t n = fread(buf, 1, sizeof buf - 1, f); buf[n] = 0; fclose(f);
    char* p = strrchr(buf, ')');
    if (!p) continue;
    char st = 0; unsigned long long ut = 0, stt = 0;
    sscanf(p + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &st, &ut, &stt);
    out[tid] = {st, ut + stt};
  }
  closedir(d);
  return out;
}
inline bool allOthersIdle(int ms) {
  int self = static_cast<int>(gettid());
  auto a = threadStates();
  for (int t = 0; t < ms; t += 50) {
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    for (auto& e : threadStates()) {
      if (e.first == self) continue;
      if (e.second.first == 'R') return false;
    }
  }
  auto b = threadStates();
  for (auto& e : b) {
    if (e.first == self) continue;
    auto it = a.find(e.first);
    if (it == a.end() || it->second.second != e.second.second) return false;
  }
  return true;
}
}  // namespace vf
#endif  // VF_H_
