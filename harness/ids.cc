// C06: conversions and comparison of identifiers.  C07: generated identifiers.
#include "vf.h"
#include <aslam/common/hash-id.h>
#include <aslam/common/unique-id.h>
#include <aslam/common/id.pb.h>
#include <sys/wait.h>
#include <algorithm>
#include <array>
#include <unordered_map>
#include <unordered_set>

using vf::Rng;
using aslam::HashId;
typedef std::array<uint64_t, 2> Words;

namespace {
Words interesting(Rng& r) {
  static const uint64_t kv[] = {0ull, 1ull, 2ull, 0x0a, 0xf0, 0xffull, 0x100ull, 0x8000000000000000ull, 0x7fffffffffffffffull, ~0ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x8000000000000001ull, 0x00000000ffffffffull, 0xffffffff00000000ull};
  Words w;
  for (int i = 0; i < 2; ++i) {
    switch (r.below(4)) {
      case 0: w[i] = kv[r.below(sizeof(kv) / sizeof(kv[0]))]; break;
      case 1: w[i] = r.below(4); break;
      case 2: w[i] = 1ull << r.below(64); break;
      default: w[i] = r.next();
    }
  }
  return w;
}
std::string model(const Words& w) { return vf::hex(w.data(), 16); }

template <typename T> struct Access;

template <typename IdT>
void typedRoundTrip(const Words& w, const char* name) {
  HashId base(w.data());
  IdT id;
  VF_EXPECT(!id.isValid(), std::string("default-valid:") + name, "a default-constructed id is valid");
  id.fromHashId(base);
  const std::string m = model(w);
  VF_EXPECT(id.hexString() == m, std::string("hex:") + name, "hexString %s, words %s", id.hexString().c_str(), m.c_str());
  VF_EXPECT(id.shortHex() == m.substr(0, 4), std::string("short-hex:") + name, "shortHex %s of %s", id.shortHex().c_str(), m.c_str());
  std::string ps = id.printString();
  VF_EXPECT(ps.size() == 10 && ps.substr(0, 4) == m.substr(0, 4) && ps.substr(6) == m.substr(28) && ps.substr(4, 2) == "..", std::string("print:") + name, "printString %s of %s", ps.c_str(), m.c_str());
  std::ostringstream os; os << id;
  VF_EXPECT(os.str() == ps, std::string("print:") + name, "stream form %s of %s", os.str().c_str(), m.c_str());
  HashId back;
  id.toHashId(&back);
  VF_EXPECT(back == base, std::string("hash-id:") + name, "to/from HashId changes %s", m.c_str());
  // Protocol message, into a dirty message, and back into a dirty id.
  aslam::proto::Id p;
  p.add_uint(77); p.add_uint(78); p.add_uint(79);
  id.serialize(&p);
  VF_EXPECT(p.uint_size() == 2 && p.uint(0) == w[0] && p.uint(1) == w[1], std::string("message:") + name, "message of %s has %d words", m.c_str(), p.uint_size());
  if (p.uint_size() == 2) {
    IdT other;
    other.fromHashId(HashId::random());
    other.deserialize(p);
    VF_EXPECT(other == id && !(other != id), std::string("message:") + name, "message round trip changes %s", m.c_str());
    IdT ctor(p);
    VF_EXPECT(ctor == id, std::string("message:") + name, "construction from message changes %s", m.c_str());
    aslam::proto::Id wire;
    std::string bytes = p.SerializeAsString();
    VF_EXPECT(wire.ParseFromString(bytes) && IdT(wire) == id, std::string("message:") + name, "wire round trip changes %s", m.c_str());
    aslam::Id general(p);
    VF_EXPECT(general.correspondsTo(p), std::string("message:") + name, "correspondsTo false");
    VF_EXPECT(id == general && !(id != general), std::string("equality:") + name, "typed and general id differ");
    IdT converted = general.toIdType<IdT>();
    VF_EXPECT(converted == id, std::string("convert:") + name, "toIdType changes %s", m.c_str());
  }
  IdT parsed;
  VF_EXPECT(parsed.fromHexString(m) && parsed == id, std::string("hex:") + name, "hex round trip changes %s", m.c_str());
  VF_EXPECT(std::hash<IdT>()(parsed) == std::hash<IdT>()(id) && parsed.hashToSizeT() == id.hashToSizeT(), std::string("hash:") + name, "equal ids hash differently");
  VF_EXPECT(id.isValid() == (w[0] != 0 || w[1] != 0), std::string("valid:") + name, "validity of %s", m.c_str());
  id.setInvalid();
  VF_EXPECT(!id.isValid() && id == IdT(), std::string("invalid:") + name, "setInvalid() leaves a valid id");
}

void roundTrip(Rng& r, uint64_t i) {
  Words w = interesting(r);
  const std::string m = model(w);
  vf::detail("words " + m);
  HashId a(w.data());
  Words out = {{1, 2}};
  a.toUint64(out.data());
  VF_EXPECT(out == w, "words", "words round trip changes %s", m.c_str());
  VF_EXPECT(a.hexString() == m, "hex", "hexString %s, words %s", a.hexString().c_str(), m.c_str());
  VF_EXPECT(a.shortHex() == m.substr(0, 4), "short-hex", "%s", a.shortHex().c_str());
  std::ostringstream os; os << a;
  VF_EXPECT(os.str() == m, "print", "stream form %s", os.str().c_str());
  HashId b = HashId::random();
  std::string text = m;
  if (r.chance(0.5)) for (char& c : text) if (r.chance(0.5)) c = toupper(c);
  VF_EXPECT(b.fromHexString(text) && b == a, "hex", "fromHexString(%s) gives %s", text.c_str(), b.hexString().c_str());
  HashId c(a), d;
  d = a;
  VF_EXPECT(c == a && d == a && !(c != a), "copy", "copies differ");
  d = d;
  VF_EXPECT(d == a, "copy", "self assignment changes the id");
  VF_EXPECT(a.isValid() == (w[0] || w[1]), "valid", "validity of %s", m.c_str());
  VF_EXPECT(a.hashToSizeT() == b.hashToSizeT() && a.hashToSizeTFast() == b.hashToSizeTFast() && std::hash<HashId>()(a) == std::hash<HashId>()(b), "hash", "equal ids hash differently");
  typedRoundTrip<aslam::FrameId>(w, "FrameId");
  typedRoundTrip<aslam::NFramesId>(w, "NFramesId");
  typedRoundTrip<aslam::SensorId>(w, "SensorId");
  vf::evaluated(vf::hashStr(m), w[0] || w[1], i < 2 ? "round trips of " + m : "");
}

// The order is a strict total order consistent with equality and hashing.
void order(Rng& r, uint64_t) {
  std::vector<Words> ws;
  for (int i = 0; i < 24; ++i) {
    if (!ws.empty() && r.chance(0.4)) {
      Words w = r.pick(ws);
      if (r.chance(0.6)) w[r.below(2)] ^= 1ull << r.below(64);
      ws.push_back(w);
    } else ws.push_back(interesting(r));
  }
  uint64_t h = 0;
  std::vector<HashId> ids;
  std::vector<aslam::FrameId> fids;
  for (auto& w : ws) { ids.emplace_back(w.data()); fids.emplace_back(); fids.back().fromHashId(ids.back()); h = vf::mix(h ^ w[0] ^ vf::mix(w[1])); }
  for (size_t i = 0; i < ids.size(); ++i) for (size_t j = 0; j < ids.size(); ++j) {
    const bool eq = ws[i] == ws[j], lt = ids[i] < ids[j], gt = ids[i] > ids[j];
    VF_EXPECT((ids[i] == ids[j]) == eq && (ids[i] != ids[j]) == !eq, "equality", "%s vs %s", model(ws[i]).c_str(), model(ws[j]).c_str());
    VF_EXPECT(int(lt) + int(gt) + int(eq) == 1, "trichotomy", "%s vs %s: < %d, > %d, == %d", model(ws[i]).c_str(), model(ws[j]).c_str(), lt, gt, eq);
    VF_EXPECT(lt == (ids[j] > ids[i]), "order-mirror", "a<b and b>a disagree");
    const bool flt = fids[i] < fids[j];
    VF_EXPECT((fids[i] == fids[j]) == eq && (fids[i] != fids[j]) == !eq, "equality:typed", "%s vs %s", model(ws[i]).c_str(), model(ws[j]).c_str());
    VF_EXPECT(flt == lt, "order:typed", "typed order differs from untyped");
    if (eq) VF_EXPECT(std::hash<aslam::FrameId>()(fids[i]) == std::hash<aslam::FrameId>()(fids[j]), "hash:typed", "equal ids hash differently");
    for (size_t k = 0; k < ids.size(); ++k)
      if (lt && ids[j] < ids[k]) VF_EXPECT(ids[i] < ids[k], "transitivity", "order is not transitive");
  }
  // Containers keyed by ids behave as maps.
  std::map<Words, int> ref;
  std::map<HashId, int> om; std::unordered_map<HashId, int> um; std::unordered_map<aslam::FrameId, int> fm; std::unordered_set<aslam::Id> idset;
  for (size_t i = 0; i < ws.size(); ++i) {
    ref[ws[i]] = i; om[ids[i]] = i; um[ids[i]] = i; fm[fids[i]] = i;
    aslam::proto::Id p; fids[i].serialize(&p); idset.insert(aslam::Id(p));
  }
  VF_EXPECT(om.size() == ref.size() && um.size() == ref.size() && fm.size() == ref.size() && idset.size() == ref.size(), "containers", "containers hold %zu/%zu/%zu/%zu of %zu ids", om.size(), um.size(), fm.size(), idset.size(), ref.size());
  for (auto& e : ref) { HashId k(e.first.data()); VF_EXPECT(um.count(k) && um[k] == e.second && om.count(k) && om[k] == e.second, "containers", "lookup fails"); }
  std::unordered_map<std::pair<aslam::FrameId, aslam::FrameId>, int> pm;
  for (size_t i = 0; i + 1 < fids.size(); ++i) pm[std::make_pair(fids[i], fids[i + 1])] = i;
  for (size_t i = 0; i + 1 < fids.size(); ++i) VF_EXPECT(pm.count(std::make_pair(fids[i], fids[i + 1])) == 1, "containers", "pair lookup fails");
  vf::evaluated(h);
}

void malformed(Rng& r, uint64_t i) {
  std::string s = model(interesting(r));
  const int kind = static_cast<int>(r.below(7));
  static const char bad[] = "gGxX -+.\t\n\0zhij/:@`'\x80\xff";
  switch (kind) {
    case 0: s.resize(r.below(32)); break;
    case 1: s += std::string(1 + r.below(40), 'a'); break;
    case 2: s[r.below(32)] = bad[r.below(sizeof bad - 1)]; break;
    case 3: { size_t p = 2 * r.below(16); s[p] = r.chance(0.5) ? '-' : '+'; break; }
    case 4: { size_t p = 2 * r.below(16); s[p] = '0'; s[p + 1] = r.chance(0.5) ? 'x' : 'X'; break; }
    case 5: { size_t p = 2 * r.below(16); s[p] = ' '; break; }
    case 6: for (int k = 0; k < 8; ++k) s[r.below(32)] = static_cast<char>(r.next()); break;
  }
  bool valid = s.size() == 32;
  for (unsigned char c : s) valid = valid && ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
  vf::detail("text " + vf::hex(s.data(), s.size()));
  Words before = interesting(r);
  HashId id(before.data());
  aslam::FrameId fid;
  fid.fromHashId(id);
  bool res = false, fres = false;
  if (!vf::mustReturn("malformed-hex", "fromHexString on malformed text", [&]() { res = id.fromHexString(s); fres = fid.fromHexString(s); })) return;
  VF_EXPECT(res == valid && fres == valid, "malformed-hex", "fromHexString returned %d for %s text (kind %d)", res, valid ? "valid" : "invalid", kind);
  if (!res) VF_EXPECT(id == HashId(before.data()), "half-parsed", "a refused text changed the id");
  vf::count(valid ? "valid texts" : "refused texts");
  vf::evaluated(vf::hashStr(s) ^ 5, !valid, i < 3 ? "refused text of kind " + std::to_string(kind) : "");
}

void badMessage(Rng& r, uint64_t) {
  aslam::proto::Id p;
  int n = static_cast<int>(r.below(5));
  for (int i = 0; i < n; ++i) p.add_uint(r.next());
  aslam::FrameId id;
  vf::Outcome o = vf::guarded([&]() { id.deserialize(p); });
  VF_EXPECT((o == vf::kOk) == (n == 2), "message-size", "a message of %d words: call %s", n, vf::outcomeName(o));
  vf::evaluated(n);
}

void fromInt(Rng& r, uint64_t) {
  std::map<std::string, unsigned> seen;
  for (int i = 0; i < 200; ++i) {
    unsigned v = r.chance(0.5) ? static_cast<unsigned>(r.next()) : static_cast<unsigned>(r.below(2000));
    aslam::FrameId id;
    aslam::generateIdFromInt(v, &id);
    char want[40]; snprintf(want, sizeof want, "%032u", v);
    VF_EXPECT(id.hexString() == want, "from-int", "id of %u is %s", v, id.hexString().c_str());
    auto it = seen.find(id.hexString());
    if (it != seen.end()) VF_EXPECT(it->second == v, "from-int", "%u and %u give the same id", v, it->second);
    seen[id.hexString()] = v;
    if (v) VF_EXPECT(id.isValid(), "from-int", "id of %u is not valid", v);
  }
  vf::evaluated(r.next());
}

// Hashing spreads: ids that differ in one half only hardly ever share a hash.
void spread(Rng& r, uint64_t) {
  static const char* kNames[] = {"hashToSizeT", "hashToSizeTFast", "std::hash", "FrameId::hashToSizeT", "std::hash of FrameId"};
  int same[2][5] = {{0}};
  const int n = 300;
  for (int half = 0; half < 2; ++half) for (int k = 0; k < n; ++k) {
    uint64_t w[2] = {r.next(), r.next()}, v[2];
    if (k % 2) { w[0] = r.below(100); w[1] = r.below(100); }
    v[0] = w[0]; v[1] = w[1];
    if (k % 3) v[half] ^= 1ull << r.below(64); else v[half] = w[half] + 1 + r.below(1000);
    const HashId a(w), b(v);
    aslam::FrameId f, g;
    f.fromHashId(a); g.fromHashId(b);
    same[half][0] += a.hashToSizeT() == b.hashToSizeT();
    same[half][1] += a.hashToSizeTFast() == b.hashToSizeTFast();
    same[half][2] += std::hash<HashId>()(a) == std::hash<HashId>()(b);
    same[half][3] += f.hashToSizeT() == g.hashToSizeT();
    same[half][4] += std::hash<aslam::FrameId>()(f) == std::hash<aslam::FrameId>()(g);
    vf::evaluated(vf::mix(w[0]) ^ vf::mix(v[1] + 7));
  }
  for (int half = 0; half < 2; ++half) for (int h = 0; h < 5; ++h)
    VF_EXPECT(same[half][h] * 20 < n, std::string("spread:") + kNames[h], "%d of %d pairs of ids that differ in half %d share their hash", same[half][h], n, half);
}

// ---- C07 -------------------------------------------------------------------
void burst(Rng& r, uint64_t i) {
  const int threads = static_cast<int>(r.range(2, 16));
  const int per = vf::opts().tsan() ? 1500 : 6000;
  const int mode = static_cast<int>(i % 4);
  std::vector<std::vector<std::string>> got(threads);
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  for (int t = 0; t < threads; ++t) th.emplace_back([&, t]() {
    auto& v = got[t];
    v.reserve(per);
    ready.fetch_add(1);
    while (ready.load() < threads) {}
    for (int k = 0; k < per; ++k) {
      int m = mode == 3 ? k % 3 : mode;
      bool valid = false;
      if (m == 0) { HashId id = HashId::random(); valid = id.isValid(); v.push_back("r" + id.hexString()); }
      else if (m == 1) { aslam::FrameId id; aslam::generateId(&id); valid = id.isValid(); v.push_back("g" + id.hexString()); }
      else { aslam::SensorId id = aslam::createRandomId<aslam::SensorId>(); valid = id.isValid(); v.push_back("g" + id.hexString()); }
      if (!valid) vf::violation("generated-invalid", "a generated id is not valid");
    }
  });
  for (auto& t : th) t.join();
  static std::unordered_set<std::string>* all = new std::unordered_set<std::string>;
  uint64_t h = 0;
  for (auto& v : got) for (auto& s : v) {
    h = vf::mix(h ^ vf::hashStr(s));
    bool fresh = all->insert(s.substr(1)).second;
    VF_EXPECT(fresh, s[0] == 'r' ? "duplicate:random" : "duplicate:generated", "id %s was generated twice (%d threads)", s.c_str(), threads);
  }
  vf::count("ids generated", static_cast<uint64_t>(threads) * per);
  // The set of a type never mixes: a small sanity check of containers.
  vf::evaluated(h, true, i < 1 ? vf::fmt("%d threads generating %d ids each at once", threads, per) : "");
}

// Children forked before anything was generated start like separate programs.
void processes() {
  const int n = 24, per = 64;
  std::vector<int> fds;
  std::vector<pid_t> pids;
  for (int p = 0; p < n; ++p) {
    int fd[2];
    if (pipe(fd)) return;
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      std::string out;
      for (int k = 0; k < per; ++k) {
        out += HashId::random().hexString();
        aslam::FrameId f; aslam::generateId(&f); out += f.hexString();
      }
      ssize_t w = write(fd[1], out.data(), out.size());
      _exit(w == static_cast<ssize_t>(out.size()) ? 0 : 1);
    }
    close(fd[1]);
    fds.push_back(fd[0]);
    pids.push_back(pid);
  }
  std::unordered_set<std::string> seen;
  uint64_t total = 0;
  for (int p = 0; p < n; ++p) {
    std::string s; char buf[4096]; ssize_t k;
    while ((k = read(fds[p], buf, sizeof buf)) > 0) s.append(buf, k);
    close(fds[p]);
    waitpid(pids[p], nullptr, 0);
    for (size_t o = 0; o + 32 <= s.size(); o += 32) {
      ++total;
      VF_EXPECT(seen.insert(s.substr(o, 32)).second, (o / 32) % 2 ? "duplicate-process:generated" : "duplicate-process:random", "two processes generated the id %s", s.substr(o, 32).c_str());
    }
  }
  vf::count("ids from separate processes", total);
  vf::evaluated(total, total > 0, vf::fmt("%llu ids from %d processes", (unsigned long long)total, n));
}

void invalids(Rng& r, uint64_t) {
  HashId a; aslam::FrameId f; aslam::NFramesId n; aslam::SensorId s;
  VF_EXPECT(!a.isValid() && !f.isValid() && !n.isValid() && !s.isValid(), "default-valid", "a default-constructed id is valid");
  a.randomize(); aslam::generateId(&f); aslam::generateId(&n); aslam::generateId(&s);
  VF_EXPECT(a.isValid() && f.isValid() && n.isValid() && s.isValid(), "generated-invalid", "a generated id is not valid");
  a.setInvalid(); f.setInvalid(); n.setInvalid(); s.setInvalid();
  VF_EXPECT(!a.isValid() && !f.isValid() && !n.isValid() && !s.isValid(), "invalidated-valid", "an invalidated id is valid");
  uint64_t w[2] = {r.chance(0.5) ? 0 : 1ull << r.below(64), 1ull << r.below(64)};
  if (r.chance(0.5)) std::swap(w[0], w[1]);
  VF_EXPECT(HashId(w).isValid(), "nonzero-invalid", "id %016llx %016llx is not valid", (unsigned long long)w[0], (unsigned long long)w[1]);
  vf::evaluated(w[0] ^ vf::mix(w[1]));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  if (vf::opts().property == "C06") {
    vf::part("round-trip", vf::scale(20000, 1000000), roundTrip);
    vf::part("order", vf::scale(600, 30000), order);
    vf::part("malformed", vf::scale(20000, 1000000), malformed);
    vf::part("bad-message", vf::scale(100, 1000), badMessage);
    vf::part("spread", vf::scale(10, 1000), spread);
    vf::part("from-int", vf::scale(50, 2000), fromInt);
  } else {
    vf::part("processes", 1, [](Rng&, uint64_t) { processes(); });
    vf::part("burst", vf::scale(vf::opts().tsan() ? 8 : 16, 40), burst);
    vf::part("invalid", vf::scale(5000, 100000), invalids);
  }
  return vf::finish();
}
