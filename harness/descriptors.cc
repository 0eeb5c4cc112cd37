// C14: descriptor distances and bit helpers are exact for every size and alignment.
// C15: descriptor references never leak, double free or dangle.
#include "vf.h"
#include <memory>
#include <Eigen/Core>
#include <aslam/common/descriptor-utils.h>
#include <aslam/common/feature-descriptor-ref.h>

using vf::Rng;
using namespace aslam::common;
namespace du = aslam::common::descriptor_utils;

namespace {
typedef std::vector<unsigned char> Bytes;
Bytes randomBytes(Rng& r, size_t n) {
  Bytes b(n);
  const int style = static_cast<int>(r.below(5));
  for (auto& c : b) c = style == 0 ? 0 : style == 1 ? 255 : style == 2 ? static_cast<unsigned char>(1u << r.below(8)) : static_cast<unsigned char>(r.next());
  return b;
}
int popcount(unsigned x) { int n = 0; for (; x; x >>= 1) n += x & 1; return n; }
// A heap block that ends exactly where the data ends, starting `off` bytes in.
struct Block {
  unsigned char* base; unsigned char* p;
  Block(const Bytes& b, size_t off) : base(static_cast<unsigned char*>(malloc(b.size() + off ? b.size() + off : 1))), p(base + off) { if (!b.empty()) memcpy(p, b.data(), b.size()); }
  ~Block() { free(base); }
};
size_t someSize(Rng& r) {
  if (r.chance(0.004)) return 15000 + r.below(400000);  // more bits than a short counter holds
  switch (r.below(8)) {
    case 0: return 16 * r.below(40);
    case 1: return 16 * r.below(600) + r.below(16);
    case 2: return 48;
    case 3: return 64;
    case 4: return r.below(16);
    case 5: return 496 + 16 * r.below(4) + (r.chance(0.5) ? r.below(16) : 0);  // around a full 8-bit counter
    default: return r.below(200);
  }
}

void distance(Rng& r, uint64_t) {
  const size_t n = someSize(r), oa = r.below(17), ob = r.below(17);
  Bytes a = randomBytes(r, n), b = r.chance(0.1) ? a : randomBytes(r, n);
  if (r.chance(0.1)) for (size_t i = 0; i < n; ++i) b[i] = static_cast<unsigned char>(~a[i]);
  if (n && r.chance(0.2)) { b = a; b[r.below(n)] ^= static_cast<unsigned char>(1u << r.below(8)); }
  vf::detail(vf::fmt("%zu bytes, offsets %zu %zu", n, oa, ob));
  long want = 0;
  for (size_t i = 0; i < n; ++i) want += popcount(a[i] ^ b[i]);
  Block ba(a, oa), bb(b, ob);
  Hamming h;
  long e = -1, f = -1, g = -1, s = -1, w = -1;
  if (!vf::mustReturn("hamming", "distance", [&] {
        e = Hamming::evaluate(ba.p, bb.p, static_cast<int>(n));
        f = h(bb.p, ba.p, static_cast<int>(n));
        const FeatureDescriptorConstRef ca(ba.p, n), cb(bb.p, n);
        const FeatureDescriptorRef ma(ba.p, n, false), mb(bb.p, n, false);
        g = static_cast<long>(GetNumBitsDifferent(ca, cb));
        s = static_cast<long>(GetNumBitsDifferent(ma, mb));
        w = Hamming::PopcntofXORed(ba.p, bb.p, static_cast<int>(n / 16));
      })) return;
  long words = 0;
  for (size_t i = 0; i < n / 16 * 16; ++i) words += popcount(a[i] ^ b[i]);
  VF_EXPECT(e == want && f == want, "hamming:value", "distance %ld/%ld, differing bits %ld", e, f, want);
  VF_EXPECT(g == want && s == want, "hamming:refs", "distance of references %ld/%ld, differing bits %ld", g, s, want);
  VF_EXPECT(w == words, "hamming:words", "distance of whole words %ld, differing bits %ld", w, words);
  VF_EXPECT(memcmp(ba.p, a.data(), n) == 0 && memcmp(bb.p, b.data(), n) == 0, "hamming:write", "the descriptors were changed");
  if (r.chance(0.02)) {
    const FeatureDescriptorConstRef ca(ba.p, n), cb(bb.p, n ? n - 1 : 1);
    VF_EXPECT(vf::guarded([&] { GetNumBitsDifferent(ca, cb); }) == vf::kFatal, "hamming:unequal", "descriptors of unequal size were compared");
  }
  vf::count(n % 16 ? "sizes_not_multiple_of_16" : "sizes_multiple_of_16");
  if (oa % 16 || ob % 16) vf::count("unaligned");
  vf::maxOf("largest_distance", static_cast<double>(want));
  vf::evaluated(vf::hashBytes(a.data(), n, vf::hashBytes(b.data(), n)), n > 0, vf::State::get().samples.size() < 2 ? vf::fmt("%zu bytes: %ld", n, want) : "");
}

void bits(Rng& r, uint64_t) {
  const size_t n = 1 + r.below(r.chance(0.1) ? 200 : 20);
  const Bytes in = randomBytes(r, n);
  vf::detail(vf::fmt("%zu bytes", n));
  Block b(in, r.below(8));
  FeatureDescriptorRef d(b.p, n, false);
  Bytes model = in;
  for (int k = 0; k < 12; ++k) {
    const size_t bit = r.below(n * 8 + 4);
    const bool inside = bit < n * 8;
    const int what = static_cast<int>(r.below(3));
    const vf::Outcome o = vf::guarded([&] {
      if (what == 0) SetBit(bit, &d);
      else if (what == 1) FlipBit(bit, &d);
      else {
        const bool g = GetBit(bit, d.ToConstRef());
        VF_EXPECT(inside && g == ((model[bit / 8] >> (bit % 8)) & 1), "bits:get", "bit %zu read as %d", bit, g);
      }
    });
    VF_EXPECT((o == vf::kOk) == inside, "bits:range", "bit %zu of %zu: %s", bit, n * 8, vf::outcomeName(o));
    if (inside && what == 0) model[bit / 8] |= static_cast<unsigned char>(1u << (bit % 8));
    if (inside && what == 1) model[bit / 8] ^= static_cast<unsigned char>(1u << (bit % 8));
    VF_EXPECT(memcmp(b.p, model.data(), n) == 0, "bits:set", "setting or flipping bit %zu gives %s", bit, vf::hex(b.p, n).c_str());
  }
  // Flipping a number of random bits changes exactly that many.
  const size_t k = r.chance(0.2) ? n * 8 : r.chance(0.1) ? 0 : r.below(n * 8 + 1);
  if (vf::mustReturn("bits:flipN", "FlipNRandomBits", [&] { FlipNRandomBits(k, &d); })) {
    size_t diff = 0;
    for (size_t i = 0; i < n; ++i) diff += popcount(b.p[i] ^ model[i]);
    VF_EXPECT(diff == k, "bits:flipN", "%zu bits flipped, %zu asked for (of %zu)", diff, k, n * 8);
  }
  if (r.chance(0.1)) VF_EXPECT(vf::guarded([&] { FlipNRandomBits(n * 8 + 1, &d); }) == vf::kFatal, "bits:flipTooMany", "flipping more than all bits was accepted");
  // The Eigen helpers.
  du::DescriptorType e(n);
  for (size_t i = 0; i < n; ++i) e(i) = in[i];
  model = in;
  for (int j = 0; j < 6; ++j) {
    const unsigned bit = static_cast<unsigned>(r.below(n * 8 + 4));
    const bool inside = bit < n * 8;
    bool g = false;
    const vf::Outcome o = vf::guarded([&] { g = du::getBit(bit, e); });
    const vf::Outcome p = vf::guarded([&] { du::setBit(bit, &e); });
    VF_EXPECT((o == vf::kOk) == inside && (p == vf::kOk) == inside, "bits:eigenRange", "bit %u of %zu", bit, n * 8);
    if (!inside) continue;
    VF_EXPECT(g == ((model[bit / 8] >> (bit % 8)) & 1), "bits:eigenGet", "bit %u", bit);
    model[bit / 8] |= static_cast<unsigned char>(1u << (bit % 8));
    VF_EXPECT(memcmp(e.data(), model.data(), n) == 0, "bits:eigenSet", "bit %u", bit);
  }
  vf::evaluated(vf::hashBytes(in.data(), n, k));
}

bool bitOf(const Bytes& b, size_t bit) { return (b[bit / 8] >> (bit % 8)) & 1; }
void figures(Rng& r, uint64_t) {
  const size_t n = 1 + r.below(r.chance(0.1) ? 70 : 10), m = r.chance(0.005) ? 130 + r.below(400) : r.chance(0.1) ? r.below(40) : r.below(7);
  const bool full = m > 100 && r.chance(0.5);  // bits set in nearly all of many
  std::vector<Bytes> ds;
  for (size_t i = 0; i < m; ++i) {
    if (i && r.chance(0.5)) { ds.push_back(ds[r.below(i)]); for (size_t k = r.below(4); k > 0; --k) ds.back()[r.below(n)] ^= static_cast<unsigned char>(1u << r.below(8)); }
    else ds.push_back(randomBytes(r, n));
    if (full) for (size_t b = 0; b < n * 8; b += 3) ds.back()[b / 8] |= static_cast<unsigned char>(1u << (b % 8));
  }
  vf::detail(vf::fmt("%zu descriptors of %zu bytes", m, n));
  du::DescriptorsType mat(n, m);
  for (size_t j = 0; j < m; ++j) for (size_t i = 0; i < n; ++i) mat(i, j) = ds[j][i];
  std::vector<int> sums(n * 8, 0);
  for (auto& d : ds) for (size_t b = 0; b < n * 8; ++b) sums[b] += bitOf(d, b);
  Bytes mean(n, 0);
  for (size_t b = 0; b < n * 8; ++b) if (2 * sums[b] > static_cast<int>(m)) mean[b / 8] |= static_cast<unsigned char>(1u << (b % 8));
  auto dist = [&](const Bytes& a, const Bytes& b) { long k = 0; for (size_t i = 0; i < n; ++i) k += popcount(a[i] ^ b[i]); return k; };

  du::DescriptorType got;
  if (vf::mustReturn("mean", "descriptorMeanRoundedToBinaryValue", [&] { du::descriptorMeanRoundedToBinaryValue(mat, &got); }))
    VF_EXPECT(got.size() == static_cast<int>(n) && memcmp(got.data(), mean.data(), n) == 0, "mean:binary", "binary mean is not the majority of the bits");
  if (m == 0) {
    FeatureDescriptorRef out(static_cast<uint32_t>(n));
    out.SetRandom(5);
    const Bytes before(out.data(), out.data() + n);
    if (vf::mustReturn("mean", "DescriptorMean of nothing", [&] { DescriptorMean(std::vector<FeatureDescriptorRef*>(), &out); }))
      VF_EXPECT(memcmp(out.data(), before.data(), n) == 0, "mean:none", "the mean of no descriptors changed the output");
  }
  if (m > 0) {
    std::vector<std::unique_ptr<FeatureDescriptorRef>> refs;
    std::vector<FeatureDescriptorRef*> ptrs;
    for (auto& d : ds) { refs.emplace_back(new FeatureDescriptorRef(d.data(), n, false)); ptrs.push_back(refs.back().get()); }
    FeatureDescriptorRef out(static_cast<uint32_t>(n));
    out.SetRandom(3);
    if (vf::mustReturn("mean", "DescriptorMean", [&] { DescriptorMean(ptrs, &out); }))
      VF_EXPECT(memcmp(out.data(), mean.data(), n) == 0, "mean:refs", "DescriptorMean is not the majority of the bits");
    size_t idx = 99999;
    if (vf::mustReturn("median", "getIndexOfDescriptorClosestToMedian", [&] { du::getIndexOfDescriptorClosestToMedian(mat, &idx); })) {
      std::vector<long> acc(m, 0);
      for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) acc[i] += dist(ds[i], ds[j]);
      VF_EXPECT(idx < m && acc[idx] == *std::min_element(acc.begin(), acc.end()), "median:index", "descriptor %zu is not the one closest to all others", idx);
    }
    Eigen::VectorXd fm;
    Eigen::VectorXf ff;
    if (vf::mustReturn("float-mean", "floatDescriptorMean", [&] { du::floatDescriptorMean(mat, &fm); du::floatDescriptorMean(mat, &ff); })) {
      bool ok = fm.size() == static_cast<int>(n * 8) && ff.size() == fm.size();
      for (size_t b = 0; ok && b < n * 8; ++b) ok = std::abs(fm(b) - static_cast<double>(sums[b]) / m) < 1e-12 && std::abs(ff(b) - static_cast<double>(sums[b]) / m) < 1e-6;
      VF_EXPECT(ok, "float-mean:value", "float mean differs from the share of set bits");
      const size_t j = r.below(m);
      double want = 0, d2 = 0;
      for (size_t b = 0; b < n * 8; ++b) { const double x = bitOf(ds[j], b) - static_cast<double>(sums[b]) / m; want += x * x; }
      if (ok && vf::mustReturn("float-mean", "differenceToMeanSquaredNorm", [&] { d2 = du::differenceToMeanSquaredNorm(mat.col(j), fm); }))
        VF_EXPECT(std::abs(d2 - want) < 1e-9 * (1 + want), "float-mean:distance", "%g should be %g", d2, want);
    }
  }
  double mad = -1, sd = -1, wmad = 0, wsd = 0;
  if (m >= 2) {
    for (auto& d : ds) {
      wmad += dist(d, mean);
      for (size_t b = 0; b < n * 8; ++b) { const double x = bitOf(d, b) - static_cast<double>(sums[b]) / m; wsd += x * x; }
    }
    wmad /= m;
    wsd = std::sqrt(wsd / m);
  }
  if (vf::mustReturn("deviation", "deviations", [&] { mad = du::descriptorMeanAbsoluteDeviation(mat); sd = du::descriptorMeanStandardDeviation(mat); })) {
    VF_EXPECT(std::abs(mad - wmad) < 1e-9 * (1 + wmad), "deviation:absolute", "%g should be %g (%zu descriptors of %zu bytes)", mad, wmad, m, n);
    VF_EXPECT(std::abs(sd - wsd) < 1e-9 * (1 + wsd), "deviation:standard", "%g should be %g", sd, wsd);
  }
  du::DescriptorType pairs;
  if (vf::mustReturn("euclid", "pairwiseEuclidianDistances", [&] { du::pairwiseEuclidianDistances(mat, &pairs); })) {
    VF_EXPECT(pairs.size() == static_cast<int>(m * (m ? m - 1 : 0) / 2), "euclid:size", "%d distances of %zu descriptors", (int)pairs.size(), m);
    int k = 0;
    for (size_t i = 0; i < m; ++i) for (size_t j = i + 1; j < m && k < pairs.size(); ++j, ++k) {
      double s = 0;
      for (size_t b = 0; b < n; ++b) s += (ds[i][b] - ds[j][b]) * (ds[i][b] - ds[j][b]);
      const double d = std::sqrt(s);
      if (d <= 255) { VF_EXPECT(std::abs(pairs(k) - d) <= 1, "euclid:value", "distance %d of descriptors %zu and %zu should be %g", pairs(k), i, j, d); vf::count("euclid_pairs"); }
    }
  }
  uint64_t h = vf::mix(n * 64 + m);
  for (auto& d : ds) h = vf::hashBytes(d.data(), n, h);
  vf::evaluated(h, m > 1);
}

// ---- C15 ------------------------------------------------------------------
std::atomic<long> live(0);
std::atomic<bool> track(false);
void mallocHook(const volatile void*, size_t) { if (track.load(std::memory_order_relaxed)) live.fetch_add(1, std::memory_order_relaxed); }
void freeHook(const volatile void* p) { if (p && track.load(std::memory_order_relaxed)) live.fetch_sub(1, std::memory_order_relaxed); }
}  // namespace
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
namespace {

struct Buf { Bytes content; bool alive = true; };
typedef std::shared_ptr<Buf> BufP;
struct Slot {
  std::unique_ptr<FeatureDescriptorRef> ref;  // null: no object
  BufP buf;         // null: refers to nothing
  size_t size = 0;  // announced size
  bool owned = false;
  bool dangling() const { return buf && !buf->alive; }
};
class World {
 public:
  explicit World(Rng* r) : r_(*r), s_(1 + r->below(5)) {
    for (int i = 0; i < 3; ++i) {
      ext_.push_back(std::unique_ptr<Bytes>(new Bytes(randomBytes(r_, 96))));
      BufP b = std::make_shared<Buf>();
      b->content = *ext_.back();
      extBuf_.push_back(b);
    }
  }
  void run(int steps) {
    for (int i = 0; i < steps; ++i) { step(); check(); }
    for (auto& s : s_) { s.ref.reset(); if (s.owned && s.buf) s.buf->alive = false; s.owned = false; s.buf.reset(); }
    for (size_t k = 0; k < ext_.size(); ++k) VF_EXPECT(*ext_[k] == extBuf_[k]->content, "ref:external", "memory of a view was changed or freed");
  }
  uint64_t h = 0;
  int assigns = 0;

 private:
  Slot& any() { return s_[r_.below(s_.size())]; }
  Slot* usable() { for (int i = 0; i < 8; ++i) { Slot& s = any(); if (s.ref && !s.dangling()) return &s; } return nullptr; }
  void drop(Slot& s) {
    s.ref.reset();
    if (s.owned && s.buf) s.buf->alive = false;
    s.owned = false; s.buf.reset(); s.size = 0;
  }
  BufP fresh(const Bytes& c) { BufP b = std::make_shared<Buf>(); b->content = c; return b; }
  Bytes bytesOf(const Slot& s) { return s.buf ? Bytes(s.buf->content.begin(), s.buf->content.begin() + s.size) : Bytes(); }
  void step() {
    const int op = static_cast<int>(r_.below(17));
    h = vf::mix(h ^ static_cast<uint64_t>(op));
    Slot& t = any();
    switch (op) {
      case 0: drop(t); t.ref.reset(new FeatureDescriptorRef()); break;
      case 1: {
        drop(t);
        const uint32_t n = static_cast<uint32_t>(r_.below(70));
        t.ref.reset(new FeatureDescriptorRef(n));
        const Bytes c = randomBytes(r_, n);
        for (uint32_t i = 0; i < n; ++i) (*t.ref)[i] = c[i];
        t.buf = fresh(c); t.size = n; t.owned = true;
        break;
      }
      case 2: {
        drop(t);
        const size_t k = r_.below(3), n = r_.below(97);
        t.ref.reset(new FeatureDescriptorRef(ext_[k]->data(), n, false));
        t.buf = extBuf_[k]; t.size = n; t.owned = false;
        break;
      }
      case 3: {
        drop(t);
        const Bytes c = randomBytes(r_, 1 + r_.below(70));
        unsigned char* p = new unsigned char[c.size()];
        memcpy(p, c.data(), c.size());
        t.ref.reset(new FeatureDescriptorRef(p, c.size(), true));
        t.buf = fresh(c); t.size = c.size(); t.owned = true;
        break;
      }
      case 4: case 5: {  // copy construction
        Slot* s = usable();
        if (!s || s == &t) break;
        drop(t);
        if (!s->ref) break;
        t.ref.reset(new FeatureDescriptorRef(*s->ref));
        if (s->dangling()) { t.buf = s->buf; t.size = s->size; t.owned = false; break; }
        if (s->owned) { t.buf = fresh(bytesOf(*s)); t.size = s->size; t.owned = true; }
        else { t.buf = s->buf; t.size = s->size; t.owned = false; }
        break;
      }
      case 6: case 7: case 8: {  // assignment, including to itself
        Slot* s = usable();
        if (!s || !t.ref) break;
        if (s == &t) { *t.ref = *s->ref; break; }
        ++assigns;
        assign(t, *s, r_.chance(0.3));
        break;
      }
      case 9: {  // a view into another one's memory, possibly its own
        Slot* s = usable();
        if (!s || s == &t || !s->size) break;
        drop(t);
        if (!s->ref || s->dangling() || !s->buf) break;
        const size_t n = 1 + r_.below(s->size);
        t.ref.reset(new FeatureDescriptorRef(s->ref->data(), n, false));
        t.buf = s->buf; t.size = n; t.owned = false;
        break;
      }
      case 10: {  // set_data
        if (!t.ref || t.size > 96) break;
        if (r_.chance(0.5)) {
          const size_t k = r_.below(3);
          t.ref->set_data(ext_[k]->data(), false);
          if (t.owned && t.buf) t.buf->alive = false;
          t.buf = extBuf_[k]; t.owned = false;
        } else {
          const Bytes c = randomBytes(r_, t.size ? t.size : 1);
          unsigned char* p = new unsigned char[c.size()];
          memcpy(p, c.data(), c.size());
          t.ref->set_data(p, true);
          if (t.owned && t.buf) t.buf->alive = false;
          t.buf = fresh(c); t.owned = true;
        }
        break;
      }
      case 11: {
        if (!t.ref) break;
        const size_t n = r_.below(70);
        t.ref->Allocate(n);
        if (t.owned && t.buf) t.buf->alive = false;
        const Bytes c = randomBytes(r_, n);
        for (size_t i = 0; i < n; ++i) (*t.ref)[i] = c[i];
        t.buf = fresh(c); t.size = n; t.owned = true;
        break;
      }
      case 12: {
        if (!t.ref) break;
        t.ref->Release();
        if (t.owned) {
          if (t.buf) t.buf->alive = false;
          VF_EXPECT(t.ref->data() == nullptr, "ref:release", "released but still pointing somewhere");
          t.buf.reset(); t.owned = false;
          t.size = t.ref->size();  // what is announced for no memory does not matter
        }
        break;
      }
      case 13: {
        Slot* s = usable();
        if (!s || !s->buf || !s->size) break;
        const size_t i = r_.below(s->size);
        const unsigned char v = static_cast<unsigned char>(r_.next());
        (*s->ref)[i] = v;
        s->buf->content[i] = v;
        track = false;  // a failed CHECK leaves its message behind
        VF_EXPECT(vf::guarded([&] { (*s->ref)[s->size + r_.below(3)] = 1; }) == vf::kFatal, "ref:index", "an index past the end was accepted");
        track = true;
        break;
      }
      case 14: {
        Slot* s = usable();
        if (!s || !s->buf) break;
        if (r_.chance(0.5)) { s->ref->SetZero(); std::fill(s->buf->content.begin(), s->buf->content.begin() + s->size, 0); }
        else {
          const int seed = static_cast<int>(r_.below(1000));
          s->ref->SetRandom(seed);
          FeatureDescriptorRef o(static_cast<uint32_t>(s->size));
          o.SetRandom(seed);
          VF_EXPECT(s->size == 0 || memcmp(o.data(), s->ref->data(), s->size) == 0, "ref:random", "the same seed gives different bytes");
          for (size_t i = 0; i < s->size; ++i) s->buf->content[i] = (*s->ref)[i];
        }
        break;
      }
      case 15: {  // a vector of references that grows
        std::vector<FeatureDescriptorRef> v;
        std::vector<Bytes> want;
        for (int i = 0; i < 4; ++i) { Slot* s = usable(); if (s && s->buf) { v.push_back(*s->ref); want.push_back(bytesOf(*s)); } }
        if (v.size() > 1) {
          std::swap(v.front(), v.back());
          if (r_.chance(0.5)) { v.erase(v.begin()); std::swap(want.front(), want.back()); want.erase(want.begin()); }
          else std::swap(want.front(), want.back());
        }
        // Swapping or shifting assigns, so bytes of a view may have been written through; only memory is judged here.
        for (auto& e : v) { volatile unsigned char x = 0; for (uint32_t i = 0; i < e.size(); ++i) x = x + e[i]; }
        resync();
        break;
      }
      default: {  // comparison
        Slot *a = usable(), *b = usable();
        if (!a || !b || !a->buf || !b->buf) break;
        const bool want = bytesOf(*a) == bytesOf(*b);
        VF_EXPECT((*a->ref == *b->ref) == want, "ref:compare", "writable references compare as %d", !want);
        VF_EXPECT((a->ref->ToConstRef() == FeatureDescriptorConstRef(*b->ref)) == want, "ref:compareConst", "constant references compare as %d", !want);
        FeatureDescriptorConstRef c(b->ref->ToConstRef()), d(nullptr, 0);
        d = c;
        d = *&d;
        VF_EXPECT(d.data() == b->ref->data() && d.size() == b->size, "ref:const", "a constant reference is somewhere else");
        if (want && a->size) VF_EXPECT(GetNumBitsDifferent(*a->ref, *b->ref) == 0, "ref:distance", "equal descriptors differ");
      }
    }
  }
  // Contract of assignment: if either owns, this one owns a copy; otherwise it becomes a view of the same memory.
  void assign(Slot& t, Slot& s, bool move) {
    const bool own = t.owned || s.owned;
    const Bytes c = bytesOf(s);
    const unsigned char* before = t.ref->data();
    if (move) *t.ref = std::move(*s.ref); else *t.ref = *s.ref;
    if (own) {
      if (t.owned && t.buf) {
        t.buf->alive = false;  // views of it may dangle now
        (void)before;
      }
      t.buf = fresh(c); t.size = c.size(); t.owned = true;
      if (s.buf && !s.owned && !s.buf->alive) return;  // s was a view of t's old memory
      if (s.buf && s.buf->alive && s.size) VF_EXPECT(t.ref->data() != s.ref->data(), "ref:alias", "an owning reference shares its memory");
    } else {
      t.buf = s.buf; t.size = s.size; t.owned = false;
    }
  }
  void resync() { for (auto& s : s_) if (s.ref && s.buf && s.buf->alive) for (size_t i = 0; i < s.size; ++i) s.buf->content[i] = (*s.ref)[i]; }
  void check() {
    std::set<const unsigned char*> owners;
    for (auto& s : s_) {
      if (!s.ref || s.dangling()) continue;
      if (!s.buf) { VF_EXPECT(s.ref->data() == nullptr || s.ref->size() == 0, "ref:empty", "an empty reference points somewhere"); continue; }
      VF_EXPECT(s.ref->size() == s.size, "ref:size", "size %u, should be %zu", s.ref->size(), s.size);
      if (s.ref->size() != s.size) continue;
      bool ok = true;
      const FeatureDescriptorRef& c = *s.ref;
      for (size_t i = 0; i < s.size; ++i) ok = ok && c[i] == s.buf->content[i] && c.data()[i] == s.buf->content[i];
      VF_EXPECT(ok, "ref:content", "a reference reads other bytes than it should");
      if (s.owned && s.size) VF_EXPECT(owners.insert(c.data()).second, "ref:shared", "two owners of the same memory");
    }
  }
  Rng& r_;
  std::vector<Slot> s_;
  std::vector<std::unique_ptr<Bytes>> ext_;
  std::vector<BufP> extBuf_;
};
void refs(Rng& r, uint64_t) {
  uint64_t h = 0;
  int assigns = 0;
  vf::detail("a history of references");
  const uint64_t vio = vf::State::get().violations;
  const vf::Outcome o = vf::guarded([&] {
    live = 0;
    track = true;
    {
      World w(&r);
      w.run(static_cast<int>(r.range(3, 60)));
      h = w.h;
      assigns = w.assigns;
    }
    track = false;
  });
  track = false;
  VF_EXPECT(o == vf::kOk, "ref:history", "the history ended early: %s", vf::outcomeName(o));
  if (o == vf::kOk && vf::State::get().violations == vio) VF_EXPECT(live == 0, "ref:leak", "%ld blocks were not freed (or freed twice)", live.load());
  vf::count("assignments", assigns);
  vf::evaluated(h, assigns > 0);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  if (vf::opts().property == "C14") {
    vf::part("distance", vf::scale(30000, 900000), distance);
    vf::part("bits", vf::scale(6000, 150000), bits);
    vf::part("figures", vf::scale(4000, 90000), figures);
  } else {
    VF_EXPECT(__sanitizer_install_malloc_and_free_hooks != nullptr, "monitor", "no allocation hooks");
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
    vf::part("references", vf::scale(30000, 900000), refs);
  }
  return vf::finish();
}
