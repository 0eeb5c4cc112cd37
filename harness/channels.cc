// C08: channel values survive serialization.  C09: decoding hostile bytes is
// memory safe.  C10: channel groups are consistent typed maps.
#include "vf.h"
#include "vf_sched.h"
#include <type_traits>
#include <aslam/common/channel-definitions.h>
#include <opencv2/core/core.hpp>

using vf::Rng;
namespace ch = aslam::channels;
using aslam::internal::HeaderInformation;

namespace {
std::atomic<size_t> g_largest{0}, g_total{0};
std::atomic<bool> g_track{false};

// ---- value generators ------------------------------------------------------
template <typename T> typename std::enable_if<std::is_integral<T>::value, T>::type scalar(Rng& r) {
  switch (r.below(6)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return static_cast<T>(r.below(3));
    case 3: return static_cast<T>(-static_cast<int64_t>(r.below(3)));
    case 4: return static_cast<T>(1ull << r.below(8 * sizeof(T)));
    default: return static_cast<T>(r.next());
  }
}
template <typename T> typename std::enable_if<std::is_floating_point<T>::value, T>::type scalar(Rng& r) {
  typedef std::numeric_limits<T> L;
  switch (r.below(12)) {
    case 0: return L::max();
    case 1: return L::lowest();
    case 2: return L::min();
    case 3: return L::denorm_min();
    case 4: return static_cast<T>(-0.0);
    case 5: return L::infinity();
    case 6: return -L::infinity();
    case 7: return static_cast<T>(1) / 3;
    case 8: return static_cast<T>(r.range(-1000, 1000));
    case 9: return static_cast<T>(std::ldexp(r.uni(-1, 1), static_cast<int>(r.range(sizeof(T) == 4 ? -140 : -1060, sizeof(T) == 4 ? 120 : 1000))));
    case 10: return static_cast<T>(1 + L::epsilon());
    default: return static_cast<T>(r.gauss() * 100);
  }
}
template <> bool scalar<bool>(Rng& r) { return r.chance(0.5); }

template <typename T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <typename S, int R, int C> bool same(const Eigen::Matrix<S, R, C>& a, const Eigen::Matrix<S, R, C>& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i) if (!same<S>(a.data()[i], b.data()[i])) return false;
  return true;
}
template <typename M> bool same(const std::vector<M>& a, const std::vector<M>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
bool same(const cv::Mat& a, const cv::Mat& b) {
  if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) return false;
  for (int y = 0; y < a.rows; ++y) if (a.cols && memcmp(a.ptr(y), b.ptr(y), a.elemSize() * a.cols)) return false;
  return true;
}

template <typename T> struct Gen { static T make(Rng& r) { return scalar<T>(r); } static std::string str(const T&) { return "scalar"; } };
template <typename S, int R, int C> struct Gen<Eigen::Matrix<S, R, C>> {
  static Eigen::Matrix<S, R, C> make(Rng& r) {
    static const int dims[] = {0, 1, 1, 2, 3, 4, 5, 7, 16, 33};
    Eigen::Matrix<S, R, C> m;
    int rows = R == Eigen::Dynamic ? dims[r.below(10)] : R, cols = C == Eigen::Dynamic ? dims[r.below(10)] : C;
    if (r.chance(0.02)) {  // as many keypoints as frames really have
      const int n = 100 + static_cast<int>(r.below(r.chance(0.3) ? 70000 : 2500));
      if (C == Eigen::Dynamic) { cols = n; rows = std::min(rows, 4); } else if (R == Eigen::Dynamic) { rows = n; }
      if (R == Eigen::Dynamic && C == Eigen::Dynamic && r.chance(0.5)) std::swap(rows, cols);
    }
    m.resize(rows, cols);
    for (int i = 0; i < m.size(); ++i) m.data()[i] = scalar<S>(r);
    return m;
  }
  static std::string str(const Eigen::Matrix<S, R, C>& m) { return vf::fmt("%dx%d matrix of %zu-byte entries", (int)m.rows(), (int)m.cols(), sizeof(S)); }
};
template <typename M> struct Gen<std::vector<M>> {
  static std::vector<M> make(Rng& r) {
    std::vector<M> v(r.chance(0.02) ? r.below(400) : r.below(6));
    for (M& m : v) m = Gen<M>::make(r);
    return v;
  }
  static std::string str(const std::vector<M>& v) { return vf::fmt("vector of %zu matrices", v.size()); }
};
template <> struct Gen<cv::Mat> {
  static cv::Mat make(Rng& r) {
    static const int dims[] = {0, 1, 2, 3, 5, 8, 17, 40};
    static const int chans[] = {1, 1, 1, 2, 3, 4, 5, 9, 64, 512};
    const int n = chans[r.below(10)];
    cv::Mat m(dims[r.below(8)], dims[r.below(8)], CV_MAKETYPE(static_cast<int>(r.below(7)), n));
    if (n <= 4 && r.chance(0.01)) m.create(100 + static_cast<int>(r.below(400)), 100 + static_cast<int>(r.below(700)), m.type());
    if (!m.empty() && n > 9) m = m(cv::Rect(0, 0, std::min(2, m.cols), std::min(2, m.rows))).clone();
    for (int y = 0; y < m.rows; ++y) for (size_t i = 0; i < m.elemSize() * m.cols; ++i) m.ptr(y)[i] = static_cast<uchar>(r.next());
    if (m.depth() == CV_32F || m.depth() == CV_64F) {  // avoid NaN so that == is usable
      for (int y = 0; y < m.rows; ++y) for (int i = 0; i < m.cols * n; ++i) {
        if (m.depth() == CV_32F) m.ptr<float>(y)[i] = scalar<float>(r); else m.ptr<double>(y)[i] = scalar<double>(r);
      }
    }
    return m;
  }
  static std::string str(const cv::Mat& m) { return vf::fmt("%dx%d image of type %d (%d channels)", m.rows, m.cols, m.type(), m.channels()); }
};
size_t dataBytes(const cv::Mat& m) { return 16 + m.total() * m.elemSize(); }
template <typename S, int R, int C> size_t dataBytes(const Eigen::Matrix<S, R, C>& m) { return 16 + sizeof(S) * m.size(); }
template <typename M> size_t dataBytes(const std::vector<M>& v) { size_t n = 8; for (auto& m : v) n += dataBytes(m); return n; }
template <typename T> size_t dataBytes(const T&) { return sizeof(T); }

template <typename T>
void roundTrip(Rng& r, const char* name) {
  const std::string K = std::string("round-trip:") + name;
  const T v = Gen<T>::make(r);
  vf::detail(std::string(name) + " " + Gen<T>::str(v));
  ch::Channel<T> a, b, c;
  a.value_ = v;
  b.value_ = Gen<T>::make(r);  // decoded over a value of another shape
  c.value_ = Gen<T>::make(r);
  std::string text = "left over";
  bool ok = false;
  if (!vf::mustReturn(K + ":text-write", "serializeToString", [&] { ok = a.serializeToString(&text); })) return;
  VF_EXPECT(ok, K + ":text-write", "reports failure");
  ok = false;
  if (!vf::mustReturn(K + ":text-read", "deSerializeFromString", [&] { ok = b.deSerializeFromString(text); })) return;
  VF_EXPECT(ok, K + ":text-read", "reports failure");
  VF_EXPECT(same(b.value_, v), K + ":text-value", "value changed through text \"%s\"", vf::jsonEscape(text.substr(0, 60)).c_str());
  char* buf = nullptr;
  size_t size = 0;
  if (!vf::mustReturn(K + ":buffer-write", "serializeToBuffer", [&] { ok = a.serializeToBuffer(&buf, &size); })) return;
  VF_EXPECT(ok && buf, K + ":buffer-write", "reports failure");
  if (!buf) return;
  VF_EXPECT(size == dataBytes(v), K + ":buffer-size", "reports %zu bytes, needs %zu", size, dataBytes(v));
  {  // exactly `size` bytes are enough to read it back
    std::unique_ptr<char[]> exact(new char[size]);
    memcpy(exact.get(), buf, size);
    ok = false;
    if (vf::mustReturn(K + ":buffer-read", "deSerializeFromBuffer", [&] { ok = c.deSerializeFromBuffer(exact.get(), size); })) {
      VF_EXPECT(ok, K + ":buffer-read", "reports failure");
      VF_EXPECT(same(c.value_, v), K + ":buffer-value", "value changed through the buffer");
      // The decoded value does not depend on the buffer any longer.
      memset(exact.get(), 0x5a, size);
      VF_EXPECT(same(c.value_, v), K + ":buffer-alias", "decoded value aliases the buffer");
    }
  }
  VF_EXPECT(same(a.value_, v), K + ":source", "serializing changed the value");
  // Comparison agrees.
  bool eq = false;
  if (vf::mustReturn(K + ":compare", "operator==", [&] { eq = a == c; }))
    VF_EXPECT(eq, K + ":compare", "decoded channel differs from the original");
  vf::evaluated(vf::hashBytes(buf, size, vf::hashStr(name)), size > 1, vf::State::get().samples.size() < 6 ? std::string(name) + ": " + Gen<T>::str(v) : "");
  vf::count(std::string("type:") + name);
  delete[] buf;
}

typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> MatUc;
#define ALL_SCALARS(X) X(bool) X(int8_t) X(uint8_t) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(int64_t) X(uint64_t) X(float) X(double)
typedef Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic> MatF;
typedef Eigen::Matrix<int16_t, 3, Eigen::Dynamic> Mat3Xs;
typedef Eigen::Matrix<uint16_t, Eigen::Dynamic, 2> MatX2us;
typedef Eigen::Matrix<signed char, Eigen::Dynamic, 1> VecSc;
typedef Eigen::Matrix<double, 1, Eigen::Dynamic> RowX;
typedef std::vector<MatUc> VecMatUc;
typedef std::vector<Eigen::MatrixXd> VecMatXd;
typedef std::vector<Eigen::Matrix3f> VecMat3f;
typedef std::vector<Eigen::VectorXi> VecVecXi;
#define ALL_MATRICES(X) X(MatUc) X(MatF) X(Mat3Xs) X(MatX2us) X(VecSc) X(RowX) X(Eigen::MatrixXd) X(Eigen::Matrix2Xd) X(Eigen::Matrix3Xd) X(Eigen::VectorXd) X(Eigen::VectorXi) X(Eigen::Matrix4d) X(Eigen::Vector3d) X(Eigen::Matrix3f) X(VecMatUc) X(VecMatXd) X(VecMat3f) X(VecVecXi) X(cv::Mat)

void roundTrips(Rng& r, uint64_t i) {
  uint64_t k = i % 30, j = 0;
#define X(T) if (j++ == k) return roundTrip<T>(r, #T);
  ALL_SCALARS(X) ALL_MATRICES(X)
#undef X
}

// Images that are views into larger ones: serialized right or refused.
void imageLayouts(Rng& r, uint64_t) {
  cv::Mat big(20, 24, CV_MAKETYPE(static_cast<int>(r.below(7)), 1 + static_cast<int>(r.below(4))));
  for (int y = 0; y < big.rows; ++y) for (size_t k = 0; k < big.elemSize() * big.cols; ++k) big.ptr(y)[k] = static_cast<uchar>(r.below(100));
  int x = static_cast<int>(r.below(10)), y = static_cast<int>(r.below(10));
  int w = r.chance(0.3) ? 24 : static_cast<int>(r.range(1, 14)), h = static_cast<int>(r.range(1, 10));
  if (w == 24) x = 0;
  ch::Channel<cv::Mat> a, b;
  a.value_ = big(cv::Rect(x, y, w, h));
  vf::detail(vf::fmt("view %dx%d at %d,%d of type %d", h, w, x, y, big.type()));
  const cv::Mat copy = a.value_.clone();
  std::string text;
  char* buf = nullptr;
  size_t n = 0;
  bool ok = false;
  vf::Outcome o = vf::guarded([&] { ok = a.serializeToString(&text); });
  vf::Outcome ob = vf::guarded([&] { a.serializeToBuffer(&buf, &n); });
  VF_EXPECT(o == ob, "image-layout:agree", "text form %s, buffer form %s", vf::outcomeName(o), vf::outcomeName(ob));
  if (a.value_.isContinuous()) VF_EXPECT(o == vf::kOk && ok, "image-layout:contiguous", "contiguous view %s", vf::outcomeName(o));
  if (o == vf::kOk && ok) {
    VF_EXPECT(buf && n == text.size() && !memcmp(buf, text.data(), n), "image-layout:forms", "text and buffer form differ");
    if (vf::mustReturn("image-layout:read", "deSerializeFromString", [&] { ok = b.deSerializeFromString(text); }))
      VF_EXPECT(ok && same(b.value_, copy), "image-layout:value", "view changed through serialization");
  }
  delete[] buf;
  vf::evaluated(vf::hashStr(text) ^ vf::mix(w * 100 + h), true);
  vf::count(o == vf::kOk ? "views_serialized" : "views_refused");
}

// The functions generated per declared channel.
#define NAMED(X) X(VISUAL_KEYPOINT_MEASUREMENTS) X(VISUAL_KEYPOINT_MEASUREMENT_UNCERTAINTIES) X(VISUAL_KEYPOINT_ORIENTATIONS) X(VISUAL_KEYPOINT_SCALES) X(VISUAL_KEYPOINT_SCORES) X(VISUAL_KEYPOINT_3D_POSITIONS) X(VISUAL_KEYPOINT_TIME_OFFSETS) X(DESCRIPTORS) X(DESCRIPTOR_TYPES) X(TRACK_IDS) X(RAW_IMAGE) X(CV_MAT)
#define X(N) \
  void named_##N(Rng& r) { \
    typedef ch::N##_ChannelValueType V; \
    ch::ChannelGroup g, h; \
    const V v = Gen<V>::make(r); \
    const std::string K = "named:" #N; \
    VF_EXPECT(!ch::has_##N##_Channel(g), K, "present in an empty group"); \
    ch::ChannelGroup* missing = new ch::ChannelGroup;  /* a failed CHECK leaves its mutex locked */ \
    vf::Outcome o = vf::guarded([&] { ch::get_##N##_Data(*missing); }); \
    VF_EXPECT(o == vf::kFatal, K + ":missing", "fetching a missing channel %s", vf::outcomeName(o)); \
    if (!vf::mustReturn(K, "add", [&] { ch::add_##N##_Channel(&g) = v; ch::add_##N##_Channel(&h); })) return; \
    VF_EXPECT(ch::has_##N##_Channel(g) && ch::hasChannel(#N, g), K, "not present after adding"); \
    VF_EXPECT(same(ch::get_##N##_Data(g), v), K, "fetched value differs"); \
    VF_EXPECT(same(ch::getChannelData<V>(#N, g), v), K, "generically fetched value differs"); \
    std::string s; \
    if (vf::mustReturn(K, "serialize", [&] { ch::serialize_##N##_Channel(g, &s); ch::deserialize_##N##_Channel(h, s); })) \
      VF_EXPECT(same(ch::get_##N##_Data(h), v), K + ":serialize", "value changed"); \
    bool eq = false; \
    if (vf::mustReturn(K, "isChannelGroupEqual", [&] { eq = ch::isChannelGroupEqual(g, h); })) VF_EXPECT(eq, K + ":equal", "groups differ"); \
    vf::mustReturn(K, "remove", [&] { ch::remove_##N##_Channel(&g); }); \
    VF_EXPECT(!ch::has_##N##_Channel(g), K, "present after removal"); \
    vf::evaluated(vf::hashStr(s + #N), s.size() > 16); \
  }
NAMED(X)
#undef X
void named(Rng& r, uint64_t i) {
  uint64_t k = i % 12, j = 0;
#define X(N) if (j++ == k) return named_##N(r);
  NAMED(X)
#undef X
}

// ---- C09 -------------------------------------------------------------------
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
void mallocHook(const volatile void*, size_t n) {
  if (!g_track.load(std::memory_order_relaxed)) return;
  g_total.fetch_add(n, std::memory_order_relaxed);
  if (n > g_largest.load(std::memory_order_relaxed)) g_largest.store(n);
}
void freeHook(const volatile void*) {}

template <typename T> uint64_t touch(const T& v) { return vf::hashBytes(&v, sizeof v); }
template <typename S, int R, int C> uint64_t touch(const Eigen::Matrix<S, R, C>& m) { return m.size() ? vf::hashBytes(m.data(), m.size() * sizeof(S)) : 1; }
template <typename M> uint64_t touch(const std::vector<M>& v) { uint64_t h = v.size(); for (auto& m : v) h ^= vf::mix(h + touch(m)); return h; }
uint64_t touch(const cv::Mat& m) { uint64_t h = m.rows; for (int y = 0; y < m.rows && m.cols; ++y) h = vf::hashBytes(m.ptr(y), m.elemSize() * m.cols, h); return h; }

std::vector<std::string> seedsFor(Rng& r);
template <typename T> std::string encoded(Rng& r) {
  ch::Channel<T> c;
  c.value_ = Gen<T>::make(r);
  char* buf = nullptr; size_t n = 0;
  c.serializeToBuffer(&buf, &n);
  std::string s(buf, n);
  delete[] buf;
  return s;
}
std::string anyEncoded(Rng& r) {
  uint64_t k = r.below(30), j = 0;
#define X(T) if (j++ == k) return encoded<T>(r);
  ALL_SCALARS(X) ALL_MATRICES(X)
#undef X
  return "";
}
std::string mutate(Rng& r, std::string s) {
  static const uint32_t ev[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 255, 256, 512, 513, 1024, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x10000u, 0x40000000u, 0x20000000u, 0xfffffff0u, 0x10001u};
  const int n = 1 + static_cast<int>(r.below(3));
  for (int i = 0; i < n; ++i) {
    switch (r.below(8)) {
      case 0: s.resize(r.below(s.size() + 1)); break;
      case 1: s.resize(r.below(std::min<size_t>(s.size(), 20) + 1)); break;
      case 2: if (s.size() >= 4) { uint32_t v = ev[r.below(24)]; size_t o = 4 * r.below(std::min<size_t>(s.size() / 4, 7)); memcpy(&s[o], &v, 4); } break;
      case 3: if (s.size() >= 8) { uint64_t v = r.chance(0.5) ? ~0ull >> r.below(64) : 1ull << r.below(64); size_t o = 4 * r.below(std::min<size_t>(s.size() / 4 - 1, 6)); memcpy(&s[o], &v, 8); } break;
      case 4: if (!s.empty()) s[r.below(s.size())] ^= static_cast<char>(1 << r.below(8)); break;
      case 5: { size_t k = r.below(40); for (size_t j = 0; j < k; ++j) s += static_cast<char>(r.next()); break; }
      case 6: if (s.size() >= 16) {  // a consistent but extreme header: products that wrap around
        uint32_t rows = ev[r.below(24)], cols = ev[r.below(24)];
        memcpy(&s[0], &rows, 4); memcpy(&s[4], &cols, 4);
        if (r.chance(0.5)) { uint32_t c = ev[r.below(24)]; memcpy(&s[12], &c, 4); }
        if (r.chance(0.5)) s.resize(16);
      } break;
      default: if (s.size() >= 16) {  // rows and cols swapped or traded against channels, same number of bytes
        uint32_t v[4]; memcpy(v, &s[0], 16);
        switch (r.below(4)) {
          case 0: std::swap(v[0], v[1]); break;
          case 1: v[3] *= v[1]; v[1] = 1; break;
          case 2: v[3] *= v[0]; v[0] = 1; break;
          default: v[2] = static_cast<uint32_t>(r.below(9)); break;
        }
        memcpy(&s[0], v, 16);
      }
    }
  }
  return s;
}
// Exhaustive-ish header soup for small payloads.
std::string crafted(Rng& r) {
  std::string s;
  if (r.chance(0.3)) { uint64_t n = r.chance(0.7) ? r.below(5) : r.next() >> r.below(64); s.append(reinterpret_cast<char*>(&n), 8); }
  int heads = static_cast<int>(r.below(4));
  for (int i = 0; i < heads; ++i) {
    uint32_t v[4] = {(uint32_t)r.below(6), (uint32_t)r.below(6), (uint32_t)r.below(8), r.chance(0.7) ? 1u : (uint32_t)r.below(600)};
    if (r.chance(0.15)) v[r.below(4)] = static_cast<uint32_t>(r.next());
    s.append(reinterpret_cast<char*>(v), 16);
    size_t n = static_cast<size_t>(v[0]) * v[1] * (v[2] < 2 ? 1 : v[2] < 4 ? 2 : v[2] < 6 ? 4 : 8) * v[3];
    if (r.chance(0.2)) n += r.below(5);
    if (r.chance(0.2)) n -= std::min<size_t>(n, r.below(5));
    if (n > 4000) n = r.below(100);
    for (size_t j = 0; j < n; ++j) s += static_cast<char>(r.next());
  }
  return s;
}
template <typename T> bool isPrefixOf(const T& v, const std::string& s, std::string* again) {
  ch::Channel<T> c;
  c.value_ = v;
  char* buf = nullptr; size_t n = 0;
  // Empty images of absurd width can be held but not written again.
  if (vf::guarded([&] { c.serializeToBuffer(&buf, &n); }) != vf::kOk) return s.size() == 16;
  again->assign(buf, n);
  delete[] buf;
  return again->size() <= s.size() && !memcmp(again->data(), s.data(), again->size());
}

template <typename T>
void decode(Rng& r, const char* name, const std::string& bytes, bool text) {
  const std::string K = std::string("decode:") + name;
  vf::detail(vf::fmt("%s from %s of %zu bytes: ", name, text ? "text" : "buffer", bytes.size()) + vf::hex(bytes.data(), std::min<size_t>(bytes.size(), 400)));
  // Exactly as many bytes as given, so that any read beyond them is seen.
  std::unique_ptr<char[]> exact(new char[bytes.size()]);
  if (!bytes.empty()) memcpy(exact.get(), bytes.data(), bytes.size());
  std::string str(bytes);
  ch::Channel<T>* c = new ch::Channel<T>;
  c->value_ = Gen<T>::make(r);
  const size_t before = sizeof(T) + dataBytes(c->value_);
  g_largest = 0; g_total = 0; g_track = true;
  bool ok = false;
  vf::Outcome o = vf::guarded([&] { ok = text ? c->deSerializeFromString(str) : c->deSerializeFromBuffer(exact.get(), bytes.size()); });
  g_track = false;
  VF_EXPECT(g_largest.load() <= 65536 + 64 * bytes.size() + before, K + ":allocation", "allocated %zu bytes at once for %zu bytes of input", g_largest.load(), bytes.size());
  vf::maxOf("largest_allocation_bytes", static_cast<double>(g_largest.load()));
  uint64_t h = touch(c->value_);  // whatever happened, the value is still a usable one
  if (o == vf::kOk && ok) {
    vf::count(std::string("accepted:") + name);
    std::string again;
    if (!text && !std::is_same<T, bool>::value)
      VF_EXPECT(isPrefixOf(c->value_, bytes, &again), K + ":value", "the accepted value does not stem from the buffer");
  } else {
    vf::count(std::string("refused:") + name);
  }
  const bool wasOk = o == vf::kOk && ok;
  // The channel can be used again.
  ch::Channel<T> src;
  src.value_ = Gen<T>::make(r);
  std::string good;
  src.serializeToString(&good);
  vf::mustReturn(K + ":reuse", "decoding a valid value afterwards", [&] { ok = c->deSerializeFromString(good); });
  VF_EXPECT(ok && same(c->value_, src.value_), K + ":reuse", "channel unusable after a refused value");
  delete c;
  vf::evaluated(vf::hashStr(bytes + name + (text ? "t" : "b")), !wasOk || h, "");
}
void decodeAny(Rng& r, const std::string& bytes, int which, bool text) {
  int j = 0;
  (void)j;
  if (!text) {
#define X(T) if (j++ == which) return decode<T>(r, #T, bytes, text);
    X(int8_t) X(uint16_t) X(int32_t) X(uint64_t) X(float) X(double)
#undef X
  } else j = 6;
#define X(T) if (j++ == which) return decode<T>(r, #T, bytes, text);
  ALL_MATRICES(X)
#undef X
}
const int kDecodable = 25;
void hostile(Rng& r, uint64_t i) {
  // Mostly decode into the type that was encoded, sometimes into another one.
  const int which = static_cast<int>(i % kDecodable);
  std::string s;
  if (r.chance(0.25)) s = crafted(r);
  else if (r.chance(0.2)) s = mutate(r, anyEncoded(r));
  else {
    int j = 0;
#define X(T) if (j++ == which) s = encoded<T>(r);
    X(int8_t) X(uint16_t) X(int32_t) X(uint64_t) X(float) X(double) ALL_MATRICES(X)
#undef X
    if (!r.chance(0.05)) s = mutate(r, s);
  }
  decodeAny(r, s, which, r.chance(0.4) && which >= 6);
}
template <typename T> void parse(Rng& r, const char* name, const std::string& s) { decode<T>(r, name, s, true); }
void hostileText(Rng& r, uint64_t i) {
  static const char* tv[] = {"", " ", "-", "+", ".", "e", "1e", "1e999", "-1e999", "1e-999", "nan", "inf", "-inf", "0x", "0x1p3", "12abc", "abc", "99999999999999999999999", "-99999999999999999999", "18446744073709551615", "-1", "\n", "1\n2", "3.5", "1,5", "4.9e-324", "true"};
  std::string s = r.chance(0.6) ? tv[r.below(27)] : "";
  if (r.chance(0.5)) { size_t k = r.below(30); for (size_t j = 0; j < k; ++j) s += static_cast<char>(r.chance(0.6) ? "0123456789+-.eExX \0"[r.below(19)] : r.next()); }
  uint64_t k = i % 11, j = 0;
#define X(T) if (j++ == k) return parse<T>(r, #T, s);
  ALL_SCALARS(X)
#undef X
}

// ---- C10 -------------------------------------------------------------------
struct Value {
  int type = 0;
  double d = 0; int64_t i = 0; Eigen::MatrixXd m; VecMatUc v; cv::Mat img;
  static Value make(Rng& r, int t) {
    Value x; x.type = t;
    x.d = r.gauss(); x.i = r.range(-3, 3);
    x.m = Eigen::MatrixXd::Constant(r.below(3), r.below(3), static_cast<double>(r.below(2)));
    x.v.resize(r.below(3)); for (auto& m : x.v) m = MatUc::Constant(r.below(3), r.below(3), r.below(2));
    x.img = cv::Mat(static_cast<int>(r.below(3)), static_cast<int>(r.below(3)), CV_MAKETYPE(r.chance(0.5) ? CV_8U : CV_32F, 1 + static_cast<int>(r.below(3))), cv::Scalar::all(static_cast<double>(r.below(2))));
    if (!x.img.empty() && r.chance(0.3)) x.img.ptr(x.img.rows - 1)[x.img.elemSize() * x.img.cols - 1] ^= 1;
    x.img = x.img.clone();
    return x;
  }
  bool eq(const Value& o) const {
    if (type != o.type) return false;
    switch (type) {
      case 0: return d == o.d;
      case 1: return i == o.i;
      case 2: return same(m, o.m);
      case 3: return same(v, o.v);
      default: return same(img, o.img);
    }
  }
};
typedef std::map<std::string, Value> Model;
bool stored(const ch::ChannelGroup& g, const std::string& n, const Value& v) {
  switch (v.type) {
    case 0: return ch::getChannelData<double>(n, g) == v.d;
    case 1: return ch::getChannelData<int64_t>(n, g) == v.i;
    case 2: return same(ch::getChannelData<Eigen::MatrixXd>(n, g), v.m);
    case 3: return same(ch::getChannelData<VecMatUc>(n, g), v.v);
    default: return same(ch::getChannelData<cv::Mat>(n, g), v.img);
  }
}
void store(ch::ChannelGroup* g, const std::string& n, const Value& v, bool fresh) {
  switch (v.type) {
    case 0: (fresh ? ch::addChannel<double>(n, g) : ch::getChannelData<double>(n, *g)) = v.d; break;
    case 1: (fresh ? ch::addChannel<int64_t>(n, g) : ch::getChannelData<int64_t>(n, *g)) = v.i; break;
    case 2: (fresh ? ch::addChannel<Eigen::MatrixXd>(n, g) : ch::getChannelData<Eigen::MatrixXd>(n, *g)) = v.m; break;
    case 3: (fresh ? ch::addChannel<VecMatUc>(n, g) : ch::getChannelData<VecMatUc>(n, *g)) = v.v; break;
    default: (fresh ? ch::addChannel<cv::Mat>(n, g) : ch::getChannelData<cv::Mat>(n, *g)) = v.img.clone(); break;
  }
}
void wrongTypes(const ch::ChannelGroup& g, const std::string& n, int type) {
  vf::Outcome o = vf::kOk;
  if (type != 0) o = vf::guarded([&] { ch::getChannelData<double>(n, g); });
  else o = vf::guarded([&] { ch::getChannelData<Eigen::MatrixXd>(n, g); });
  VF_EXPECT(o == vf::kFatal, "group:wrong-type", "fetching %s as another type %s", n.c_str(), vf::outcomeName(o));
  // A failed CHECK leaves the group's mutex locked in this process (no
  // unwinding); the caller must not use the group afterwards.
}
void checkAgainst(const ch::ChannelGroup& g, const Model& m, const std::string& where, const std::string& log) {
  VF_EXPECT(g.channels_.size() == m.size(), "group:size:" + where, "%zu channels, expected %zu; %s", g.channels_.size(), m.size(), log.c_str());
  for (auto& e : m) {
    VF_EXPECT(ch::hasChannel(e.first, g), "group:has:" + where, "%s is missing; %s", e.first.c_str(), log.c_str());
    if (!ch::hasChannel(e.first, g)) continue;
    VF_EXPECT(stored(g, e.first, e.second), "group:value:" + where, "%s differs; %s", e.first.c_str(), log.c_str());
  }
  std::ostringstream os;
  g.printParameters(os);
  for (auto& e : m) VF_EXPECT(os.str().find("- " + e.first + "\n") != std::string::npos, "group:print", "printout lacks %s", e.first.c_str());
}
bool modelEq(const Model& a, const Model& b) {
  if (a.size() != b.size()) return false;
  for (auto& e : a) { auto it = b.find(e.first); if (it == b.end() || !it->second.eq(e.second)) return false; }
  return true;
}
void groupOps(Rng& r, uint64_t i) {
  static const char* names[] = {"a", "b", "c", "TRACK_IDS", ""};
  std::vector<std::unique_ptr<ch::ChannelGroup>> gs;
  std::vector<Model> ms;
  std::string log;
  gs.emplace_back(new ch::ChannelGroup); ms.emplace_back();
  gs.emplace_back(new ch::ChannelGroup); ms.emplace_back();
  uint64_t h = 0, nontrivial = 0;
  for (int step = 0; step < 40; ++step) {
    const size_t k = r.below(gs.size());
    ch::ChannelGroup* g = gs[k].get();
    Model& m = ms[k];
    const std::string n = names[r.below(5)];
    const uint64_t op = r.below(10);
    log += vf::fmt("%llu:%zu:%s ", (unsigned long long)op, k, n.c_str());
    vf::detail(log);
    switch (op) {
      case 0: case 1: case 2:
        if (!m.count(n)) {
          Value v = Value::make(r, static_cast<int>(r.below(5)));
          if (vf::mustReturn("group:add", "addChannel", [&] { store(g, n, v, true); })) m[n] = v;
        }
        break;
      case 3:
        if (m.count(n)) { Value v = Value::make(r, m[n].type); if (vf::mustReturn("group:get", "getChannelData", [&] { store(g, n, v, false); })) m[n] = v; }
        else VF_EXPECT(!ch::hasChannel(n, *g), "group:has", "%s reported present", n.c_str());
        break;
      case 4:
        if (m.count("TRACK_IDS")) { if (vf::mustReturn("group:remove", "remove", [&] { ch::remove_TRACK_IDS_Channel(g); })) m.erase("TRACK_IDS"); }
        break;
      case 5: {
        if (gs.size() >= 6) break;
        gs.emplace_back();
        ms.push_back(Model(m));
        Model copy = ms[k];
        std::unique_ptr<ch::ChannelGroup> c;
        if (!vf::mustReturn("group:clone", "cloneChannelGroup", [&] { c.reset(new ch::ChannelGroup); *c = ch::cloneChannelGroup(*g); })) { gs.pop_back(); ms.pop_back(); break; }
        gs.back() = std::move(c);
        checkAgainst(*gs.back(), copy, "clone", log);
        bool eq = false;
        if (vf::mustReturn("group:equal", "isChannelGroupEqual", [&] { eq = ch::isChannelGroupEqual(*g, *gs.back()); }))
          VF_EXPECT(eq, "group:clone-equal", "a clone differs from its original; %s", log.c_str());
        ++nontrivial;
        break;
      }
      case 6: case 7: {
        // Make near copies so that equality is decided by a single channel.
        size_t l = r.below(gs.size());
        bool eq = false, qe = false;
        if (vf::mustReturn("group:equal", "isChannelGroupEqual", [&] { eq = ch::isChannelGroupEqual(*g, *gs[l]); qe = ch::isChannelGroupEqual(*gs[l], *g); })) {
          const bool want = modelEq(m, ms[l]);
          VF_EXPECT(eq == want && qe == want, "group:equal", "equal reported %d and %d, expected %d; %s", eq, qe, want, log.c_str());
          if (!m.empty()) ++nontrivial;
          vf::count(want ? "compared_equal" : "compared_different");
        }
        break;
      }
      default:
        checkAgainst(*g, m, "state", log);
    }
    h = vf::mix(h ^ op ^ (k << 8) ^ vf::hashStr(n));
  }
  for (size_t k = 0; k < gs.size(); ++k) checkAgainst(*gs[k], ms[k], "end", log);
  // Misuse: adding twice, missing names, wrong types.
  for (size_t k = 0; k < gs.size(); ++k) {
    if (ms[k].empty()) continue;
    auto it = ms[k].begin();
    ch::ChannelGroup* leak = gs[k].release();  // a failed CHECK leaves its mutex locked
    switch (r.below(4)) {
      case 0: wrongTypes(*leak, it->first, it->second.type); break;
      case 1: { vf::Outcome o = vf::guarded([&] { ch::addChannel<double>(it->first, leak); }); VF_EXPECT(o == vf::kFatal, "group:add-twice", "adding %s twice %s", it->first.c_str(), vf::outcomeName(o)); break; }
      case 2: { vf::Outcome o = vf::guarded([&] { ch::getChannelData<double>("nosuch", *leak); }); VF_EXPECT(o == vf::kFatal, "group:missing", "fetching a missing channel %s", vf::outcomeName(o)); break; }
      default: { vf::Outcome o = vf::guarded([&] { ch::remove_CV_MAT_Channel(leak); }); VF_EXPECT(o == vf::kFatal, "group:missing", "removing a missing channel %s", vf::outcomeName(o)); }
    }
    break;
  }
  vf::evaluated(h, nontrivial > 0, i < 2 ? "operations op:group:name " + log : "");
}

// Copies of a group (assignment) show the same channels.
void groupAssign(Rng& r, uint64_t) {
  ch::ChannelGroup a, b;
  Model m;
  for (const char* n : {"x", "y", "z"}) if (r.chance(0.7)) { m[n] = Value::make(r, static_cast<int>(r.below(5))); store(&a, n, m[n], true); }
  if (r.chance(0.5)) ch::addChannel<double>("old", &b) = 3;
  b = a;
  checkAgainst(b, m, "assign", "");
  ch::ChannelGroup c(a);
  checkAgainst(c, m, "copy", "");
  b = *&b;
  checkAgainst(b, m, "self-assign", "");
  // Clone is independent of the original in both directions.
  ch::ChannelGroup d(a);
  std::unique_ptr<ch::ChannelGroup> clone(new ch::ChannelGroup);
  *clone = ch::cloneChannelGroup(a);
  Model before = m;
  for (auto& e : m) { Value v = Value::make(r, e.second.type); store(&a, e.first, v, false); e.second = v; }
  checkAgainst(*clone, before, "clone-independent", "");
  checkAgainst(a, m, "original", "");
  std::string extra = "extra";
  ch::addChannel<double>(extra, clone.get()) = 1;
  VF_EXPECT(!ch::hasChannel(extra, a), "group:clone-independent", "adding to a clone changes the original");
  uint64_t h = 0;
  for (auto& e : before) h = vf::mix(h ^ vf::hashStr(e.first) ^ e.second.type);
  vf::evaluated(vf::mix(h ^ r.next()), !before.empty());
}

void groupConcurrent(Rng& rng, uint64_t) {
  ch::ChannelGroup g[3];
  for (auto& x : g) { for (const char* n : {"p", "q"}) ch::addChannel<Eigen::MatrixXd>(n, &x) = Eigen::MatrixXd::Ones(3, 4); ch::addChannel<cv::Mat>("img", &x) = cv::Mat::zeros(4, 4, CV_8UC3); }
  const int threads = static_cast<int>(rng.range(2, 8));
  std::atomic<int> ready{0}, finished{0}, bad{0};
  std::atomic<uint64_t> steps{0};
  std::vector<std::thread> ts;
  std::vector<uint64_t> seeds;
  for (int t = 0; t < threads; ++t) seeds.push_back(rng.next());
  std::vector<std::pair<int, std::string>> left[8];
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
    Rng r(seeds[t]);
    ready.fetch_add(1);
    while (ready.load() < threads) {}
    std::vector<std::pair<int, std::string>>& mine = left[t];
    for (int s = 0; s < 40; ++s) {
      const int a = static_cast<int>(r.below(3)), b = static_cast<int>(r.below(3));
      switch (r.below(7)) {
        case 0: {
          std::string n = vf::fmt("own-%d-%d", t, s);
          ch::addChannel<Eigen::MatrixXd>(n, &g[a]);
          mine.emplace_back(a, n);
          break;
        }
        case 1:
          if (!mine.empty()) {
            auto& e = r.pick(mine);
            if (!ch::hasChannel(e.second, g[e.first])) bad.fetch_add(1);
            if (ch::getChannelData<Eigen::MatrixXd>(e.second, g[e.first]).size() != 0) bad.fetch_add(1);
          }
          break;
        case 2: {
          ch::ChannelGroup c;
          c = ch::cloneChannelGroup(g[a]);
          if (ch::getChannelData<Eigen::MatrixXd>("p", c).rows() != 3) bad.fetch_add(1);
          for (auto& e : mine) if (e.first == a && !ch::hasChannel(e.second, c)) bad.fetch_add(1);
          break;
        }
        case 3: case 4: ch::isChannelGroupEqual(g[a], g[b]); break;
        case 5: { ch::ChannelGroup c; c = g[a]; if (!ch::hasChannel("q", c)) bad.fetch_add(1); break; }
        default: { std::ostringstream os; g[a].printParameters(os); if (os.str().find("- img\n") == std::string::npos) bad.fetch_add(1); }
      }
      steps.fetch_add(1);
    }
    finished.fetch_add(1);
  });
  vf::awaitOrStall([&] { return finished.load() == threads; }, [&] { return steps.load(); }, "group:deadlock", [&] { return std::string("threads using, cloning and comparing channel groups are stuck"); });
  for (auto& t : ts) t.join();
  VF_EXPECT(bad.load() == 0, "group:concurrent", "%d wrong results under concurrency", bad.load());
  size_t want[3] = {3, 3, 3};
  for (auto& l : left) for (auto& e : l) ++want[e.first];
  for (int k = 0; k < 3; ++k) VF_EXPECT(g[k].channels_.size() == want[k], "group:lost", "%zu channels, %zu were added", g[k].channels_.size(), want[k]);
  vf::count("concurrent_operations", steps.load());
  uint64_t h = 0;
  for (auto s : seeds) h = vf::mix(h ^ s);
  vf::evaluated(h, true);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  const std::string p = vf::opts().property;
  const bool tsan = vf::opts().tsan();
  if (p == "C08") {
    vf::part("round-trip", vf::scale(120000, 3000000), roundTrips);
    vf::part("image-layout", vf::scale(2000, 100000), imageLayouts);
    vf::part("named", vf::scale(3000, 100000), named);
  }
  if (p == "C09") {
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
    else vf::count("no_allocation_hook");
    vf::part("hostile-buffer", vf::scale(60000, 3000000), hostile);
    vf::part("hostile-text", vf::scale(11000, 300000), hostileText);
  }
  if (p == "C10") {
    if (!tsan) {
      vf::part("operations", vf::scale(1500, 60000), groupOps);
      vf::part("assign-clone", vf::scale(1500, 60000), groupAssign);
    }
    vf::part("concurrent", vf::scale(tsan ? 60 : 120, 6000), groupConcurrent);
  }
  return vf::finish();
}
