// C11: matrices and files survive YAML, malformed YAML is refused.
// C12: a sensor's identity and settings survive YAML.
#include "vf.h"
#include <fstream>
#include <aslam/common/sensor.h>
#include <aslam/common/yaml-file-serialization.h>
#include <aslam/common/yaml-serialization.h>

using vf::Rng;

namespace {
std::string dir() { return vf::opts().out + "/tmp"; }

template <typename T> typename std::enable_if<std::is_integral<T>::value, T>::type entry(Rng& r) {
  switch (r.below(4)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return static_cast<T>(r.below(5));
    default: return static_cast<T>(r.next());
  }
}
template <> bool entry<bool>(Rng& r) { return r.chance(0.5); }
template <typename T> typename std::enable_if<std::is_floating_point<T>::value, T>::type entry(Rng& r) {
  typedef std::numeric_limits<T> L;
  switch (r.below(12)) {
    case 0: return L::max();
    case 1: return L::lowest();
    case 2: return L::min();
    case 3: return static_cast<T>(-0.0);
    case 4: return L::infinity();
    case 5: return -L::infinity();
    case 6: return L::quiet_NaN();
    case 7: return static_cast<T>(1) / 3;
    case 8: return static_cast<T>(r.range(-9, 9));
    case 9: return static_cast<T>(std::ldexp(r.uni(-1, 1), static_cast<int>(r.range(sizeof(T) == 4 ? -120 : -1000, sizeof(T) == 4 ? 120 : 1000))));
    default: return static_cast<T>(r.gauss());
  }
}
template <typename T> bool sameEntry(T a, T b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
template <typename M> bool sameMat(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!sameEntry<typename M::Scalar>(a(i, j), b(i, j))) return false;
  return true;
}
template <typename M> M make(Rng& r, int rows, int cols) {
  M m(rows, cols);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = entry<typename M::Scalar>(r);
  return m;
}
template <typename M> M makeAny(Rng& r) {
  static const int d[] = {1, 1, 2, 3, 4, 7, 12};
  return make<M>(r, M::RowsAtCompileTime == Eigen::Dynamic ? d[r.below(7)] : M::RowsAtCompileTime, M::ColsAtCompileTime == Eigen::Dynamic ? d[r.below(7)] : M::ColsAtCompileTime);
}

template <typename M> void roundTrip(Rng& r, const char* name) {
  const std::string K = std::string("matrix:") + name;
  const M m = makeAny<M>(r);
  M b = makeAny<M>(r), c = makeAny<M>(r), d = makeAny<M>(r);
  std::ostringstream os; os << m;
  vf::detail(vf::fmt("%s %dx%d: ", name, (int)m.rows(), (int)m.cols()) + os.str());
  YAML::Node node;
  if (!vf::mustReturn(K + ":write", "encoding", [&] { node = m; })) return;
  if (vf::mustReturn(K + ":read", "decoding", [&] { b = node.as<M>(); })) VF_EXPECT(sameMat(m, b), K + ":value", "changed in memory");
  std::stringstream text;
  text << node;
  if (vf::mustReturn(K + ":read", "decoding text", [&] { c = YAML::Load(text.str()).as<M>(); })) VF_EXPECT(sameMat(m, c), K + ":value", "changed through text:\n%s", text.str().c_str());
  YAML::Node outer;
  outer["inner"] = m;
  bool ok = false;
  M e = makeAny<M>(r);
  if (vf::mustReturn(K + ":get", "safeGet", [&] { ok = YAML::safeGet(outer, "inner", &e); })) VF_EXPECT(ok && sameMat(m, e), K + ":get", "safeGet gives %d", ok);
  VF_EXPECT(YAML::hasKey(outer, "inner") && !YAML::hasKey(outer, "other") && !YAML::hasKey(YAML::Node(3), "inner"), K + ":key", "hasKey");
  if (r.chance(0.1)) {
    const std::string f = dir() + "/m.yaml";
    { std::ofstream junk(f); junk << std::string(5000, 'x'); }  // existing files are overwritten
    bool saved = false, loaded = false;
    if (vf::mustReturn(K + ":file", "Save/Load", [&] { saved = YAML::Save(m, f); loaded = YAML::Load(f, &d); }))
      VF_EXPECT(saved && loaded && sameMat(m, d), K + ":file", "saved %d loaded %d", saved, loaded);
    unlink(f.c_str());
    vf::count("files_written");
  }
  vf::evaluated(vf::hashStr(text.str() + name), m.size() > 0, vf::State::get().samples.size() < 4 ? std::string(name) + ": " + text.str() : "");
}
typedef Eigen::MatrixXd MXd; typedef Eigen::VectorXd VXd; typedef Eigen::Matrix<double, 1, Eigen::Dynamic> RXd;
typedef Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic> MXf; typedef Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> MXfr;
typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> MXuc; typedef Eigen::Matrix<signed char, Eigen::Dynamic, 1> VXsc;
typedef Eigen::Matrix<int64_t, Eigen::Dynamic, Eigen::Dynamic> MXl; typedef Eigen::Matrix<uint16_t, 3, Eigen::Dynamic> M3Xus; typedef Eigen::Matrix<bool, 2, 3> M23b;
typedef Eigen::Matrix<double, 5, 1> V5; typedef Eigen::Matrix<double, 1, 4> R4; typedef Eigen::Matrix<double, 1, 1> M11;
#define MATS(X) X(MXd) X(VXd) X(RXd) X(MXf) X(MXfr) X(Eigen::Matrix4d) X(Eigen::Matrix3f) X(Eigen::MatrixXi) X(MXuc) X(VXsc) X(MXl) X(M3Xus) X(M23b) X(V5) X(R4) X(M11) X(Eigen::Matrix2Xd)
void roundTrips(Rng& r, uint64_t i) {
  uint64_t k = i % 17, j = 0;
#define X(T) if (j++ == k) return roundTrip<T>(r, #T);
  MATS(X)
#undef X
}

// Every well-formed layout decodes; a wrong shape is refused.
std::string num(int v) { return std::to_string(v); }
struct Doc { std::string text; bool wellFormed; int rows, cols; std::vector<int> values; std::string kind; };
Doc document(Rng& r) {
  Doc d;
  d.rows = static_cast<int>(r.range(1, 4));
  d.cols = static_cast<int>(r.range(1, 4));
  for (int i = 0; i < d.rows * d.cols; ++i) d.values.push_back(static_cast<int>(r.range(-99, 99)));
  d.wellFormed = true;
  std::string rowsKey = "rows: " + num(d.rows) + "\n", colsKey = "cols: " + num(d.cols) + "\n";
  std::vector<std::vector<std::string>> cells(d.rows);
  for (int i = 0; i < d.rows; ++i) for (int j = 0; j < d.cols; ++j) cells[i].push_back(num(d.values[i * d.cols + j]));
  const bool linear = r.chance(0.4);
  const int cols0 = d.cols;
  bool nestSingles = d.cols == 1 && r.chance(0.5);
  bool mapData = false, scalarData = false, noData = false;
  if (r.chance(0.7)) {
    d.wellFormed = false;
    switch (r.below(12)) {
      case 0: rowsKey = "rows: " + num(d.rows + 1 + (int)r.below(3)) + "\n"; d.kind = "too many rows announced"; break;
      case 1: colsKey = "cols: " + num(d.cols + 1 + (int)r.below(3)) + "\n"; d.kind = "too many columns announced"; break;
      case 2: { static const char* big[] = {"-1", "-4", "4294967296", "4294967297", "2147483647", "-9223372036854775808", "9223372036854775807", "1000000000000", "99999999999999999999", "65536", "abc", "", "[1]", "{a: 1}", "1.5"};
        (r.chance(0.5) ? rowsKey : colsKey) = std::string(r.chance(0.5) ? "rows: " : "cols: ") + big[r.below(15)] + "\n"; d.kind = "absurd size"; break; }
      case 3: rowsKey = ""; d.kind = "no rows"; break;
      case 4: colsKey = ""; d.kind = "no cols"; break;
      case 5: noData = true; d.kind = "no data"; break;
      case 6: mapData = true; d.kind = "data is a map"; break;
      case 7: scalarData = true; d.kind = "data is a scalar"; break;
      case 8: { auto& c = cells[r.below(d.rows)]; c[r.below(d.cols)] = r.chance(0.5) ? "abc" : "{x: 1}"; d.kind = "an entry is no number"; break; }
      case 9: if (linear) { cells[r.below(d.rows)].push_back("5"); } else { cells[r.below(d.rows)].push_back("5"); nestSingles = true; } d.kind = "a row too long"; break;
      case 10: if (d.cols > 1) cells[r.below(d.rows)].pop_back(); else { cells.pop_back(); } d.kind = "a row too short"; break;
      default: { int k = d.rows; d.kind = "sizes swapped or zero"; if (r.chance(0.5)) { rowsKey = "rows: 0\n"; } else if (d.rows != d.cols) { rowsKey = "rows: " + num(d.cols) + "\n"; colsKey = "cols: " + num(k) + "\n"; if (linear || (d.cols == 1 && !nestSingles)) { d.wellFormed = true; nestSingles = false; } else if (nestSingles) d.kind = "ambiguous"; } else colsKey = "cols: 0\n"; }
    }
    // A linear document with swapped sizes is a well-formed one of the other shape.
    if (d.kind == "sizes swapped or zero" && d.wellFormed) { std::swap(d.rows, d.cols); }
  }
  std::string data = "[";
  for (size_t i = 0; i < cells.size(); ++i) {
    if (i) data += ", ";
    const bool bare = linear || (cols0 == 1 && !nestSingles && cells[i].size() == 1);
    if (!bare) data += "[";
    if (linear && nestSingles) data += "[";
    for (size_t j = 0; j < cells[i].size(); ++j) data += (j ? ", " : "") + cells[i][j];
    if (linear && nestSingles) data += "]";
    if (!bare) data += "]";
  }
  data += "]";
  if (mapData) data = "{a: 1, b: 2}";
  if (scalarData) data = "17";
  d.text = rowsKey + colsKey + (noData ? "" : "data: " + data + "\n");
  return d;
}
template <typename M> void shape(Rng& r, const Doc& d, const char* name) {
  const std::string K = std::string("shape:") + name;
  const bool fits = (M::RowsAtCompileTime == Eigen::Dynamic || M::RowsAtCompileTime == d.rows) && (M::ColsAtCompileTime == Eigen::Dynamic || M::ColsAtCompileTime == d.cols);
  vf::detail(d.kind + " as " + name + "\n" + d.text);
  M m = make<M>(r, M::RowsAtCompileTime == Eigen::Dynamic ? 2 : M::RowsAtCompileTime, M::ColsAtCompileTime == Eigen::Dynamic ? 2 : M::ColsAtCompileTime);
  YAML::Node n;
  if (vf::guarded([&] { n = YAML::Load(d.text); }) != vf::kOk) return;
  YAML::Node outer; outer["m"] = n;
  bool ok = false;
  // Misshapen input is refused by answer, exception or CHECK.
  vf::Outcome o = vf::guarded([&] { ok = YAML::safeGet(outer, "m", &m); });
  const bool accepted = o == vf::kOk && ok;
  if (d.wellFormed && fits) {
    VF_EXPECT(accepted, K + ":refused", "a well-formed matrix is refused (%s)\n%s", vf::outcomeName(o), d.text.c_str());
    if (accepted) {
      bool same = m.rows() == d.rows && m.cols() == d.cols;
      for (int i = 0; same && i < d.rows; ++i) for (int j = 0; j < d.cols; ++j) same = same && m(i, j) == static_cast<typename M::Scalar>(d.values[i * d.cols + j]);
      VF_EXPECT(same, K + ":value", "decoded wrongly\n%s", d.text.c_str());
    }
    vf::count("well_formed");
  } else {
    VF_EXPECT(!accepted, K + ":accepted", "%s, yet accepted as %dx%d\n%s", d.wellFormed ? "of another size" : d.kind.c_str(), (int)m.rows(), (int)m.cols(), d.text.c_str());
    vf::count("malformed");
  }
  VF_EXPECT(m.rows() >= 0 && m.cols() >= 0 && m.size() < (1 << 20), K + ":target", "target has size %lldx%lld", (long long)m.rows(), (long long)m.cols());
  double s = 0; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) s += static_cast<double>(m(i, j));
  m.setZero();
  vf::evaluated(vf::hashStr(d.text + name), true, d.wellFormed ? "" : (vf::State::get().samples.size() < 8 ? d.kind + ": " + d.text : ""));
}
void shapes(Rng& r, uint64_t i) {
  Doc d = document(r);
  while (d.kind == "ambiguous") d = document(r);
  switch (i % 6) {
    case 0: shape<Eigen::MatrixXd>(r, d, "MatrixXd"); break;
    case 1: shape<Eigen::Matrix<double, 3, 2>>(r, d, "Matrix<3,2>"); break;
    case 2: shape<Eigen::VectorXd>(r, d, "VectorXd"); break;
    case 3: shape<Eigen::Matrix<float, 1, Eigen::Dynamic>>(r, d, "RowVector"); break;
    case 4: shape<Eigen::Matrix<int, 2, Eigen::Dynamic>>(r, d, "Matrix2Xi"); break;
    default: shape<Eigen::Vector3d>(r, d, "Vector3d");
  }
}

// Arbitrary text never does harm.
struct Plain : public aslam::YamlFileSerializable {
  Eigen::MatrixXd m; std::string s;
  void serialize(YAML::Node* n) const override { (*n)["m"] = m; (*n)["s"] = s; }
  bool deserialize(const YAML::Node& n) override { return YAML::safeGet(n, "m", &m) && YAML::safeGet(n, "s", &s); }
};
std::string garble(Rng& r, std::string s) {
  const int n = 1 + static_cast<int>(r.below(6));
  for (int i = 0; i < n && !s.empty(); ++i) switch (r.below(5)) {
    case 0: s.resize(r.below(s.size() + 1)); break;
    case 1: s[r.below(s.size())] = "[]{}:,-\n #&*!|>'\"%@`0123"[r.below(25)]; break;
    case 2: s.insert(r.below(s.size() + 1), 1, "[]{}:,-\n #&*!|>'\"%@`0123"[r.below(25)]); break;
    case 3: s[r.below(s.size())] = static_cast<char>(r.next()); break;
    default: s.erase(r.below(s.size()), 1 + r.below(4));
  }
  return s;
}
void garbled(Rng& r, uint64_t i) {
  Plain p;
  p.m = makeAny<Eigen::MatrixXd>(r);
  p.s = "text";
  YAML::Node n; p.serialize(&n);
  std::stringstream text; text << n;
  std::string s = r.chance(0.1) ? "" : garble(r, text.str());
  vf::detail(s);
  const std::string f = dir() + "/g.yaml";
  { std::ofstream out(f); out << s; }
  Plain q;
  bool ok = false;
  vf::Outcome o = vf::guarded([&] { ok = q.deserializeFromFile(f); });
  VF_EXPECT(q.m.size() < (1 << 20), "garbled:target", "matrix of %lld entries", (long long)q.m.size());
  double sum = q.m.size() ? q.m.sum() : 0; (void)sum;
  Eigen::MatrixXd l;
  vf::guarded([&] { YAML::Load(f, &l); });
  if (i % 16 == 0) {
    unlink(f.c_str());
    bool a = true, b = true;
    if (vf::mustReturn("missing-file", "deserializeFromFile", [&] { a = q.deserializeFromFile(f); b = YAML::Load(f, &l); })) VF_EXPECT(!a && !b, "missing-file", "reading a missing file succeeds");
    bool c = true;
    if (vf::mustReturn("missing-dir", "Save", [&] { c = YAML::Save(p.m, dir() + "/no/such/dir/f.yaml"); })) VF_EXPECT(!c, "missing-dir", "saving into a missing directory succeeds");
  }
  unlink(f.c_str());
  vf::count(o == vf::kOk && ok ? "garbled_accepted" : "garbled_refused");
  vf::evaluated(vf::hashStr(s), true);
}
void files(Rng& r, uint64_t) {
  Plain p, q;
  p.m = makeAny<Eigen::MatrixXd>(r);
  static const char* sv[] = {"x", "", "null", "~", "a: b", "x\ny", " lead", "# no", "- a", "\"q\"", "1e3", "true"};
  p.s = sv[r.below(12)];
  const std::string f = dir() + "/p.yaml";
  if (r.chance(0.5)) { std::ofstream junk(f); junk << std::string(20000, 'x'); }
  bool ok = false;
  if (vf::mustReturn("file", "serializeToFile/deserializeFromFile", [&] { p.serializeToFile(f); ok = q.deserializeFromFile(f); }))
    VF_EXPECT(ok && sameMat(p.m, q.m) && p.s == q.s, "file", "file round trip changes the object (%d)", ok);
  unlink(f.c_str());
  vf::Outcome o = vf::guarded([&] { p.serializeToFile(dir() + "/no/such/file"); });
  VF_EXPECT(o != vf::kOk, "file:unwritable", "writing into a missing directory returns");
  vf::evaluated(vf::hashBytes(p.m.data(), p.m.size() * 8, vf::hashStr(p.s)), true);
}

// ---- C12 -------------------------------------------------------------------
class TestSensor : public aslam::Sensor {
 public:
  TestSensor() {}
  explicit TestSensor(const aslam::SensorId& id) : Sensor(id) {}
  TestSensor(const aslam::SensorId& id, const std::string& t) : Sensor(id, t) {}
  TestSensor(const aslam::SensorId& id, const std::string& t, const std::string& d) : Sensor(id, t, d) {}
  aslam::Sensor::Ptr cloneAsSensor() const override { return aslam::Sensor::Ptr(new TestSensor(*this)); }
  uint8_t getSensorType() const override { return type; }
  std::string getSensorTypeString() const override { return "TEST"; }
  uint8_t type = aslam::kUnknown;
  int setting = 7;
  mutable int impl_calls = 0;
 private:
  bool isValidImpl() const override { return setting >= 0; }
  void setRandomImpl() override { setting = rand() % 100; }
  bool isEqualImpl(const aslam::Sensor& o, const bool) const override { ++impl_calls; return setting == dynamic_cast<const TestSensor&>(o).setting; }
  bool loadFromYamlNodeImpl(const YAML::Node& n) override { return YAML::safeGet(n, "setting", &setting); }
  void saveToYamlNodeImpl(YAML::Node* n) const override { (*n)["setting"] = setting; }
};
std::string label(Rng& r) {
  static const char* sv[] = {"", "/cam0/image_raw", "null", "~", "a: b", "two\nlines", " lead", "trail ", "# no", "- a", "\"q\"", "1e3", "0x10", "true", "\xc3\xa9", "tab\there", "{a}", "[b]", "&x", "*y", "!t", "|", ">", "%", "@", "`", "'", "a'b", "back\\slash"};
  if (r.chance(0.5)) return sv[r.below(29)];
  std::string s; size_t n = r.below(20); for (size_t i = 0; i < n; ++i) s += static_cast<char>(r.range(32, 126)); return s;
}
void sensorRoundTrip(Rng& r, uint64_t i) {
  aslam::SensorId id; aslam::generateId(&id);
  const std::string t = label(r), d = label(r);
  vf::detail("topic '" + t + "' description '" + d + "'");
  TestSensor a(id, t, d);
  a.setting = static_cast<int>(r.below(50));
  VF_EXPECT(a.getId() == id && a.getTopic() == t && a.getDescription() == d, "sensor:construct", "settings differ from those given");
  VF_EXPECT(TestSensor(id).getId() == id && TestSensor(id, t).getTopic() == t && TestSensor(id, t).getId() == id, "sensor:construct", "settings differ from those given");
  TestSensor b;
  VF_EXPECT(b.getId().isValid() && b.getId() != id, "sensor:default", "default id");
  b.setTopic("old topic"); b.setDescription("old"); b.setting = 99;
  YAML::Node n;
  bool ok = false;
  if (!vf::mustReturn("sensor:write", "serialize", [&] { a.serialize(&n); })) return;
  const int route = static_cast<int>(r.below(3));
  if (!vf::mustReturn("sensor:read", "deserialize", [&] {
        if (route == 0) ok = b.deserialize(n);
        else if (route == 1) { std::stringstream s; s << n; ok = b.deserialize(YAML::Load(s.str())); }
        else { const std::string f = dir() + "/s.yaml"; a.serializeToFile(f); ok = b.deserializeFromFile(f); unlink(f.c_str()); }
      })) return;
  VF_EXPECT(ok, "sensor:read", "reading back fails");
  VF_EXPECT(b.getId() == id, "sensor:id", "id %s became %s", id.hexString().c_str(), b.getId().hexString().c_str());
  VF_EXPECT(b.getTopic() == t, "sensor:topic", "topic became '%s'", b.getTopic().c_str());
  VF_EXPECT(b.getDescription() == d, "sensor:description", "description became '%s'", b.getDescription().c_str());
  VF_EXPECT(b.setting == a.setting, "sensor:own", "the sensor's own part was not read");
  VF_EXPECT(a == b && b == a && !(a != b) && a.isEqual(b), "sensor:equal", "read sensor differs from the original");
  VF_EXPECT(n["sensor_type"].as<std::string>() == "TEST", "sensor:type", "type entry");
  TestSensor c(a), e;
  e = a;
  VF_EXPECT(static_cast<aslam::Sensor&>(c) == a && e.getId() == id && e.getTopic() == t && e.getDescription() == d, "sensor:copy", "copies differ");
  aslam::Sensor::Ptr cl = a.cloneAsSensor();
  VF_EXPECT(*cl == a, "sensor:clone", "clone differs");
  vf::evaluated(vf::hashStr(t + "\1" + d), !t.empty() || !d.empty(), i < 3 ? "topic '" + t + "' description '" + d + "'" : "");
}
void sensorEquality(Rng& r, uint64_t) {
  aslam::SensorId id; aslam::generateId(&id);
  const std::string t = label(r), d = label(r);
  TestSensor a(id, t, d), b(id, t, d);
  int changed = 0;
  if (r.chance(0.5)) {
    const int what = static_cast<int>(r.below(5));
    changed = 1 + what;
    if (what == 0) {
      uint64_t w[2]; aslam::HashId h; id.toHashId(&h); h.toUint64(w);
      w[r.below(2)] ^= 1ull << r.below(64);
      if (!w[0] && !w[1]) w[0] = 1;
      aslam::SensorId o; o.fromHashId(aslam::HashId(w)); b.setId(o);
    } else if (what <= 2) {
      // longer, shorter, or with one character changed
      std::string o = what == 1 ? t : d;
      const int how = static_cast<int>(r.below(4));
      if (how == 0 || o.empty()) o += "x";
      else if (how == 1) o += " ";
      else if (how == 2) o.pop_back();
      else o[r.below(o.size())] ^= 1;
      if (what == 1) b.setTopic(o); else b.setDescription(o);
    }
    else if (what == 3) b.type = aslam::kCamera;
    else b.setting = 8;
  }
  VF_EXPECT((a == b) == (changed == 0) && (b == a) == (changed == 0) && (a != b) == (changed != 0), vf::fmt("sensor:equality:%d", changed), "equality of sensors that %s", changed ? "differ" : "agree");
  const bool verbose = r.chance(0.5);
  VF_EXPECT(a.isEqual(b, verbose) == (changed == 0) && b.isEqual(a, verbose) == (changed == 0) && a.isEqual(b) == (changed == 0), vf::fmt("sensor:equality:%d", changed), "isEqual (with report: %d) of sensors that %s", verbose, changed ? "differ" : "agree");
  TestSensor v(a);
  v.setting = r.chance(0.5) ? 3 : -3;
  VF_EXPECT(v.isValid() == (v.setting >= 0), "sensor:valid", "validity");
  const aslam::SensorId before = v.getId();
  v.setRandom();
  VF_EXPECT(v.getId().isValid() && v.getId() != before, "sensor:random", "id after setRandom");
  vf::evaluated(vf::hashStr(t + d) ^ changed, true);
}
void sensorMalformed(Rng& r, uint64_t) {
  aslam::SensorId id; aslam::generateId(&id);
  TestSensor a(id, "topic", "desc");
  YAML::Node n; a.serialize(&n);
  TestSensor b;
  const aslam::SensorId own = b.getId();
  b.setTopic("mine"); b.setDescription("own");
  const int kind = static_cast<int>(r.below(9));
  vf::detail(vf::fmt("kind %d", kind));
  bool ok = false;
  switch (kind) {
    case 0: { static const char* bad[] = {"", "xyz", "0123", "00000000000000000000000000000000", "0123456789abcdef0123456789abcdeg", "0123456789abcdef0123456789abcdef0"};
      n["id"] = bad[r.below(6)];
      vf::Outcome o = vf::guarded([&] { ok = b.deserialize(n); });
      VF_EXPECT(o != vf::kOk || !ok, "sensor:bad-id", "id '%s' accepted", n["id"].as<std::string>().c_str());
      break; }
    case 1: n.remove("id");
      if (vf::mustReturn("sensor:no-id", "deserialize", [&] { ok = b.deserialize(n); })) {
        VF_EXPECT(ok && b.getId().isValid() && b.getId() != id && b.getId() != own, "sensor:no-id", "no fresh valid id");
        VF_EXPECT(b.getTopic() == "topic" && b.getDescription() == "desc", "sensor:no-id", "other settings not read");
      }
      break;
    case 2: n.remove("topic");
      if (vf::mustReturn("sensor:no-topic", "deserialize", [&] { ok = b.deserialize(n); })) VF_EXPECT(ok && b.getId() == id && b.getTopic() == "mine" && b.getDescription() == "desc", "sensor:no-topic", "settings after reading without topic");
      break;
    case 3: n.remove("description");
      if (vf::mustReturn("sensor:no-description", "deserialize", [&] { ok = b.deserialize(n); })) VF_EXPECT(ok && b.getId() == id && b.getTopic() == "topic" && b.getDescription() == "own", "sensor:no-description", "settings after reading without description");
      break;
    case 4: n.remove("setting");
      if (vf::mustReturn("sensor:no-own", "deserialize", [&] { ok = b.deserialize(n); })) VF_EXPECT(!ok, "sensor:no-own", "missing entry of the derived sensor not reported");
      break;
    case 5: { YAML::Node null; if (vf::mustReturn("sensor:null", "deserialize", [&] { ok = b.deserialize(null); })) VF_EXPECT(!ok && b.getId() == own, "sensor:null", "null node accepted"); break; }
    case 6: { YAML::Node seq; seq.push_back(1); if (vf::mustReturn("sensor:sequence", "deserialize", [&] { ok = b.deserialize(seq); })) VF_EXPECT(!ok && b.getId() == own, "sensor:sequence", "sequence accepted"); break; }
    case 7: if (vf::mustReturn("sensor:scalar", "deserialize", [&] { ok = b.deserialize(YAML::Node("text")); })) VF_EXPECT(!ok && b.getId() == own, "sensor:scalar", "scalar accepted"); break;
    default: { YAML::Node l; l.push_back("x"); n["setting"] = l; vf::Outcome o = vf::guarded([&] { ok = b.deserialize(n); }); VF_EXPECT(o != vf::kOk || !ok, "sensor:bad-own", "malformed entry accepted"); }
  }
  if (kind >= 5 && kind <= 7) VF_EXPECT(b.getTopic() == "mine", "sensor:untouched", "a refused node changed the topic");
  vf::evaluated(vf::mix(r.next()), true);
  vf::count(vf::fmt("malformed_kind_%d", kind));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  mkdir(dir().c_str(), 0755);
  if (vf::opts().property == "C11") {
    vf::part("round-trip", vf::scale(5000, 300000), roundTrips);
    vf::part("shape", vf::scale(20000, 800000), shapes);
    vf::part("garbled", vf::scale(4000, 300000), garbled);
    vf::part("file", vf::scale(400, 10000), files);
  } else {
    vf::part("round-trip", vf::scale(4000, 100000), sensorRoundTrip);
    vf::part("equality", vf::scale(6000, 200000), sensorEquality);
    vf::part("malformed", vf::scale(4000, 100000), sensorMalformed);
  }
  return vf::finish();
}
