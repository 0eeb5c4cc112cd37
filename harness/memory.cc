// C30: hashing, cloning and allocation helpers.
// A larger Eigen alignment than the one malloc gives anyway makes containers
// that do not align visible.
#define EIGEN_MAX_ALIGN_BYTES 64
#define EIGEN_MAX_STATIC_ALIGN_BYTES 64
#include "vf.h"
#include <aslam/common/crtp-clone.h>
#include <aslam/common/eigen-hash.h>
#include <aslam/common/memory.h>
#include <deque>
#include <list>
#include <typeinfo>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <Eigen/StdDeque>
#include <Eigen/StdList>

using vf::Rng;

namespace {
template <typename M> struct Less {
  bool operator()(const M& a, const M& b) const {
    if (a.rows() != b.rows()) return a.rows() < b.rows();
    if (a.cols() != b.cols()) return a.cols() < b.cols();
    for (int i = 0; i < a.size(); ++i) if (a.data()[i] != b.data()[i]) return a.data()[i] < b.data()[i];
    return false;
  }
};
template <typename M> M someMatrix(Rng& r, int rows, int cols, int spread) {
  M m(rows, cols);
  for (int i = 0; i < m.size(); ++i) {
    typedef typename M::Scalar S;
    m.data()[i] = r.chance(0.05) ? (r.chance(0.5) ? std::numeric_limits<S>::max() : std::numeric_limits<S>::lowest()) : static_cast<S>(r.range(-spread, spread));
    if (r.chance(0.1)) m.data()[i] = static_cast<S>(-static_cast<S>(0));
  }
  return m;
}

// Hash containers behave as the ordered ones.
template <typename M> void hashed(Rng& r, const char* name, bool dynamic) {
  const int spread = r.chance(0.7) ? 1 + static_cast<int>(r.below(3)) : 100;
  const int rows = dynamic && M::RowsAtCompileTime == Eigen::Dynamic ? 1 + static_cast<int>(r.below(3)) : M::RowsAtCompileTime;
  const int cols = dynamic && M::ColsAtCompileTime == Eigen::Dynamic ? 1 + static_cast<int>(r.below(3)) : M::ColsAtCompileTime;
  AlignedUnorderedMap<M, int> um;
  AlignedUnorderedSet<M> us;
  AlignedUnorderedMultimap<M, int> mm;
  std::map<M, int, Less<M>> model;
  std::map<M, int, Less<M>> counts;
  std::set<size_t> hashes;
  uint64_t sum = 0;
  const int n = 5 + static_cast<int>(r.below(120));
  vf::detail(vf::fmt("%d operations on containers keyed by %s of %dx%d, entries within %d", n, name, rows, cols, spread));
  for (int i = 0; i < n; ++i) {
    const M k = someMatrix<M>(r, rows, cols, spread), copy(k);
    const M neg = k * 1;
    VF_EXPECT(std::hash<M>()(k) == std::hash<M>()(copy) && std::hash<M>()(k) == std::hash<M>()(neg), "hash:equal", "equal %s hash differently", name);
    M flipped = k;  // 0 and -0 compare equal
    for (int j = 0; j < k.size(); ++j) if (flipped.data()[j] == 0) flipped.data()[j] = -flipped.data()[j];
    VF_EXPECT(!(flipped == k) || std::hash<M>()(k) == std::hash<M>()(flipped), "hash:zeros", "equal %s with zeros of both signs hash differently", name);
    hashes.insert(std::hash<M>()(k));
    switch (r.below(4)) {
      case 0: um.erase(k); us.erase(k); model.erase(k); mm.erase(k); counts.erase(k); break;
      case 1: {
        const bool expect = model.count(k) == 1;
        VF_EXPECT((um.count(k) == 1) == expect && (us.count(k) == 1) == expect, "hash:lookup", "key %sfound in the reference only %s", expect ? "" : "not ", name);
        break;
      }
      default: um[k] = i; us.insert(k); model[k] = i; mm.emplace(k, i); ++counts[k]; break;
    }
    sum = vf::hashBytes(k.data(), k.size() * sizeof(typename M::Scalar), sum);
  }
  VF_EXPECT(um.size() == model.size() && us.size() == model.size(), "hash:size", "%zu and %zu entries, expected %zu", um.size(), us.size(), model.size());
  for (auto& e : model) {
    auto it = um.find(e.first);
    VF_EXPECT(it != um.end() && it->second == e.second && us.count(e.first) == 1, "hash:find", "an entry keyed by %s is lost or wrong", name);
  }
  for (auto& e : counts) VF_EXPECT(static_cast<int>(mm.count(e.first)) == e.second, "hash:multimap", "%zu entries under a key, expected %d", mm.count(e.first), e.second);
  for (auto& e : um) VF_EXPECT(reinterpret_cast<uintptr_t>(&e.first) % alignof(M) == 0, "align:hash map", "a key of %s at %p", name, static_cast<const void*>(&e.first));
  for (auto& e : us) VF_EXPECT(reinterpret_cast<uintptr_t>(&e) % alignof(M) == 0, "align:hash set", "an element of %s at %p", name, static_cast<const void*>(&e));
  for (auto& e : mm) VF_EXPECT(reinterpret_cast<uintptr_t>(&e.first) % alignof(M) == 0, "align:hash multimap", "a key of %s at %p", name, static_cast<const void*>(&e.first));
  vf::evaluated(sum, model.size() > 1, "");
  vf::maxOf("distinct hashes in one container", static_cast<double>(hashes.size()));
  vf::count("keys hashed", n);
}
void hashes(Rng& r, uint64_t index) {
  switch (index % 9) {
    case 0: hashed<Eigen::Vector2i>(r, "Vector2i", false); break;
    case 1: hashed<Eigen::Vector3i>(r, "Vector3i", false); break;
    case 2: hashed<Eigen::Matrix<int, 4, 1>>(r, "Vector4i", false); break;
    case 3: hashed<Eigen::Matrix<int, 4, 4>>(r, "Matrix4i", false); break;
    case 4: hashed<Eigen::MatrixXi>(r, "MatrixXi", true); break;
    case 5: hashed<Eigen::VectorXi>(r, "VectorXi", true); break;
    case 6: hashed<Eigen::Matrix<int64_t, 2, 2>>(r, "2x2 of 64-bit", false); break;
    case 7: hashed<Eigen::Vector4d>(r, "Vector4d", false); break;
    default: hashed<Eigen::Matrix<int16_t, 2, 1>>(r, "2 of 16-bit", false); break;
  }
}
// Distinct small keys must not all collide, or containers degrade to lists.
void spread(Rng&, uint64_t) {
  std::map<size_t, int> buckets;
  int worst = 0, total = 0;
  for (int x = -40; x <= 40; ++x) for (int y = -40; y <= 40; ++y) { ++total; worst = std::max(worst, ++buckets[std::hash<Eigen::Vector2i>()(Eigen::Vector2i(x, y))]); }
  vf::detail("81x81 points of a grid");
  VF_EXPECT(worst <= total / 100, "hash:spread", "%d of %d points share a hash", worst, total);
  vf::maxOf("points sharing a hash", worst);
  vf::evaluated(buckets.size());
}

// ---------------------------------------------------------------------------
struct Counters { int alive = 0, made = 0; };
Counters& live() { static Counters c; return c; }

struct Vehicle {
  Vehicle(int speed, const std::string& n) : speed(speed), name(n) { ++live().alive; }
  Vehicle(const Vehicle& o) : speed(o.speed), name(o.name), load(o.load) { ++live().alive; }
  virtual ~Vehicle() { --live().alive; }
  virtual Vehicle* clone() const = 0;
  virtual int wheels() const = 0;
  int speed;
  std::string name;
  std::vector<int> load;
};
struct Car : public aslam::Cloneable<Vehicle, Car> {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Car(int s, const std::string& n, double c) : Base(s, n) { colour.setConstant(c); }
  int wheels() const override { return 4; }
  Eigen::Matrix4d colour;
};
struct Van : public aslam::Cloneable<Car, Van> {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Van(int s, const std::string& n, double c) : Base(s, n, c), doors(5) {}
  int wheels() const override { return 6; }
  int doors;
};
struct Bike : public aslam::Cloneable<Vehicle, Bike> {
  using Base::Base;
  int wheels() const override { return 2; }
};

void clones(Rng& r, uint64_t index) {
  const int before = live().alive;
  {
    std::unique_ptr<Vehicle> v;
    const int kind = static_cast<int>(r.below(3)), speed = static_cast<int>(r.range(-1000, 1000));
    const std::string name(r.below(40), 'x');
    const double c = r.uni();
    if (kind == 0) v.reset(new Car(speed, name, c));
    if (kind == 1) { Van* van = new Van(speed, name, c); van->doors = static_cast<int>(r.below(9)); v.reset(van); }
    if (kind == 2) v.reset(new Bike(speed, name));
    for (size_t i = r.below(20); i > 0; --i) v->load.push_back(static_cast<int>(r.below(100)));
    vf::detail(vf::fmt("cloning a %s", kind == 0 ? "car" : kind == 1 ? "van" : "bike"));
    std::unique_ptr<Vehicle> w;
    if (!vf::mustReturn("clone:returns", "cloning", [&] { w.reset(v->clone()); })) return;
    const int generations = static_cast<int>(r.below(4));
    for (int g = 0; g < generations; ++g) vf::mustReturn("clone:returns", "cloning a clone", [&] { w.reset(w->clone()); });
    VF_EXPECT(w && w.get() != v.get(), "clone:distinct", "the clone is the object itself");
    const Vehicle& vr = *v;
    const Vehicle& wr = *w;
    VF_EXPECT(typeid(vr) == typeid(wr), "clone:type", "a %s was cloned into a %s", typeid(vr).name(), typeid(wr).name());
    VF_EXPECT(w->speed == speed && w->name == name && w->load == v->load && w->wheels() == v->wheels(), "clone:equal", "the clone differs");
    const Car *ca = dynamic_cast<Car*>(v.get()), *cb = dynamic_cast<Car*>(w.get());
    if (ca) {
      VF_EXPECT(cb && ca->colour == cb->colour, "clone:member", "a member of the derived type differs");
      VF_EXPECT(reinterpret_cast<uintptr_t>(cb->colour.data()) % alignof(Eigen::Matrix4d) == 0, "align:clone", "a matrix of the clone at %p", static_cast<const void*>(cb->colour.data()));
    }
    const Van *va = dynamic_cast<Van*>(v.get()), *vb = dynamic_cast<Van*>(w.get());
    if (va) VF_EXPECT(vb && va->doors == vb->doors, "clone:member", "a member of the most derived type differs");
    w->speed += 1;
    w->load.push_back(7);
    w->name += "y";
    VF_EXPECT(v->speed == speed && v->name == name && v->load.size() + 1 == w->load.size(), "clone:independent", "changing the clone changed the original");
    v.reset();
    VF_EXPECT(w->name == name + "y" && w->wheels() > 0, "clone:outlives", "the clone does not outlive the original");
    vf::evaluated(vf::hashStr(name) * 31 + speed * 3 + kind + (static_cast<uint64_t>(w->load.size()) << 40), true, index < 1 ? vf::fmt("%d wheels, %d generations", w->wheels(), generations) : "");
  }
  VF_EXPECT(live().alive == before, "clone:destroyed", "%d objects left over", live().alive - before);
}

// ---------------------------------------------------------------------------
template <typename T> bool aligned(const T* p) { return reinterpret_cast<uintptr_t>(p) % alignof(T) == 0; }
template <typename M> M value(int v) { return M::Constant(static_cast<typename M::Scalar>(v)); }

template <typename M> void grow(Rng& r, const char* name) {
  Aligned<std::vector, M> vec;
  Aligned<std::deque, M> deq;
  Aligned<std::list, M> lst;
  AlignedMap<int, M> map;
  AlignedUnorderedMap<int, M> umap;
  std::vector<int> model;
  std::map<int, int> mapModel;
  const int n = 1 + static_cast<int>(r.below(60));
  vf::detail(vf::fmt("%d operations on containers of %s", n, name));
  // Odd allocations in between, so that addresses vary.
  std::vector<std::unique_ptr<char[]>> odd;
  for (int i = 0; i < n; ++i) {
    odd.emplace_back(new char[1 + r.below(100)]);
    const int v = static_cast<int>(r.below(1000));
    switch (r.below(6)) {
      case 0: if (!model.empty()) { model.pop_back(); vec.pop_back(); deq.pop_back(); lst.pop_back(); } break;
      case 1: vec.shrink_to_fit(); break;
      case 2: vec.insert(vec.begin(), value<M>(v)); deq.push_front(value<M>(v)); lst.push_front(value<M>(v)); model.insert(model.begin(), v); break;
      case 3: vec.reserve(vec.size() + r.below(20)); break;
      default: vec.push_back(value<M>(v)); deq.push_back(value<M>(v)); lst.push_back(value<M>(v)); model.push_back(v); break;
    }
    const int key = static_cast<int>(r.below(20));
    if (r.chance(0.3)) { map.erase(key); umap.erase(key); mapModel.erase(key); }
    else { map[key] = value<M>(v); umap[key] = value<M>(v); mapModel[key] = v; }
  }
  Aligned<std::vector, M> copy(vec), moved(std::move(copy));
  VF_EXPECT(vec.size() == model.size() && deq.size() == model.size() && lst.size() == model.size() && moved.size() == model.size(), "container:size", "sizes %zu %zu %zu, expected %zu", vec.size(), deq.size(), lst.size(), model.size());
  auto l = lst.begin();
  for (size_t i = 0; i < model.size(); ++i, ++l) {
    VF_EXPECT(aligned(&vec[i]) && aligned(&moved[i]) && aligned(&deq[i]) && aligned(&*l), "align:sequence", "element %zu of %s at %p, %p, %p", i, name, static_cast<void*>(&vec[i]), static_cast<void*>(&deq[i]), static_cast<void*>(&*l));
    VF_EXPECT(vec[i] == value<M>(model[i]) && deq[i] == vec[i] && *l == vec[i] && moved[i] == vec[i], "container:value", "element %zu of %s differs", i, name);
  }
  VF_EXPECT(map.size() == mapModel.size() && umap.size() == mapModel.size(), "container:size", "map sizes %zu and %zu, expected %zu", map.size(), umap.size(), mapModel.size());
  for (auto& e : mapModel) {
    VF_EXPECT(map.count(e.first) && umap.count(e.first) && map[e.first] == value<M>(e.second) && umap[e.first] == value<M>(e.second), "container:value", "entry %d differs", e.first);
    VF_EXPECT(aligned(&map[e.first]) && aligned(&umap[e.first]), "align:map", "value of %s at %p and %p", name, static_cast<void*>(&map[e.first]), static_cast<void*>(&umap[e.first]));
  }
  vf::evaluated(vf::hashBytes(model.data(), model.size() * 4, vf::hashStr(name)), model.size() > 1, "");
  vf::count("aligned elements seen", model.size() * 4 + mapModel.size() * 2);
}

struct Thing {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit Thing(int v, bool fail = false) : tag(v) {
    if (fail) throw std::runtime_error("refused");
    m.setConstant(v);
    ++live().alive;
  }
  Thing(std::unique_ptr<int> p, const std::string& s, std::string& out) : tag(*p), text(s) { m.setConstant(*p); out = "seen"; ++live().alive; }
  Thing(const Thing&) = delete;
  virtual ~Thing() { --live().alive; }
  virtual int what() const { return tag; }
  int tag;
  Eigen::Matrix4d m;
  std::string text;
};
struct Other { virtual ~Other() {} virtual int other() const { return 5; } char c = 'o'; };
struct Both : public Other, public Thing {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit Both(int v) : Thing(v) {}
  int what() const override { return tag + 1; }
};
struct Plain { Eigen::Matrix4d m; int v; explicit Plain(int v) : m(value<Eigen::Matrix4d>(v)), v(v) {} };

// Everything an owner allocated is given back: the heap is as before.
void released(int v, size_t n) {
  size_t held[4];
  for (int round = 0; round < 4; ++round) {  // the first rounds may allocate things that stay
    {
      std::vector<AlignedUniquePtr<Plain>> us;
      std::vector<std::shared_ptr<Plain>> ss;
      Aligned<std::vector, Eigen::Matrix4d> ms;
      for (size_t i = 0; i < n; ++i) { us.push_back(aligned_unique<Plain>(v)); ss.push_back(aligned_shared<Plain>(v)); ms.push_back(Eigen::Matrix4d::Zero()); }
      AlignedUniquePtr<const Thing> c = aligned_unique<const Thing>(v);
      AlignedUniquePtr<Thing> t = aligned_unique<Thing>(v), b(aligned_unique<Both>(v));
      AlignedUniquePtr<Other> o(aligned_unique<Both>(v));
      std::shared_ptr<const Thing> sc = aligned_shared<const Thing>(v);
      std::shared_ptr<Thing> sb = aligned_shared<Both>(v);
      t = aligned_unique<Thing>(v + 1);
      c.reset();
    }
    held[round] = __sanitizer_get_current_allocated_bytes();
  }
  VF_EXPECT(held[2] == held[3], "owner:leak", "%zu bytes left after all owners were gone", held[3] - held[2]);
  vf::count("rounds of owners with the heap measured");
}

void owners(Rng& r, uint64_t index) {
  if (index % 20 == 0) released(static_cast<int>(r.below(100)), r.below(6));
  const int before = live().alive, v = static_cast<int>(r.below(1000));
  const int kind = static_cast<int>(index % 7);
  static const char* names[] = {"shared and unique", "forwarded arguments", "constant objects", "a failing constructor", "a derived object", "a second base", "plain structures"};
  vf::detail(vf::fmt("%s, value %d", names[kind], v));
  vf::mustReturn("owner:returns", names[kind], [&] {
    switch (kind) {
      case 0: {
        std::shared_ptr<Thing> s = aligned_shared<Thing>(v), t = s;
        AlignedUniquePtr<Thing> u = aligned_unique<Thing>(v), w;
        VF_EXPECT(aligned(s.get()) && aligned(u.get()), "align:owner", "objects at %p and %p", static_cast<void*>(s.get()), static_cast<void*>(u.get()));
        VF_EXPECT(s->tag == v && s->m == value<Eigen::Matrix4d>(v) && u->tag == v && u->m == s->m, "owner:value", "another value");
        VF_EXPECT(live().alive == before + 2, "owner:count", "%d objects", live().alive - before);
        w = std::move(u);
        VF_EXPECT(!u && w && w->tag == v, "owner:move", "moving an owner lost the object");
        s.reset();
        VF_EXPECT(t->tag == v && live().alive == before + 2, "owner:share", "a shared object went away");
        t.reset();
        w.reset();
        break;
      }
      case 1: {
        std::string a, b;
        std::shared_ptr<Thing> s = aligned_shared<Thing>(std::unique_ptr<int>(new int(v)), "text", a);
        AlignedUniquePtr<Thing> u = aligned_unique<Thing>(std::unique_ptr<int>(new int(v)), "text", b);
        VF_EXPECT(s->tag == v && u->tag == v && s->text == "text" && u->text == "text" && a == "seen" && b == "seen", "owner:forward", "arguments were not handed on");
        break;
      }
      case 2: {
        std::shared_ptr<const Thing> s = aligned_shared<const Thing>(v);
        AlignedUniquePtr<const Plain> u = aligned_unique<const Plain>(v);
        VF_EXPECT(s->tag == v && u->v == v && aligned(s.get()) && aligned(u.get()), "owner:const", "constant objects differ");
        break;
      }
      case 3: {
        bool a = false, b = false;
        size_t held[3];
        for (int round = 0; round < 3; ++round) {  // the first may allocate things that stay
          try { aligned_shared<Thing>(v, true); } catch (const std::runtime_error&) { a = true; }
          try { aligned_unique<Thing>(v, true); } catch (const std::runtime_error&) { b = true; }
          held[round] = __sanitizer_get_current_allocated_bytes();
        }
        VF_EXPECT(held[1] == held[2], "owner:leak", "%zu bytes left after a constructor threw", held[2] - held[1]);
        VF_EXPECT(a && b, "owner:throw", "the exception of a constructor did not arrive");
        break;
      }
      case 4: {
        std::shared_ptr<Thing> s = aligned_shared<Both>(v);
        VF_EXPECT(s->what() == v + 1 && aligned(s.get()), "owner:derived", "the derived object differs");
        AlignedUniquePtr<Both> d = aligned_unique<Both>(v);
        AlignedUniquePtr<Other> u(std::move(d));
        VF_EXPECT(u->other() == 5, "owner:derived", "the derived object differs");
        break;
      }
      case 5: {
        AlignedUniquePtr<Thing> u(aligned_unique<Both>(v));
        VF_EXPECT(u->what() == v + 1 && aligned(u.get()), "owner:second base", "the derived object differs");
        break;
      }
      default: {
        std::vector<AlignedUniquePtr<Plain>> us;
        std::vector<std::shared_ptr<Plain>> ss;
        for (int i = 0; i < 8; ++i) { us.push_back(aligned_unique<Plain>(v + i)); ss.push_back(aligned_shared<Plain>(v + i)); }
        us.erase(us.begin() + r.below(8));
        for (auto& u : us) VF_EXPECT(aligned(u.get()) && u->m == value<Eigen::Matrix4d>(u->v), "align:owner", "object at %p", static_cast<void*>(u.get()));
        for (auto& s : ss) VF_EXPECT(aligned(s.get()) && s->m == value<Eigen::Matrix4d>(s->v), "align:owner", "object at %p", static_cast<void*>(s.get()));
        break;
      }
    }
  });
  VF_EXPECT(live().alive == before, "owner:destroyed", "%d objects left over after %s", live().alive - before, names[kind]);
  vf::evaluated(v * 7 + kind, true, index < 7 ? names[kind] : "");
}
void containers(Rng& r, uint64_t index) {
  switch (index % 6) {
    case 0: grow<Eigen::Vector2d>(r, "Vector2d"); break;
    case 1: grow<Eigen::Vector4d>(r, "Vector4d"); break;
    case 2: grow<Eigen::Matrix4d>(r, "Matrix4d"); break;
    case 3: grow<Eigen::Matrix4f>(r, "Matrix4f"); break;
    case 4: grow<Eigen::Matrix<double, 8, 1>>(r, "8 doubles"); break;
    default: grow<Eigen::Vector3d>(r, "Vector3d"); break;
  }
}
}  // namespace

static_assert(alignof(Eigen::Matrix4d) == 64, "alignment is not enlarged");
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("hashes", vf::scale(6000, 100000), hashes);
  vf::part("spread", 1, spread);
  vf::part("clones", vf::scale(10000, 200000), clones);
  vf::part("containers", vf::scale(3000, 60000), containers);
  vf::part("owners", vf::scale(7000, 100000), owners);
  return vf::finish();
}
