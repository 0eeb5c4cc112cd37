// C13: container helpers agree with their plain definitions.
#include "vf.h"
#include <list>
#include <deque>
#include <memory>
#include <aslam/common/stl-helpers.h>
#include <aslam/common/predicates.h>

using vf::Rng;
namespace sh = aslam::common::stl_helpers;

namespace {
std::vector<size_t> pickIndices(Rng& r, size_t n) {
  std::vector<size_t> idx;
  const int style = static_cast<int>(r.below(7));
  for (size_t i = 0; i < n; ++i) {
    bool in;
    switch (style) {
      case 0: in = false; break;
      case 1: in = true; break;
      case 2: in = i == 0 || i + 1 == n; break;
      case 3: in = i < n / 2; break;
      case 4: in = i >= n / 2; break;
      case 5: in = i % 2; break;
      default: in = r.chance(0.4);
    }
    if (in) idx.push_back(i);
  }
  return idx;
}
template <typename T> std::vector<T> without(const std::vector<T>& v, const std::vector<size_t>& idx) {
  std::set<size_t> s(idx.begin(), idx.end());
  std::vector<T> o;
  for (size_t i = 0; i < v.size(); ++i) if (!s.count(i)) o.push_back(v[i]);
  return o;
}
std::string show(const std::vector<size_t>& v) {
  std::string s;
  for (size_t x : v) s += std::to_string(x) + " ";
  return s;
}
void shuffle(Rng& r, std::vector<size_t>* v) { for (size_t i = v->size(); i > 1; --i) std::swap((*v)[i - 1], (*v)[r.below(i)]); }

template <typename T> T element(size_t i) { return static_cast<T>(i * 7 + 3); }
template <> std::string element<std::string>(size_t i) { return "element number " + std::to_string(i); }
template <> std::shared_ptr<int> element<std::shared_ptr<int>>(size_t i) { return std::make_shared<int>(static_cast<int>(i)); }
template <> Eigen::Vector4d element<Eigen::Vector4d>(size_t i) { return Eigen::Vector4d(i, -1.0 * i, i + 0.5, 3); }

template <typename V> void eraseVector(Rng& r, const char* name) {
  typedef typename V::value_type T;
  const size_t n = r.below(r.chance(0.1) ? 300 : 14);
  V v;
  std::vector<T> plain;
  for (size_t i = 0; i < n; ++i) { v.push_back(element<T>(i)); plain.push_back(v.back()); }
  std::vector<size_t> idx = pickIndices(r, n);
  const std::vector<T> want = without(plain, idx);
  std::vector<size_t> given = idx;
  const bool shuffled = r.chance(0.5);
  if (shuffled) shuffle(r, &given);
  vf::detail(vf::fmt("%s of %zu elements without ", name, n) + show(given));
  const std::string K = std::string("erase:") + name;
  V out;
  if (vf::mustReturn(K, "eraseIndicesFromVector", [&] { out = aslam::common::eraseIndicesFromVector(v, given); })) {
    VF_EXPECT(std::vector<T>(out.begin(), out.end()) == want, K, "kept %zu elements, expected %zu", out.size(), want.size());
    VF_EXPECT(std::vector<T>(v.begin(), v.end()) == plain, K, "the input was changed");
  }
  V w = v;
  if (vf::mustReturn(K + ":container", "eraseIndicesFromContainer", [&] { sh::eraseIndicesFromContainer(idx, n, &w); }))
    VF_EXPECT(std::vector<T>(w.begin(), w.end()) == want, K + ":container", "kept %zu elements, expected %zu", w.size(), want.size());
  // Refusals: an index past the end, a wrong count.
  if (r.chance(0.05)) {
    std::vector<size_t> bad = idx;
    bad.push_back(n + r.below(3));
    const vf::Outcome o = vf::guarded([&] { aslam::common::eraseIndicesFromVector(v, bad); });
    VF_EXPECT(o == vf::kFatal, K + ":refuse", "an index past the end was accepted (%s)", vf::outcomeName(o));
    const vf::Outcome p = vf::guarded([&] { V x = v; sh::eraseIndicesFromContainer(idx, n + 1, &x); });
    VF_EXPECT(p == vf::kFatal, K + ":refuse", "a wrong count was accepted");
    vf::count("refusals");
  }
  vf::evaluated(vf::hashStr(show(given) + name + std::to_string(n)), !idx.empty(), vf::State::get().samples.size() < 2 ? show(given) : "");
}

template <typename M> M fill(int rows, int cols) {
  M m(rows, cols);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = static_cast<typename M::Scalar>(1000 * i + j + 1);
  return m;
}
template <typename M> M keep(const M& m, const std::vector<size_t>& idx, bool cols) {
  std::set<size_t> s(idx.begin(), idx.end());
  const int n = static_cast<int>(cols ? m.cols() : m.rows()) - static_cast<int>(s.size());
  M o(cols ? m.rows() : n, cols ? n : m.cols());
  int k = 0;
  for (int i = 0; i < (cols ? m.cols() : m.rows()); ++i) {
    if (s.count(i)) continue;
    if (cols) for (int j = 0; j < m.rows(); ++j) o(j, k) = m(j, i);
    else for (int j = 0; j < m.cols(); ++j) o(k, j) = m(i, j);
    ++k;
  }
  return o;
}
template <typename M> bool same(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!(a(i, j) == b(i, j))) return false;
  return true;
}
template <typename M> void eraseEigen(Rng& r, const char* name) {
  const bool cols = M::ColsAtCompileTime == Eigen::Dynamic;
  const int n = static_cast<int>(r.below(r.chance(0.1) ? 200 : 12));
  const M m = cols ? fill<M>(M::RowsAtCompileTime, n) : fill<M>(n, M::ColsAtCompileTime);
  std::vector<size_t> idx = pickIndices(r, n);
  vf::detail(vf::fmt("%s of %d without ", name, n) + show(idx));
  const std::string K = std::string("erase:") + name;
  M w = m;
  if (vf::mustReturn(K, "eraseIndicesFromContainer", [&] { sh::eraseIndicesFromContainer(idx, static_cast<size_t>(n), &w); }))
    VF_EXPECT(same(w, keep(m, idx, cols)), K, "wrong %s kept (%d of %d)", cols ? "columns" : "rows", (int)(cols ? w.cols() : w.rows()), n);
  if (r.chance(0.15)) {
    std::vector<size_t> bad = idx;
    bad.push_back(n + r.below(3));
    const vf::Outcome o = vf::guarded([&] { M x = m; sh::eraseIndicesFromContainer(bad, static_cast<size_t>(n), &x); });
    VF_EXPECT(o == vf::kFatal, K + ":refuse", "an index past the end was accepted");
    // The list has to be in ascending order, without repetition.
    if (idx.size() >= 2) {
      std::vector<size_t> mixed = idx;
      if (r.chance(0.5)) std::swap(mixed[0], mixed[1 + r.below(idx.size() - 1)]);
      else mixed.insert(mixed.begin() + r.below(idx.size()), mixed[r.below(idx.size())]), mixed.back() = idx.back();
      bool ascending = true;
      for (size_t i = 1; i < mixed.size(); ++i) ascending = ascending && mixed[i - 1] < mixed[i];
      if (!ascending) {
        const vf::Outcome q = vf::guarded([&] { M x = m; sh::eraseIndicesFromContainer(mixed, static_cast<size_t>(n), &x); });
        VF_EXPECT(q != vf::kOk, K + ":refuse-order", "an unordered list was accepted: %s", show(mixed).c_str());
        vf::count("unordered lists refused");
      }
    }
    vf::count("refusals");
  }
  vf::evaluated(vf::hashStr(show(idx) + name + std::to_string(n)), !idx.empty());
}
template <typename S, int DIM> void eraseAdapter(Rng& r, const char* name) {
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> M;
  const int n = static_cast<int>(r.below(12)), other = static_cast<int>(r.below(6));
  const bool cols = DIM == sh::kColumns;
  const M m = cols ? fill<M>(other, n) : fill<M>(n, other);
  std::vector<size_t> idx = pickIndices(r, n);
  vf::detail(vf::fmt("%s of %dx%d without ", name, (int)m.rows(), (int)m.cols()) + show(idx));
  const std::string K = std::string("erase:") + name;
  M w = m;
  if (vf::mustReturn(K, "eraseIndicesFromContainer", [&] {
        sh::OneDimensionAdapter<S, DIM> a(&w);
        sh::eraseIndicesFromContainer(idx, static_cast<size_t>(n), &a);
      }))
    VF_EXPECT(same(w, keep(m, idx, cols)), K, "wrong part kept: %dx%d", (int)w.rows(), (int)w.cols());
  vf::evaluated(vf::hashStr(show(idx) + name + std::to_string(n * 100 + other)), !idx.empty());
}
typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, 3> MuX3;
typedef Eigen::Matrix<double, Eigen::Dynamic, 2> MdX2;
typedef Aligned<std::vector, Eigen::Vector4d> AlignedV4;
void erase(Rng& r, uint64_t i) {
  switch (i % 12) {
    case 0: return eraseVector<std::vector<int>>(r, "vector<int>");
    case 1: return eraseVector<std::vector<std::string>>(r, "vector<string>");
    case 2: return eraseVector<std::vector<std::shared_ptr<int>>>(r, "vector<shared_ptr>");
    case 3: return eraseVector<AlignedV4>(r, "aligned vector<Vector4d>");
    case 4: return eraseEigen<Eigen::Matrix2Xd>(r, "Matrix2Xd");
    case 5: return eraseEigen<Eigen::RowVectorXi>(r, "RowVectorXi");
    case 6: return eraseEigen<Eigen::VectorXd>(r, "VectorXd");
    case 7: return eraseEigen<MuX3>(r, "MatrixX3 of bytes");
    case 8: return eraseEigen<MdX2>(r, "MatrixX2d");
    case 9: return eraseAdapter<double, sh::kColumns>(r, "columns of MatrixXd");
    case 10: return eraseAdapter<unsigned char, sh::kRows>(r, "rows of bytes");
    default: return eraseAdapter<unsigned char, sh::kColumns>(r, "columns of bytes");
  }
}

void draw(Rng& r, uint64_t) {
  const size_t size = r.chance(0.1) ? r.below(500) : r.below(20), n = r.chance(0.2) ? size + r.below(3) : r.below(size + 4);
  std::vector<std::pair<int, int>> in, a, b;
  for (size_t i = 0; i < size; ++i) in.push_back({static_cast<int>(i), static_cast<int>(i % 3)});
  const auto copy = in;
  const bool fixed = r.chance(0.6);
  vf::detail(vf::fmt("draw %zu of %zu, fixed seed %d", n, size, fixed));
  for (size_t i = r.below(5); i > 0; --i) a.push_back({-1, -1});  // what was there before must go
  if (n == 0) {
    VF_EXPECT(vf::guarded([&] { aslam::common::drawNRandomElements(n, in, &a, fixed); }) == vf::kFatal, "draw:zero", "drawing nothing was accepted");
    vf::evaluated(0, false);
    return;
  }
  const bool overload = r.chance(0.3);
  if (!vf::mustReturn("draw", "drawNRandomElements", [&] { overload ? aslam::common::drawNRandomElements(n, in, &a) : aslam::common::drawNRandomElements(n, in, &a, fixed); })) return;
  VF_EXPECT(in == copy, "draw:input", "the input was changed");
  VF_EXPECT(a.size() == std::min(n, size), "draw:count", "%zu drawn", a.size());
  std::set<int> seen;
  for (auto& e : a) VF_EXPECT(e.first >= 0 && static_cast<size_t>(e.first) < size && e.second == e.first % 3 && seen.insert(e.first).second, "draw:element", "drew (%d,%d): not of the input or twice", e.first, e.second);
  if (n >= size) VF_EXPECT(a == in, "draw:all", "asked for all but order or content differs");
  if (fixed && !overload) {
    if (vf::mustReturn("draw", "drawNRandomElements", [&] { aslam::common::drawNRandomElements(n, in, &b, true); }))
      VF_EXPECT(a == b, "draw:fixed", "a fixed seed gave different draws");
  }
  uint64_t h = vf::mix(size * 1000 + n);
  for (auto& e : a) h = vf::mix(h ^ e.first);
  vf::evaluated(h, size > n);
}
// Drawing without a fixed seed reaches every element and does not repeat itself.
void drawSpread(Rng& r, uint64_t) {
  const size_t size = static_cast<size_t>(r.range(4, 12)), n = static_cast<size_t>(r.range(1, size - 1));
  std::vector<int> in, out;
  for (size_t i = 0; i < size; ++i) in.push_back(static_cast<int>(i));
  std::set<int> reached;
  std::set<std::vector<int>> draws;
  // An element stays out of 400 draws with probability below (11/12)^400 < 1e-15.
  for (int k = 0; k < 400; ++k) {
    aslam::common::drawNRandomElements(n, in, &out);
    reached.insert(out.begin(), out.end());
    draws.insert(out);
  }
  VF_EXPECT(reached.size() == size, "draw:reach", "400 draws of %zu of %zu elements reached only %zu", n, size, reached.size());
  VF_EXPECT(draws.size() > 1, "draw:vary", "400 draws all gave the same");
  vf::maxOf("distinct_draws_of_400", static_cast<double>(draws.size()));
  vf::evaluated(vf::mix(size * 100 + n) ^ vf::mix(draws.size()));
}

template <typename T> void numbers(Rng& r, const char* name) {
  const size_t n = static_cast<size_t>(r.range(1, r.chance(0.1) ? 200 : 9));
  std::vector<T> v;
  const int style = static_cast<int>(r.below(5));
  for (size_t i = 0; i < n; ++i) {
    switch (style) {
      case 0: v.push_back(static_cast<T>(r.range(std::is_signed<T>::value ? -50 : 0, 50))); break;
      case 1: v.push_back(static_cast<T>(7)); break;
      case 2: v.push_back(static_cast<T>(i)); break;
      case 3: v.push_back(static_cast<T>(n - i)); break;
      default: v.push_back(static_cast<T>(r.chance(0.5) ? 100 : 0));
    }
  }
  const std::vector<T> given = v;
  std::string s = name;
  for (T x : v) s += " " + std::to_string(x);
  vf::detail(s);
  std::vector<T> sorted = v;
  std::sort(sorted.begin(), sorted.end());
  const double med = n % 2 ? static_cast<double>(sorted[n / 2]) : (static_cast<double>(sorted[n / 2 - 1]) + static_cast<double>(sorted[n / 2])) / 2;
  long double sum = 0, sq = 0;
  for (T x : v) sum += x;
  const long double mu = sum / n;
  for (T x : v) sq += (x - mu) * (x - mu);
  double m = 0, d = 0, q = 0;
  if (!vf::mustReturn("numbers", "mean, deviation, median", [&] {
        m = aslam::common::mean(given.begin(), given.end());
        d = aslam::common::stddev(given.begin(), given.end());
        q = aslam::common::median(v.begin(), v.end());
      })) return;
  VF_EXPECT(std::abs(m - mu) < 1e-9 * (1 + std::abs(mu)), "numbers:mean", "mean %.17g of %s", m, s.c_str());
  VF_EXPECT(std::abs(d - sqrtl(sq / n)) < 1e-6, "numbers:stddev", "deviation %.17g, should be %.17g", d, (double)sqrtl(sq / n));
  VF_EXPECT(std::abs(q - med) < 1e-9 * (1 + std::abs(med)), "numbers:median", "median %.17g, should be %.17g", q, med);
  std::sort(v.begin(), v.end());
  VF_EXPECT(v == sorted, "numbers:kept", "the median lost elements");
  vf::evaluated(vf::hashStr(s), n > 1);
}
void nums(Rng& r, uint64_t i) {
  switch (i % 6) {
    case 0: return numbers<double>(r, "double");
    case 1: return numbers<int>(r, "int");
    case 2: return numbers<unsigned char>(r, "unsigned char");
    case 3: return numbers<unsigned>(r, "unsigned");
    case 4: return numbers<float>(r, "float");
    default: {
      std::vector<double> none;
      VF_EXPECT(vf::guarded([&] { aslam::common::mean(none.begin(), none.end()); }) == vf::kFatal && vf::guarded([&] { aslam::common::median(none.begin(), none.end()); }) == vf::kFatal &&
                vf::guarded([&] { aslam::common::stddev(none.begin(), none.end()); }) == vf::kFatal, "numbers:none", "figures of no data were given");
      return numbers<int64_t>(r, "int64");
    }
  }
}

void keepSorted(Rng& r, uint64_t) {
  typedef std::pair<int, int> E;
  const size_t n = r.below(r.chance(0.1) ? 200 : 15), keepN = r.chance(0.15) ? 0 : r.below(n + 3);
  std::vector<E> v;
  for (size_t i = 0; i < n; ++i) v.push_back({static_cast<int>(r.below(8)), static_cast<int>(i)});
  const std::vector<E> in = v;
  vf::detail(vf::fmt("keep %zu of %zu", keepN, n));
  std::vector<E> removed;
  const bool greatest = r.chance(0.5), action = r.chance(0.7);
  auto cmp = [greatest](const E& a, const E& b) { return greatest ? a.first > b.first : a.first < b.first; };
  size_t got = 0;
  if (!vf::mustReturn("keep", "keepOnlyNSortedElements", [&] {
        if (action) got = aslam::common::keepOnlyNSortedElements(keepN, cmp, &v, [&](const E& e) { removed.push_back(e); });
        else got = aslam::common::keepOnlyNSortedElements(keepN, cmp, &v);
      })) return;
  VF_EXPECT(got == v.size() && got == std::min(n, keepN), "keep:count", "reported %zu, kept %zu", got, v.size());
  std::vector<E> sorted = in;
  std::stable_sort(sorted.begin(), sorted.end(), cmp);
  std::multiset<int> best, kept;
  for (size_t i = 0; i < got; ++i) { best.insert(sorted[i].first); if (i < v.size()) kept.insert(v[i].first); }
  VF_EXPECT(best == kept, "keep:best", "not the best were kept");
  if (n > keepN) VF_EXPECT(std::is_sorted(v.begin(), v.end(), cmp), "keep:sorted", "the kept elements are not sorted");
  std::multiset<E> all(v.begin(), v.end()), before(in.begin(), in.end());
  if (action) { all.insert(removed.begin(), removed.end()); VF_EXPECT(all == before, "keep:action", "kept and removed elements are not the input: the action saw %zu", removed.size()); }
  else for (auto& e : v) VF_EXPECT(before.count(e) == 1, "keep:invented", "an element was not in the input");
  uint64_t h = n * 31 + keepN;
  for (auto& e : in) h = vf::mix(h ^ e.first);
  vf::evaluated(h, n > keepN);
}

struct Cmp { int v; bool operator==(const Cmp& o) const { return v == o.v; } };
template <int D> void convert(Rng& r) {
  typedef Eigen::Matrix<double, D, 1> V;
  const int n = static_cast<int>(r.below(9));
  Eigen::Matrix<double, D, Eigen::Dynamic> m(D, n);
  for (int i = 0; i < D; ++i) for (int j = 0; j < n; ++j) m(i, j) = r.gauss();
  Aligned<std::vector, V> out(r.below(4), V::Constant(5.0));
  if (vf::mustReturn("convert", "convertEigenToStlVector", [&] { aslam::common::convertEigenToStlVector<D>(m, &out); })) {
    VF_EXPECT(static_cast<int>(out.size()) == n, "convert:size", "%zu vectors from %d columns", out.size(), n);
    for (int j = 0; j < n && j < static_cast<int>(out.size()); ++j) VF_EXPECT(out[j] == m.col(j), "convert:column", "column %d differs", j);
  }
}
void small(Rng& r, uint64_t) {
  convert<2>(r);
  convert<3>(r);
  convert<4>(r);
  std::vector<std::vector<int>> nested;
  size_t total = 0;
  for (size_t i = r.below(8); i > 0; --i) { nested.push_back(std::vector<int>(r.below(6))); total += nested.back().size(); }
  VF_EXPECT(aslam::common::countNumberOfElementsInNestedList(nested) == total, "nested", "count wrong");
  std::shared_ptr<Cmp> a, b;
  const int which = static_cast<int>(r.below(6));
  if (which == 1 || which > 2) a = std::make_shared<Cmp>(Cmp{static_cast<int>(r.below(2))});
  if (which == 2 || which == 3) b = std::make_shared<Cmp>(Cmp{static_cast<int>(r.below(2))});
  if (which > 4) b = a;
  if (which == 4) b = std::make_shared<Cmp>(*a);
  const bool want = a && b ? a->v == b->v : !a && !b;
  VF_EXPECT(aslam::checkSharedEqual(a, b) == want && aslam::checkSharedEqual(b, a) == want, "shared", "checkSharedEqual wrong for case %d", which);
  vf::evaluated(vf::mix(total) ^ vf::mix(which), total > 0);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("erase", vf::scale(24000, 600000), erase);
  vf::part("draw", vf::scale(6000, 100000), draw);
  vf::part("draw-spread", vf::scale(60, 1500), drawSpread);
  vf::part("numbers", vf::scale(6000, 150000), nums);
  vf::part("keep", vf::scale(6000, 150000), keepSorted);
  vf::part("small", vf::scale(3000, 60000), small);
  return vf::finish();
}
