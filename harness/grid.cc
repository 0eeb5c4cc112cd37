// C16: the occupancy grid bookkeeps points exactly.
#include "vf.h"
#include <Eigen/Core>
#include <opencv2/imgproc/imgproc.hpp>
#include <opencv2/imgproc/imgproc_c.h>
#include <aslam/common/occupancy-grid.h>

using vf::Rng;
using namespace aslam::common;

namespace {
template <typename P> class Run {
 public:
  typedef WeightedOccupancyGrid<P> Grid;
  typedef typename P::coordinate_type C;
  typedef typename P::weight_type W;
  struct Pt { C u, v; W w; int id; };
  Run(Rng* r, const std::string& name) : r_(*r), K("grid:" + name) {
    // Sizes that can be represented exactly, so that cells and distances are unambiguous.
    exact_ = std::is_integral<C>::value || r_.chance(0.7);
    auto size = [&](double lo, double hi) { double x = r_.uni(lo, hi); return static_cast<C>(exact_ ? (std::is_integral<C>::value ? std::floor(x) : std::floor(x * 4) / 4) : x); };
    cr_ = size(1, 12); cc_ = size(1, 12);
    if (std::is_integral<C>::value && r_.chance(0.3)) cc_ = cr_;
    mr_ = static_cast<C>(cr_ + size(0, 30)); mc_ = static_cast<C>(cc_ + size(0, 30));
    if (r_.chance(0.3)) { mr_ = cr_ * static_cast<C>(1 + r_.below(5)); mc_ = cc_ * static_cast<C>(1 + r_.below(5)); }
    many_ = r_.chance(0.1);  // many cells, or many points in one
    if (many_ && r_.chance(0.6)) (r_.chance(0.5) ? mr_ : mc_) = (r_.chance(0.5) ? cr_ : cc_) * static_cast<C>(30 + r_.below(60));
    if (mr_ < cr_) mr_ = cr_;
    if (mc_ < cc_) mc_ = cc_;
    vf::detail(K + vf::fmt(" %gx%g, cells %gx%g", (double)mr_, (double)mc_, (double)cr_, (double)cc_));
    if (!vf::mustReturn(K + ":make", "constructing a grid", [&] { g_.reset(new Grid(mr_, mc_, cr_, cc_)); })) return;
    nr_ = 0; while (static_cast<double>(nr_) * cr_ < mr_ * (1 - 1e-12)) ++nr_;
    nc_ = 0; while (static_cast<double>(nc_) * cc_ < mc_ * (1 - 1e-12)) ++nc_;
    spread_ = static_cast<int>(r_.below(3));
    levels_ = r_.chance(0.3) ? 3 : 1000;
  }
  uint64_t h = 1; int ops = 0, replaced = 0;
  void run(int steps) {
    if (!g_) return;
    for (int i = 0; i < steps && !stop_; ++i) {
      if (many_ && m_.size() < 200 && r_.chance(0.4)) burst();
      step(); check(); ++ops;
    }
    if (!stop_ && r_.chance(0.3)) mask();
    if (!stop_ && r_.chance(0.2)) refuse();
  }

 private:
  size_t row(C u) const { return static_cast<size_t>(std::floor(static_cast<double>(u) / static_cast<double>(cr_))); }
  size_t col(C v) const { return static_cast<size_t>(std::floor(static_cast<double>(v) / static_cast<double>(cc_))); }
  static bool nearEdge(double x, double cell) { const double q = x / cell; return std::abs(q - std::round(q)) < 1e-4; }
  P p(const Pt& a) { return P(a.u, a.v, a.w, static_cast<typename P::id_type>(a.id)); }
  Pt randomPoint() {
    Pt a;
    for (;;) {
      double u = r_.uni() * mr_, v = r_.uni() * mc_;
      if (spread_ == 1) { u = std::min<double>(u, cr_ * 1.5); v = std::min<double>(v, cc_ * 1.5); }
      if (r_.chance(0.2)) { u = std::floor(u / cr_) * cr_; if (r_.chance(0.5)) v = std::floor(v / cc_) * cc_; }  // on a cell border
      if (exact_) { u = std::floor(u * 4) / 4; v = std::floor(v * 4) / 4; }
      a.u = static_cast<C>(u); a.v = static_cast<C>(v);
      if (r_.chance(0.05)) a.u = 0;
      if (r_.chance(0.05) && std::is_floating_point<C>::value) a.u = static_cast<C>(std::nextafter(static_cast<C>(mr_), static_cast<C>(0)));
      if (!(a.u < mr_ && a.v < mc_)) continue;
      if (!exact_ && (nearEdge(a.u, cr_) || nearEdge(a.v, cc_))) continue;
      if (exact_ && std::is_floating_point<C>::value && a.u != std::floor(a.u * 4) / 4 && nearEdge(a.u, cr_)) { if (a.u != static_cast<C>(std::nextafter(static_cast<C>(mr_), static_cast<C>(0)))) continue; edge_ = true; }
      break;
    }
    a.w = static_cast<W>(static_cast<int>(r_.below(levels_)) + (std::is_signed<W>::value && r_.chance(0.2) ? -500 : 0));
    if (r_.chance(0.02)) a.w = std::numeric_limits<W>::lowest();
    a.id = next_++;
    return a;
  }
  std::pair<size_t, size_t> cellOf(const Pt& a) const { return {std::min(row(a.u), nr_ - 1), std::min(col(a.v), nc_ - 1)}; }
  typedef std::map<int, Pt> Model;
  std::vector<const Pt*> inCell(std::pair<size_t, size_t> c) const { std::vector<const Pt*> o; for (auto& e : m_) if (cellOf(e.second) == c) o.push_back(&e.second); return o; }
  // What the grid holds now, by id.
  bool contents(Model* out) {
    typename Grid::PointList l;
    size_t n = 0;
    const Grid& cg = *g_;
    // What the caller's list held before has no part in the answer.
    for (size_t k = r_.chance(0.3) ? 1 + r_.below(3) : 0; k > 0; --k) l.push_back(p(Pt{0, 0, 0, 77}));
    if (!vf::mustReturn(K + ":list", "listing the points", [&] { n = cg.getAllPointsInGrid(&l); })) { stop_ = true; return false; }
    VF_EXPECT(n == l.size() && n == cg.getNumPoints(), K + ":count", "%zu points listed, %zu counted", l.size(), cg.getNumPoints());
    for (auto& q : l) if (!out->insert({static_cast<int>(q.id), Pt{q.u_rows, q.v_cols, q.weight, static_cast<int>(q.id)}}).second) { vf::violation(K + ":twice", vf::fmt("point %d is stored twice", (int)q.id)); stop_ = true; }
    return true;
  }
  bool samePt(const Pt& a, const Pt& b) { return a.u == b.u && a.v == b.v && a.w == b.w && a.id == b.id; }
  // Compares the grid with the model; every point of the model is in its cell.
  void check() {
    if (stop_) return;
    Model now;
    if (!contents(&now)) return;
    bool ok = now.size() == m_.size();
    for (auto& e : m_) { auto it = now.find(e.first); ok = ok && it != now.end() && samePt(it->second, e.second); }
    if (!ok) { vf::violation(K + ":content", vf::fmt("%zu points held, %zu expected, or they differ", now.size(), m_.size())); stop_ = true; return; }
    for (int k = 0; k < 3 && !m_.empty(); ++k) {
      auto it = m_.begin();
      std::advance(it, r_.below(m_.size()));
      const Pt& a = it->second;
      vf::mustReturn(K + ":cell", "asking for a cell", [&] {
        const Grid& cg = *g_;
        const typename Grid::PointList& l = r_.chance(0.5) ? cg.getGridCell(a.u, a.v) : g_->getGridCell(a.u, a.v);
        bool found = false;
        for (auto& q : l) found = found || static_cast<int>(q.id) == a.id;
        VF_EXPECT(found, K + ":cell", "point %d is not in the cell of its coordinates", a.id);
        if (!edge_) VF_EXPECT(l.size() == inCell(cellOf(a)).size(), K + ":cellsize", "the cell of (%g,%g) holds %zu points, %zu lie in it", (double)a.u, (double)a.v, l.size(), inCell(cellOf(a)).size());
      });
    }
    if (!m_.empty() && !edge_) vf::mustReturn(K + ":fullest", "asking for the fullest cell", [&] {
      auto c = g_->getFullestGridCell();
      std::map<std::pair<size_t, size_t>, size_t> n;
      size_t best = 0;
      for (auto& e : m_) best = std::max(best, ++n[cellOf(e.second)]);
      VF_EXPECT((n[{c.i_rows, c.j_cols}]) == best, K + ":fullest", "cell (%zu,%zu) is not the fullest", c.i_rows, c.j_cols);
    });
  }
  size_t limit() { return many_ && r_.chance(0.5) ? 1 + r_.below(90) : 1 + r_.below(4); }
  // Many points at once, mostly into one cell.
  void burst() {
    const Pt centre = randomPoint();
    const int n = static_cast<int>(r_.below(80));
    if (edge_) return;
    for (int i = 0; i < n; ++i) {
      Pt a = randomPoint();
      if (edge_) return;
      if (r_.chance(0.8)) { a.u = centre.u; a.v = centre.v; }
      if (!vf::mustReturn(K + ":add", "adding a point", [&] { g_->addPointUnconditional(p(a)); })) { stop_ = true; return; }
      m_[a.id] = a;
    }
    size_t most = 0;
    for (auto& c : cells()) most = std::max(most, c.second.size());
    vf::maxOf("points_in_a_cell", static_cast<double>(most));
    vf::maxOf("cells", static_cast<double>(nr_ * nc_));
    h = vf::mix(h ^ n);
  }
  void step() {
    const int op = static_cast<int>(r_.below(22));
    h = vf::mix(h ^ op);
    if (op < 7) {
      const Pt a = randomPoint();
      h = vf::mix(h ^ cellOf(a).first * 77 ^ cellOf(a).second);
      if (vf::mustReturn(K + ":add", "adding a point", [&] { g_->addPointUnconditional(p(a)); })) m_[a.id] = a; else stop_ = true;
    } else if (op < 12) {
      const Pt a = randomPoint();
      const size_t max = limit();
      bool added = false;
      std::vector<const Pt*> cell = inCell(cellOf(a));
      if (edge_) { if (!r_.chance(0.1)) return; cell.clear(); }
      if (edge_) return;
      if (!vf::mustReturn(K + ":replace", "adding a point to a cell that may be full", [&] { added = g_->addPointOrReplaceWeakestIfCellFull(p(a), max); })) { stop_ = true; return; }
      W weakest = std::numeric_limits<W>::max();
      for (auto* q : cell) weakest = std::min(weakest, q->w);
      const bool room = cell.size() < max, want = room || weakest < a.w;
      VF_EXPECT(added == want, K + ":replace", "reported %d for a cell of %zu points (limit %zu)", added, cell.size(), max);
      if (!room && want) {
        ++replaced;
        Model now;
        if (!contents(&now)) return;
        const Pt* gone = nullptr;
        for (auto* q : cell) if (!now.count(q->id)) { if (gone) { vf::violation(K + ":replace", "more than one point was replaced"); stop_ = true; return; } gone = q; }
        if (!gone) { vf::violation(K + ":replace", "nothing was replaced"); stop_ = true; return; }
        VF_EXPECT(!(weakest < gone->w), K + ":weakest", "a point of weight %g was replaced, the weakest has %g", (double)gone->w, (double)weakest);
        const int id = gone->id;
        m_.erase(id);
      }
      if (want) m_[a.id] = a;
    } else if (op < 16) {
      const Pt a = randomPoint();
      const double limit = std::min<double>(cr_, cc_);
      C d = static_cast<C>(r_.chance(0.4) ? limit : r_.uni(std::is_integral<C>::value ? 1 : 0.1, limit));
      if (std::is_integral<C>::value) d = std::max<C>(1, d);
      if (exact_ && std::is_floating_point<C>::value) d = std::max<C>(static_cast<C>(0.25), static_cast<C>(std::floor(d * 4) / 4));
      std::vector<Pt> near{a};
      bool ambiguous = edge_;
      for (auto& e : m_) {
        const double du = static_cast<double>(a.u) - e.second.u, dv = static_cast<double>(a.v) - e.second.v, s = du * du + dv * dv, dd = static_cast<double>(d) * d;
        if (s != dd && std::abs(s - dd) < 1e-4 * dd) ambiguous = true;
        if (s < dd) near.push_back(e.second);
      }
      if (ambiguous) return;
      if (!vf::mustReturn(K + ":near", "adding a point that may be too close to others", [&] { g_->addPointOrReplaceWeakestNearestPoints(p(a), d); })) { stop_ = true; return; }
      Model now;
      if (!contents(&now)) return;
      const Pt* kept = nullptr;
      W best = near[0].w;
      for (auto& q : near) { best = std::max(best, q.w); m_.erase(q.id); if (now.count(q.id)) { VF_EXPECT(!kept, K + ":near", "two points closer than %g were kept", (double)d); kept = &q; } }
      if (!kept) { vf::violation(K + ":near", vf::fmt("none of %zu points too close to each other was kept", near.size())); stop_ = true; return; }
      VF_EXPECT(!(kept->w < best), K + ":nearBest", "the point of weight %g was kept, the best has %g", (double)kept->w, (double)best);
      if (near.size() > 1) ++replaced;
      m_[kept->id] = *kept;
      vf::maxOf("points_in_conflict", static_cast<double>(near.size()));
    } else if (op < 18) {
      const size_t max = limit();
      size_t removed = 0;
      if (edge_) return;
      if (!vf::mustReturn(K + ":overfull", "removing from overfull cells", [&] { removed = g_->removeWeightedPointsFromOverfullCells(max); })) { stop_ = true; return; }
      Model now;
      if (!contents(&now)) return;
      VF_EXPECT(removed + now.size() == m_.size(), K + ":overfull", "%zu reported removed, %zu of %zu left", removed, now.size(), m_.size());
      for (auto& c : cells()) expectBest(c.second, now, std::min(max, c.second.size()));
      adopt(now);
    } else if (op < 20) {
      if (edge_) return;
      const size_t max = 1 + r_.below(m_.size() + 2);
      if (!vf::mustReturn(K + ":shrink", vf::fmt("removing from the fullest cells until %zu of %zu points are left", max, m_.size()), [&] { g_->removePointsFromFullestCellsUntilSize(max); })) { stop_ = true; return; }
      Model now;
      if (!contents(&now)) return;
      VF_EXPECT(now.size() == std::min(max, m_.size()), K + ":shrink", "%zu points left, should be %zu", now.size(), std::min(max, m_.size()));
      size_t top = 0;
      std::map<std::pair<size_t, size_t>, size_t> left;
      for (auto& e : now) top = std::max(top, ++left[cellOf(e.second)]);
      for (auto& c : cells()) {
        const size_t n = left[c.first];
        expectBest(c.second, now, n);
        // A cell that lost points was among the fullest ones when it did.
        if (n < c.second.size()) VF_EXPECT(n + 1 >= top, K + ":fullestFirst", "a cell was cut from %zu to %zu points while another holds %zu", c.second.size(), n, top);
      }
      if (now.size() < m_.size()) ++replaced;
      adopt(now);
    } else if (op == 20) {
      if (!r_.chance(0.3)) return;
      const W w = static_cast<W>(r_.below(9));
      g_->setConstantWeightForAllPointsInGrid(w);
      for (auto& e : m_) e.second.w = w;
    } else if (r_.chance(0.2)) {
      g_->reset();
      m_.clear();
      edge_ = false;
    }
  }
  std::map<std::pair<size_t, size_t>, std::vector<Pt>> cells() const { std::map<std::pair<size_t, size_t>, std::vector<Pt>> c; for (auto& e : m_) c[cellOf(e.second)].push_back(e.second); return c; }
  // `now` keeps the n points of greatest weight among `pts`.
  void expectBest(std::vector<Pt> pts, const Model& now, size_t n) {
    std::sort(pts.begin(), pts.end(), [](const Pt& a, const Pt& b) { return a.w > b.w; });
    std::multiset<W> best, kept;
    for (size_t i = 0; i < n && i < pts.size(); ++i) best.insert(pts[i].w);
    for (auto& q : pts) if (now.count(q.id)) kept.insert(q.w);
    VF_EXPECT(best == kept, K + ":best", "a cell of %zu points kept %zu, and not the %zu of greatest weight", pts.size(), kept.size(), n);
  }
  void adopt(const Model& now) {
    Model next;
    for (auto& e : now) {
      auto it = m_.find(e.first);
      if (it == m_.end() || !samePt(it->second, e.second)) { vf::violation(K + ":changed", "removing points changed one or made one up"); stop_ = true; return; }
      next.insert(*it);
    }
    m_ = next;
  }
  void mask() {
    if (edge_) return;
    const C radius = static_cast<C>(1 + r_.below(6));
    const size_t max = limit();
    cv::Mat mask;
    const Grid& cg = *g_;
    if (!vf::mustReturn(K + ":mask", "the occupancy mask", [&] { mask = cg.getOccupancyMask(radius, max); })) return;
    const int rows = static_cast<int>(std::floor(mr_)), cols = static_cast<int>(std::floor(mc_));
    VF_EXPECT(mask.rows == rows && mask.cols == cols && mask.type() == CV_8UC1, K + ":mask", "%dx%d", mask.rows, mask.cols);
    if (mask.rows != rows || mask.cols != cols || mask.type() != CV_8UC1) return;
    auto cs = cells();
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) {
      const int value = mask.at<uchar>(i, j);
      bool must = false, may = false;
      for (auto& e : m_) {
        const double du = i - std::floor(static_cast<double>(e.second.u)), dv = j - std::floor(static_cast<double>(e.second.v)), d = std::sqrt(du * du + dv * dv);
        must = must || d <= radius - 1.0;
        may = may || d <= radius + 1.5;
      }
      for (auto& c : cs) if (c.second.size() >= max) {
        const double u0 = c.first.first * static_cast<double>(cr_), v0 = c.first.second * static_cast<double>(cc_), u1 = u0 + cr_, v1 = v0 + cc_;
        must = must || (i >= u0 && i + 1 <= u1 && j >= v0 && j + 1 <= v1);
        may = may || (i > u0 - 1 && i < u1 && j > v0 - 1 && j < v1);
      }
      if ((value != 0 && value != 255) || (must && value) || (!may && !value)) { vf::violation(K + ":maskPixel", vf::fmt("pixel (%d,%d) is %d (must be masked %d, may be %d)", i, j, value, must, may)); return; }
    }
    vf::count("masks");
  }
  void refuse() {
    const double bad[] = {-1, -0.25, static_cast<double>(mr_), static_cast<double>(mr_) + 1, 1e9};
    for (double b : bad) {
      const C u = static_cast<C>(b);
      if (u >= 0 && u < mr_) continue;
      const size_t before = g_->getNumPoints();
      const Grid& cg = *g_;
      VF_EXPECT(vf::guarded([&] { g_->addPointUnconditional(P(u, 0, 1, 0)); }) == vf::kFatal && vf::guarded([&] { g_->addPointOrReplaceWeakestIfCellFull(P(u, 0, 1, 0), 1); }) == vf::kFatal &&
                vf::guarded([&] { cg.getGridCell(u, static_cast<C>(0)); }) == vf::kFatal, K + ":outside", "row %g was accepted", (double)u);
      VF_EXPECT(g_->getNumPoints() == before, K + ":outsideCount", "a refused point was counted");
    }
    const C v = mc_;
    VF_EXPECT(vf::guarded([&] { g_->addPointUnconditional(P(0, v, 1, 0)); }) == vf::kFatal && vf::guarded([&] { g_->addPointOrReplaceWeakestNearestPoints(P(0, v, 1, 0), 1); }) == vf::kFatal, K + ":outside", "column %g was accepted", (double)v);
    if (std::is_floating_point<C>::value) VF_EXPECT(vf::guarded([&] { g_->addPointUnconditional(P(std::numeric_limits<C>::quiet_NaN(), 0, 1, 0)); }) == vf::kFatal, K + ":outside", "NaN was accepted");
    VF_EXPECT(vf::guarded([&] { g_->addPointOrReplaceWeakestNearestPoints(P(0, 0, 1, 0), static_cast<C>(std::max(cr_, cc_) + 1)); }) == vf::kFatal, K + ":distance", "a distance above the cell size was accepted");
    VF_EXPECT(vf::guarded([&] { g_->removeWeightedPointsFromOverfullCells(0); }) == vf::kFatal, K + ":zero", "a limit of no points was accepted");
    vf::count("refusals", 5);
  }
  Rng& r_;
  std::string K;
  std::unique_ptr<Grid> g_;
  C cr_, cc_, mr_, mc_;
  size_t nr_ = 1, nc_ = 1;
  bool exact_, many_ = false, stop_ = false, edge_ = false;  // edge_: holds a point within rounding of the far border
  int spread_, next_ = 1;
  uint64_t levels_;
  Model m_;
};
template <typename P> void history(Rng& r, const char* name) {
  Run<P> run(&r, name);
  run.run(static_cast<int>(r.range(5, vf::opts().thorough() ? 150 : 70)));
  vf::count("operations", run.ops);
  vf::count("replacements", run.replaced);
  vf::evaluated(run.h, run.replaced > 0);
}
void histories(Rng& r, uint64_t i) {
  switch (i % 4) {
    case 0: return history<WeightedKeypoint<double, double, int>>(r, "double");
    case 1: return history<WeightedKeypoint<int, int, size_t>>(r, "int");
    case 2: return history<WeightedKeypoint<float, unsigned, int>>(r, "float");
    default: return history<WeightedKeypoint<double, float, int>>(r, "mixed");
  }
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("histories", vf::scale(4000, 80000), histories);
  return vf::finish();
}
