// C38: predicted keypoints and viewing rays of matches.   C39: the gyro-aided matcher.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include "camera_ref.h"
#include <aslam/common/memory.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/matcher/match-helpers.h>

namespace {
typedef VisualFrame::DescriptorsT Desc;
typedef Aligned<std::vector, Eigen::Vector3d> V3s;

Eigen::Quaterniond someRot(Rng& r) {
  Eigen::Vector3d a(r.gauss(), r.gauss(), r.gauss());
  if (a.norm() < 1e-3) a = Eigen::Vector3d(1, 0, 0);
  double angle;
  switch (r.below(5)) {
    case 0: return Eigen::Quaterniond::Identity();
    case 1: angle = std::pow(10, r.uni(-9, -3)); break;
    case 2: angle = r.uni(-0.05, 0.05); break;
    case 3: angle = r.uni(-0.5, 0.5); break;
    default: angle = r.uni(-M_PI, M_PI);
  }
  Eigen::Quaterniond q(Eigen::AngleAxisd(angle, a.normalized()));
  if (r.chance(0.3)) q.coeffs() = -q.coeffs();
  return q;
}
Desc someDesc(Rng& r, int bytes, int n) {
  Desc d(bytes, n);
  for (int i = 0; i < d.size(); ++i) d.data()[i] = static_cast<unsigned char>(r.below(256));
  return d;
}
// Splits `n` keypoints over descriptor types; the block of `type` starts at `start`.
void setBlocks(Rng& r, VisualFrame& f, const Eigen::Matrix2Xd& kp, int type, const Desc& own, int* start) {
  const int before = r.chance(0.5) ? 0 : static_cast<int>(r.below(4)), after = r.chance(0.5) ? 0 : static_cast<int>(r.below(4));
  Eigen::Matrix2Xd all(2, before + kp.cols() + after);
  for (int i = 0; i < all.size(); ++i) all.data()[i] = r.uni(0, 400);
  all.middleCols(before, kp.cols()) = kp;
  f.setKeypointMeasurements(all);
  *start = before;
  bool first = true;
  auto put = [&](const Desc& d, int t) {
    if (first) f.setDescriptors(d, 0, t); else f.extendDescriptors(d, t);
    first = false;
  };
  if (before) put(someDesc(r, 16, before), type + 1);
  put(own, type);
  if (after) put(someDesc(r, 8, after), type + 2);
}
VisualFrame::Ptr newFrame(const Camera::ConstPtr& cam, int64_t t) {
  VisualFrame::Ptr f(new VisualFrame);
  FrameId id; generateId(&id); f->setId(id);
  if (cam) f->setCameraGeometry(cam);
  f->setTimestampNanoseconds(t);
  return f;
}

void predict(Rng& r, uint64_t) {
  const Cam c = someCam(r);
  const int n = r.chance(0.05) ? 0 : r.chance(0.02) ? 100 + static_cast<int>(r.below(300)) : 1 + static_cast<int>(r.below(12));
  const Eigen::Quaterniond q = someRot(r);
  Eigen::Matrix2Xd kp(2, n);
  std::vector<V3> ray(n, V3::Zero());
  std::vector<bool> known(n, false);
  for (int i = 0; i < n; ++i) {
    V3 v; V2 k;
    if (r.chance(0.7) && someView(r, c, &v, &k)) { kp.col(i) = k; ray[i] = v; known[i] = true; }
    else kp.col(i) = V2(r.uni(-0.5, 1.5) * c.w, r.uni(-0.5, 1.5) * c.h);
  }
  const int type = static_cast<int>(r.below(3));
  VisualFrame::Ptr f = newFrame(c.cam, 5);
  int start;
  setBlocks(r, *f, kp, type, someDesc(r, 8, n), &start);
  vf::detail(c.show() + vf::fmt(" %d keypoints, q=(%.17g %.17g %.17g %.17g)", n, q.w(), q.x(), q.y(), q.z()));
  // Outputs may hold something already.
  Eigen::Matrix2Xd p = Eigen::Matrix2Xd::Constant(2, r.below(5), 7);
  std::vector<unsigned char> ok(r.below(5), 9);
  if (!vf::mustReturn("predict-returns", "predicting", [&] { predictKeypointsByRotation(*f, Quaternion(q), &p, &ok, type); })) return;
  if (!VF_EXPECT(p.cols() == n && ok.size() == static_cast<size_t>(n), "predict-size", "%d keypoints, %ld predictions, %zu flags", n, static_cast<long>(p.cols()), ok.size())) return;
  const Eigen::Matrix3d R = q.toRotationMatrix();
  bool moved = false;
  for (int i = 0; i < n; ++i) {
    const V2 k = kp.col(i);
    // Point by point.
    V3 b; V2 w;
    const bool back = c.cam->backProject3(k, &b);
    const ProjectionResult pr = c.cam->project3(R * b, &w);
    const bool want = back && pr.isKeypointVisible();
    const bool marginal = back && std::min(std::min(std::abs(w[0]), std::abs(w[0] - c.w)), std::min(std::abs(w[1]), std::abs(w[1] - c.h))) < 1e-6;
    if (!marginal) {
      VF_EXPECT((ok[i] != 0) == want, "predict-success", "keypoint %d at (%.9g %.9g): success %d, the rotated ray is %svisible", i, k[0], k[1], ok[i], want ? "" : "not ");
      if (want && ok[i]) VF_EXPECT((p.col(i) - w).norm() <= 1e-6 * (1 + w.norm()), "predict-point", "keypoint %d at (%.9g %.9g): predicted (%.9g %.9g), the rotated ray is at (%.9g %.9g)", i, k[0], k[1], p(0, i), p(1, i), w[0], w[1]);
    }
    if (!ok[i]) VF_EXPECT(p.col(i) == k, "predict-failed", "keypoint %d failed but moved from (%.9g %.9g) to (%.9g %.9g)", i, k[0], k[1], p(0, i), p(1, i));
    moved |= ok[i] && (p.col(i) - k).norm() > 0.5;
    // Independent of the code where the true ray is known.
    if (known[i] && back && ok[i] && (b.normalized() - ray[i]).norm() < 1e-6) {
      ld u, v;
      const V3 x = R * ray[i];
      if (c.lens == kPin && x[2] < 0.05) continue;
      if (refProject(c, c.intr, c.k, x[0], x[1], x[2], &u, &v)) {
        const double pu = static_cast<double>(u), pv = static_cast<double>(v);
        const double tol = 1e-4 * (1 + focal(c));
        bool close = std::abs(p(0, i) - pu) <= tol && std::abs(p(1, i) - pv) <= tol;
        if (c.lens == kLid && c.intr[Camera3DLidar::kHorizontalResolutionRad] * c.w > 6) close |= std::abs(std::abs(p(0, i) - pu) - 2 * M_PI / c.intr[Camera3DLidar::kHorizontalResolutionRad]) <= tol;
        VF_EXPECT(close || (V2(pu, pv) - V2(p(0, i), p(1, i))).norm() > 1e6, "predict-reference", "keypoint %d at (%.9g %.9g): predicted (%.9g %.9g) instead of (%.9g %.9g)", i, k[0], k[1], p(0, i), p(1, i), pu, pv);
        vf::count("predictions against the published model");
      }
    }
  }
  vf::evaluated(vf::hashBytes(kp.data(), kp.size() * 8), moved, c.show());
}

void bearings(Rng& r, uint64_t) {
  const Cam c[2] = {someCam(r), someCam(r)};
  VisualFrame::Ptr f[2];
  Eigen::Matrix2Xd kp[2];
  const bool vast = r.chance(0.02);
  const int type = static_cast<int>(r.below(3));
  for (int s = 0; s < 2; ++s) {
    const int n = vast ? 100 + static_cast<int>(r.below(300)) : 1 + static_cast<int>(r.below(10));
    kp[s].resize(2, n);
    for (int i = 0; i < n; ++i) { V3 v; V2 k; while (!someView(r, c[s], &v, &k)) {} kp[s].col(i) = k; }
    f[s] = newFrame(c[s].cam, s);
    int start;
    setBlocks(r, *f[s], kp[s], type, someDesc(r, 8, n), &start);
  }
  FrameToFrameMatches m;
  for (size_t e = r.below(vast ? 400 : 12); e; --e) m.emplace_back(static_cast<int>(r.below(kp[0].cols())), static_cast<int>(r.below(kp[1].cols())));
  V3s b[2];
  for (int s = 0; s < 2; ++s) b[s].resize(r.below(4));
  vf::detail(c[0].show() + " / " + c[1].show() + vf::fmt(" %zu matches", m.size()));
  if (!vf::mustReturn("bearings-return", "the rays of matches", [&] { getBearingVectorsFromMatches(*f[0], *f[1], m, type, &b[0], &b[1]); })) return;
  for (int s = 0; s < 2; ++s) {
    if (!VF_EXPECT(b[s].size() == m.size(), "bearings-size", "%zu rays for %zu matches", b[s].size(), m.size())) return;
    for (size_t i = 0; i < m.size(); ++i) {
      V3 w;
      if (!c[s].cam->backProject3(V2(kp[s].col(s ? m[i].getKeypointIndexInFrameB() : m[i].getKeypointIndexInFrameA())), &w)) continue;
      w.normalize();
      VF_EXPECT((b[s][i] - w).norm() <= 1e-9, "bearings", "match %zu (%d, %d): the ray in frame %s is (%.9g %.9g %.9g) instead of (%.9g %.9g %.9g)", i, m[i].first, m[i].second, s ? "k" : "k+1", b[s][i][0], b[s][i][1], b[s][i][2], w[0], w[1], w[2]);
    }
  }
  vf::evaluated(vf::hashBytes(kp[0].data(), kp[0].size() * 8) + m.size(), m.size() > 1);
}

// ---- the matcher ---------------------------------------------------------
const double kSmall = 10, kLarge = 20;
int bitsDifferent(const Desc& a, int i, const Desc& b, int j) {
  int n = 0;
  for (int y = 0; y < a.rows(); ++y) n += __builtin_popcount(static_cast<unsigned>(a(y, i) ^ b(y, j)));
  return n;
}
struct Pair {
  int bytes, width, height, type;
  Eigen::Matrix2Xd k, pred, kp1;
  std::vector<unsigned char> ok;
  Desc dk, dp;
  std::vector<int> truth;   // per k: the keypoint it moved to, or -1
  VisualFrame::Ptr fk, fp;
};
// Keypoints of a frame, their predictions, and the next frame.
Pair somePair(Rng& r) {
  Pair p;
  static const int sizes[] = {8, 16, 32, 48, 64, 4};
  p.bytes = sizes[r.below(6)];
  p.width = 40 + static_cast<int>(r.below(600));
  p.height = 40 + static_cast<int>(r.below(500));
  p.type = static_cast<int>(r.below(3));
  const bool crowded = r.chance(0.5);
  if (crowded) { p.width = 40 + static_cast<int>(r.below(40)); p.height = 40 + static_cast<int>(r.below(40)); }
  const bool vast = r.chance(0.02);   // hundreds of keypoints in a large image
  if (vast) { p.width = 300 + static_cast<int>(r.below(1200)); p.height = 300 + static_cast<int>(r.below(3000)); }
  const int nk = r.chance(0.03) ? 0 : vast ? 150 + static_cast<int>(r.below(250)) : 1 + static_cast<int>(r.below(crowded ? 30 : 60));
  p.k.resize(2, nk); p.pred.resize(2, nk);
  p.dk = someDesc(r, p.bytes, nk);
  // Families of similar descriptors make rivals.
  const double family = r.chance(0.5) ? 0.4 : 0;
  for (int i = 1; i < nk; ++i) if (r.chance(family)) {
    p.dk.col(i) = p.dk.col(static_cast<int>(r.below(i)));
    for (int b = static_cast<int>(r.below(p.bytes)); b > 0; --b) p.dk(static_cast<int>(r.below(p.bytes)), i) ^= static_cast<unsigned char>(1u << r.below(8));
  }
  std::vector<V2> pts;
  std::vector<Eigen::Matrix<unsigned char, Eigen::Dynamic, 1>> desc;
  p.truth.assign(nk, -1);
  const bool edges = r.chance(0.4), integers = r.chance(0.3);
  for (int i = 0; i < nk; ++i) {
    V2 at(r.uni(0, p.width), r.uni(0, p.height));
    if (edges && r.chance(0.4)) at[1] = r.chance(0.5) ? r.uni(0, 2) : p.height - 1e-6 - r.uni(0, 2);
    if (integers) at = V2(std::floor(at[0]), std::floor(at[1]));
    p.pred.col(i) = at;
    p.k.col(i) = V2(r.uni(0, p.width), r.uni(0, p.height));
    p.ok.push_back(r.chance(0.92));
    if (r.chance(0.8)) {
      const double reach = r.chance(0.7) ? 7 : 25;
      V2 w = at + V2(r.uni(-reach, reach), r.uni(-reach, reach));
      if (integers) w = V2(std::floor(w[0]), std::floor(w[1]));
      if (w[0] < 0 || w[1] < 0 || w[0] >= p.width || w[1] >= p.height) { if (r.chance(0.9)) continue; }
      p.truth[i] = static_cast<int>(pts.size());
      pts.push_back(w);
      Eigen::Matrix<unsigned char, Eigen::Dynamic, 1> d = p.dk.col(i);
      if (r.chance(0.02)) for (int b = 0; b < p.bytes; ++b) d[b] = static_cast<unsigned char>(~d[b]);
      else for (int b = static_cast<int>(r.below(1 + p.bytes * (r.chance(0.7) ? 1 : 2))); b > 0; --b) d[r.below(p.bytes)] ^= static_cast<unsigned char>(1u << r.below(8));
      desc.push_back(d);
    }
  }
  for (size_t e = r.below(crowded ? 10 : 30); e; --e) {
    pts.emplace_back(r.uni(0, p.width), r.uni(0, p.height));
    desc.push_back(nk && r.chance(0.4) ? Eigen::Matrix<unsigned char, Eigen::Dynamic, 1>(p.dk.col(r.below(nk))) : Eigen::Matrix<unsigned char, Eigen::Dynamic, 1>(someDesc(r, p.bytes, 1)));
    for (int b = static_cast<int>(r.below(p.bytes + 1)); b > 0; --b) desc.back()[r.below(p.bytes)] ^= static_cast<unsigned char>(1u << r.below(8));
  }
  // The next frame lists them in another order.
  std::vector<int> order(pts.size()), where(pts.size());
  for (size_t i = 0; i < pts.size(); ++i) order[i] = static_cast<int>(i);
  for (size_t i = pts.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  p.kp1.resize(2, pts.size());
  p.dp.resize(p.bytes, pts.size());
  for (size_t i = 0; i < pts.size(); ++i) { p.kp1.col(i) = pts[order[i]]; p.dp.col(i) = desc[order[i]]; where[order[i]] = static_cast<int>(i); }
  for (int& t : p.truth) if (t >= 0) t = where[t];
  p.fk = newFrame(nullptr, 100);
  p.fp = newFrame(nullptr, 101);
  int s;
  setBlocks(r, *p.fk, p.k, p.type, p.dk, &s);
  setBlocks(r, *p.fp, p.kp1, p.type, p.dp, &s);
  return p;
}
void match(Rng& r, uint64_t) {
  Pair p = somePair(r);
  const int nk = static_cast<int>(p.k.cols()), np = static_cast<int>(p.kp1.cols()), bits = 8 * p.bytes;
  vf::detail(vf::fmt("%d keypoints, %d in the next frame, %d-byte descriptors, %dx%d", nk, np, p.bytes, p.width, p.height));
  FrameToFrameMatches m;
  if (r.chance(0.3)) m.emplace_back(99, 99);
  const Quaternion q;
  if (!vf::mustReturn("match-returns", "matching", [&] {
        GyroTwoFrameMatcher g(q, *p.fp, *p.fk, p.type, static_cast<uint32_t>(p.height), p.pred, p.ok, &m);
        g.match();
      })) return;
  // What each pair is like.
  std::vector<int> of_k(nk, -1), of_p(np, -1);
  for (auto& x : m) {
    const int a = x.getKeypointIndexInFrameA(), b = x.getKeypointIndexInFrameB();
    if (!VF_EXPECT(a >= 0 && a < np && b >= 0 && b < nk, "range", "match (%d, %d) of %d and %d keypoints", a, b, np, nk)) return;
    if (!VF_EXPECT(of_k[b] < 0 && of_p[a] < 0, "one-to-one", "keypoint %d of k+1 or %d of k matched twice", a, b)) return;
    of_k[b] = a; of_p[a] = b;
    const double dx = std::abs(p.kp1(0, a) - p.pred(0, b)), dy = std::abs(p.kp1(1, a) - p.pred(1, b));
    VF_EXPECT(p.ok[b], "unpredicted", "keypoint %d was matched without a prediction", b);
    VF_EXPECT(dx <= kLarge + 1 && dy <= kLarge + 1, "window", "match (%d, %d) is (%.3f %.3f) px away from the prediction", a, b, dx, dy);
    const int d = bitsDifferent(p.dk, b, p.dp, a);
    VF_EXPECT(bits - d > static_cast<int>(bits * 0.8) - 1, "distance", "match (%d, %d) differs in %d of %d bits", a, b, d, bits);
  }
  // The choice every keypoint makes alone, where the borders of the windows leave no doubt.
  struct Choice { bool sure = true; int best = -1, d = 0; };
  std::vector<Choice> choice(nk);
  for (int i = 0; i < nk; ++i) {
    Choice& c = choice[i];
    if (!p.ok[i]) continue;
    std::vector<int> near, far;
    for (int j = 0; j < np; ++j) {
      const double e = std::max(std::abs(p.kp1(0, j) - p.pred(0, i)), std::abs(p.kp1(1, j) - p.pred(1, i)));
      // Keypoints above or below the image may be missed.
      if (p.kp1(1, j) < 0 || p.kp1(1, j) >= p.height) { if (e <= kLarge + 1) c.sure = false; continue; }
      if (e <= kSmall - 1) near.push_back(j);
      else if (e <= kSmall + 1) c.sure = false;
      else if (e <= kLarge - 1) far.push_back(j);
      else if (e <= kLarge + 1) c.sure = false;
    }
    const int limit = static_cast<int>(bits * 0.8f);
    for (int round = 0; round < 2 && c.best < 0; ++round) {
      std::vector<int> in = near;
      if (round) in.insert(in.end(), far.begin(), far.end());
      int first = bits + 1, second = bits + 1;
      for (int j : in) {
        const int d = bitsDifferent(p.dk, i, p.dp, j);
        if (d < first) { second = first; first = d; c.best = j; }
        else if (d < second) second = d;
      }
      if (c.best < 0) continue;
      c.d = first;
      if (bits - first <= limit) { c.best = -1; continue; }
      if (first == second) { c.sure = false; break; }
      if (second <= bits && second > 0) {
        const double ratio = static_cast<double>(first) / second;
        if (std::abs(ratio - 0.8) < 1e-6) c.sure = false;
        if (!(ratio < 0.8)) { c.best = -1; break; }
      }
    }
  }
  size_t sure = 0, rivals = 0;
  for (int i = 0; i < nk; ++i) {
    if (!choice[i].sure) continue;
    if (choice[i].best < 0) {
      std::string all;
      if (of_k[i] >= 0) for (int j = 0; j < np; ++j) {
        const double e = std::max(std::abs(p.kp1(0, j) - p.pred(0, i)), std::abs(p.kp1(1, j) - p.pred(1, i)));
        if (e <= kLarge + 1) all += vf::fmt(" %d:%dbits@%.2f", j, bitsDifferent(p.dk, i, p.dp, j), e);
      }
      VF_EXPECT(of_k[i] < 0, "implausible", "keypoint %d was matched to %d although no candidate is near, close and distinctive:%s", i, of_k[i], all.c_str());
      continue;
    }
    // Who else wants it; the closest wins.
    bool wins = true, doubtful = false;
    for (int j = 0; j < nk; ++j) {
      if (j == i) continue;
      if (!choice[j].sure) doubtful = true;
      if (choice[j].best != choice[i].best) continue;
      if (choice[j].d < choice[i].d) wins = false;
      if (choice[j].d == choice[i].d) doubtful = true;
      ++rivals;
    }
    if (doubtful) {
      // Doubts only matter if the doubtful one could want the same keypoint.
      doubtful = false;
      for (int j = 0; j < nk; ++j) if (j != i && p.ok[j] && (!choice[j].sure || (choice[j].best == choice[i].best && choice[j].d == choice[i].d)))
        doubtful |= bitsDifferent(p.dk, j, p.dp, choice[i].best) <= choice[i].d;
    }
    if (doubtful) continue;
    ++sure;
    if (wins) VF_EXPECT(of_k[i] == choice[i].best, "found", "keypoint %d belongs to %d (%d of %d bits differ, at (%.3f %.3f), predicted (%.3f %.3f), %dx%d) but was matched to %d", i, choice[i].best, choice[i].d, bits, p.kp1(0, choice[i].best), p.kp1(1, choice[i].best), p.pred(0, i), p.pred(1, i), p.width, p.height, of_k[i]);
    else if (of_k[i] >= 0) {
      VF_EXPECT(of_k[i] != choice[i].best, "rival", "keypoint %d got %d although another one is closer", i, of_k[i]);
      VF_EXPECT(bits - bitsDifferent(p.dk, i, p.dp, of_k[i]) > bits * 0.85 - 1e-3, "second-choice", "keypoint %d got its second choice %d, which differs in %d of %d bits", i, of_k[i], bitsDifferent(p.dk, i, p.dp, of_k[i]), bits);
    }
  }
  // A loser whose second choice nobody wants gets it.
  for (int i = 0; i < nk; ++i) {
    if (!choice[i].sure || choice[i].best < 0 || of_k[i] >= 0) continue;
    bool looked_far = true;
    for (int j = 0; j < np; ++j) if (std::max(std::abs(p.kp1(0, j) - p.pred(0, i)), std::abs(p.kp1(1, j) - p.pred(1, i))) <= kSmall - 1 && bits - bitsDifferent(p.dk, i, p.dp, j) > static_cast<int>(bits * 0.8f)) looked_far = false;
    for (int j = 0; j < np; ++j) {
      const double e = std::max(std::abs(p.kp1(0, j) - p.pred(0, i)), std::abs(p.kp1(1, j) - p.pred(1, i)));
      if (e > (looked_far ? kLarge : kSmall) - 1 || of_p[j] >= 0 || p.kp1(1, j) < 0 || p.kp1(1, j) >= p.height) continue;
      VF_EXPECT(bits - bitsDifferent(p.dk, i, p.dp, j) <= bits * 0.85 + 1e-3, "left-over", "keypoint %d lost %d to another one and %d, which differs in %d of %d bits, was left unmatched", i, choice[i].best, j, bitsDifferent(p.dk, i, p.dp, j), bits);
    }
  }
  // True partners with distinctive descriptors.
  for (int i = 0; i < nk; ++i) {
    const int t = p.truth[i];
    if (t < 0 || !p.ok[i]) continue;
    if (std::max(std::abs(p.kp1(0, t) - p.pred(0, i)), std::abs(p.kp1(1, t) - p.pred(1, i))) > kSmall - 1) continue;
    if (p.kp1(0, t) < 0 || p.kp1(1, t) < 0 || p.kp1(0, t) >= p.width || p.kp1(1, t) >= p.height) continue;
    const int d = bitsDifferent(p.dk, i, p.dp, t);
    bool distinctive = d <= bits * 0.12;
    for (int j = 0; j < np && distinctive; ++j) if (j != t) distinctive = bitsDifferent(p.dk, i, p.dp, j) > bits * 0.25;
    for (int j = 0; j < nk && distinctive; ++j) if (j != i) distinctive = bitsDifferent(p.dk, j, p.dp, t) > bits * 0.25;
    if (!distinctive) continue;
    VF_EXPECT(of_k[i] == t, "true-partner", "keypoint %d at (%.3f %.3f), predicted (%.3f %.3f) in %dx%d, was matched to %d instead of %d", i, p.kp1(0, t), p.kp1(1, t), p.pred(0, i), p.pred(1, i), p.width, p.height, of_k[i], t);
    vf::count("distinctive partners");
  }
  vf::count("choices checked", sure);
  vf::count("rival claims", rivals);
  vf::evaluated(vf::hashBytes(p.kp1.data(), p.kp1.size() * 8) ^ vf::hashBytes(p.dk.data(), p.dk.size()), !m.empty(), vf::fmt("%d and %d keypoints, %zu matches", nk, np, m.size()));
}
void refusals(Rng& r, uint64_t) {
  Pair p = somePair(r);
  FrameToFrameMatches m;
  const Quaternion q;
  std::string what;
  vf::Outcome o = vf::kOk;
  auto run = [&](VisualFrame& a, VisualFrame& b, uint32_t h, FrameToFrameMatches* out) { GyroTwoFrameMatcher g(q, a, b, p.type, h, p.pred, p.ok, out); g.match(); };
  switch (r.below(5)) {
    case 0: what = "same-time"; p.fk->setTimestampNanoseconds(101); break;
    case 1: what = "backwards"; p.fk->setTimestampNanoseconds(102); break;
    case 2: what = "invalid"; (r.chance(0.5) ? p.fk : p.fp)->invalidate(); break;
    case 3: what = "flags"; p.ok.push_back(1); break;
    default: what = "height";
  }
  o = vf::guarded([&] { run(*p.fp, *p.fk, what == "height" ? 0 : static_cast<uint32_t>(p.height), &m); });
  VF_EXPECT(o == vf::kFatal, "refused:" + what, "%s: %s", what.c_str(), vf::outcomeName(o));
  vf::evaluated(vf::hashStr(what), true, what);
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  if (vf::opts().property == "C38") {
    vf::part("predict", vf::scale(4000, 200000), predict);
    vf::part("bearings", vf::scale(1500, 60000), bearings);
  } else {
    vf::part("match", vf::scale(7000, 150000), match);
    vf::part("refusals", vf::scale(40, 500), refusals);
  }
  return vf::finish();
}
